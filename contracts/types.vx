@raw
verus! {
@item cubing_core/src/kpuzzle/packed/orientation_packer.rs type PackedOrientationWithMod
@item cubing_core/src/kpuzzle/packed/orientation_packer.rs const NUM_BYTE_VALUES
@item cubing_core/src/kpuzzle/packed/orientation_packer.rs const BOGUS_PACKED_VALUE
@item cubing_core/src/kpuzzle/packed/orientation_packer.rs const MAX_NUM_ORIENTATIONS
@item cubing_core/src/kpuzzle/packed/orientation_packer.rs struct OrientationWithMod
%keepderive Copy Clone
@item cubing_core/src/kpuzzle/packed/orientation_packer.rs const BOGUS_ORIENTATION_WITH_MOD
@item cubing_core/src/kpuzzle/packed/orientation_packer.rs struct OrientationPacker
@raw
} // verus!
