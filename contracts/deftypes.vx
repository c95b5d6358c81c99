@raw
verus! {

// ---------------------------------------------------------------------------
// Puzzle definition types
// ---------------------------------------------------------------------------
@item cubing_core/src/kpuzzle/definition.rs struct KPuzzleOrbitName
%needderive Eq Hash
%derive PartialEq
    ensures
        r == (*self == *other),
---
    proof { axiom_string_string_eq(); axiom_string_ext(self.0, other.0); }
%derive Clone
    ensures
        r == *self,
---
    proof { axiom_string_ext(self.0, vx_r.0); }
@item cubing_core/src/kpuzzle/definition.rs struct KPuzzleOrbitDefinition
@item cubing_core/src/kpuzzle/definition.rs struct KPatternOrbitData
%derive Clone
    ensures
        r.pieces@ == self.pieces@,
        r.orientation@ == self.orientation@,
        r.orientation_mod is Some <==> self.orientation_mod is Some,
        r.orientation_mod is Some ==> r.orientation_mod->0@ == self.orientation_mod->0@,
---
    proof {
        assert(vx_r.pieces@ =~= self.pieces@);
        assert(vx_r.orientation@ =~= self.orientation@);
        if self.orientation_mod is Some { assert(vx_r.orientation_mod->0@ =~= self.orientation_mod->0@); }
    }
@item cubing_core/src/kpuzzle/definition.rs type KPatternData
@item cubing_core/src/kpuzzle/definition.rs struct KTransformationOrbitData
%derive Clone
    ensures
        r.permutation@ == self.permutation@,
        r.orientation_delta@ == self.orientation_delta@,
---
    proof {
        assert(vx_r.permutation@ =~= self.permutation@);
        assert(vx_r.orientation_delta@ =~= self.orientation_delta@);
    }
@item cubing_core/src/kpuzzle/definition.rs type KTransformationData
@item cubing_core/src/kpuzzle/definition.rs struct KPuzzleDefinition
@item cubing_core/src/kpuzzle/packed/kpuzzle.rs struct KPuzzleOrbitInfo
@item cubing_core/src/kpuzzle/packed/kpuzzle.rs struct KPuzzleData
@item cubing_core/src/kpuzzle/packed/kpuzzle.rs struct KPuzzle
%derive Clone
    ensures
        r == *self,
@item cubing_core/src/kpuzzle/packed/packed_orbit_data.rs struct PackedOrbitData
%fields
    pub perm: Tracked<RawBytes>,
@item cubing_core/src/kpuzzle/packed/ktransformation.rs struct KTransformation
%derive Clone inherent
    requires
        self.wf(),
    ensures
        r.wf(),
        r.k() == self.k(),
        r.view() == self.view(),
        r.packed_orbit_data.same_bytes(&self.packed_orbit_data),
---
    proof { lemma_t_same(self, &vx_r); }
@item cubing_core/src/kpuzzle/packed/kpattern.rs struct KPattern
%derive Clone inherent
    requires
        self.wf(),
    ensures
        r.wf(),
        r.k() == self.k(),
        r.view() == self.view(),
        r.packed_orbit_data.same_bytes(&self.packed_orbit_data),
---
    proof { lemma_p_same(self, &vx_r); }
%derive PartialEq inherent
    requires
        self.wf(),
        other.wf(),
    ensures
        r == (self.packed_orbit_data.bytes_seq() == other.packed_orbit_data.bytes_seq()),
        self.k() == other.k() ==> r == (self.view() == other.view()),
---
    proof {
        lemma_p_wf_init(self);
        lemma_p_wf_init(other);
        if self.k() == other.k() { lemma_p_eq(self, other); }
    }
%derive Hash inherent
    requires
        self.wf(),
    ensures
        *final(state) == hash_bytes(*old(state), self.packed_orbit_data.bytes_seq()),
---
    proof {
        lemma_p_wf_init(self);
    }
@item cubing_core/src/kpuzzle/packed/ktransformation.rs struct KTransformationBuffer
@item cubing_core/src/kpuzzle/packed/kpattern.rs struct KPatternBuffer
@item cubing_core/src/kpuzzle/packed/errors.rs struct InvalidKPatternDataError
@item cubing_core/src/kpuzzle/packed/errors.rs struct InvalidKTransformationDataError
@item cubing_core/src/kpuzzle/packed/kpuzzle.rs struct InvalidDefinitionError
@item cubing_core/src/kpuzzle/packed/kpuzzle.rs struct InvalidMoveError
@item cubing_core/src/alg/parse.rs struct AlgParseError
@item cubing_core/src/kpuzzle/packed/kpuzzle.rs enum InvalidAlgError
@item cubing_core/src/kpuzzle/packed/kpuzzle.rs enum ConversionError
@raw
impl PartialEqSpecImpl for KPuzzleOrbitName {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &KPuzzleOrbitName) -> bool { *self == *o }
}
} // verus!
