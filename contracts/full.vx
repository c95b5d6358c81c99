@include prelude.vx
@include memory.vx
@include types.vx
@include algtypes.vx
@include algtheory.vx
@include deftypes.vx
@raw
verus! {
@include packer.vx
@raw
} // verus!
@include theory.vx
@include kp.vx
@include kt.vx
@include kpat.vx
@include kbuf.vx
@include kconv.vx
@include alginv.vx
@include lookup.vx
@include walk.vx
@include eval.vx
@include validator.vx
@include kpuz.vx
@include kapply.vx
@include stdspecs.vx
@raw
fn main() {}
