@include prelude.vx
@include memory.vx
@include types.vx
@include algtypes.vx
@include deftypes.vx
@raw
verus! {
@include packer.vx
@raw
} // verus!
@include theory.vx
@include kp.vx
@include kt.vx
@include kpat.vx
@include kbuf.vx
@include kconv.vx
@include stdspecs.vx
@raw
fn main() {}
