@include prelude.vx
@include algtypes.vx
@include algtheory.vx
@include alginv.vx
@include algbuild.vx
@include ctors.vx
@include stdspecs.vx
@raw
fn main() {}
