@include prelude.vx
@include algtypes.vx
@include algtheory.vx
@include alginv.vx
@include syntheory.vx
@include synround.vx
@include synnorm.vx
@include fmtbase.vx
@include print.vx
@include ctors.vx
@include parse.vx
@include macrofns.vx
@include stdspecs.vx
@raw
fn main() {}
