@raw
verus! {

// ---------------------------------------------------------------------------
// Constructors and conversions of the parts of a move
// ---------------------------------------------------------------------------

impl FromSpecImpl<u32> for MoveLayer {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: u32) -> MoveLayer { MoveLayer { layer: d } }
}
impl FromSpecImpl<(u32, u32)> for MoveRange {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: (u32, u32)) -> MoveRange { MoveRange { outer_layer: d.0, inner_layer: d.1 } }
}
impl FromSpecImpl<MoveLayer> for MovePrefix {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: MoveLayer) -> MovePrefix { MovePrefix::Layer(d) }
}
impl FromSpecImpl<MoveRange> for MovePrefix {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: MoveRange) -> MovePrefix { MovePrefix::Range(d) }
}
impl FromSpecImpl<u32> for MovePrefix {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: u32) -> MovePrefix { MovePrefix::Layer(MoveLayer { layer: d }) }
}
impl FromSpecImpl<(u32, u32)> for MovePrefix {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: (u32, u32)) -> MovePrefix { MovePrefix::Range(MoveRange { outer_layer: d.0, inner_layer: d.1 }) }
}

impl FromSpecImpl<MoveLayer> for Option<MovePrefix> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: MoveLayer) -> Option<MovePrefix> { Some(MovePrefix::Layer(d)) }
}
impl FromSpecImpl<MoveRange> for Option<MovePrefix> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: MoveRange) -> Option<MovePrefix> { Some(MovePrefix::Range(d)) }
}

@fn cubing_core/src/alg/quantum_move.rs MoveLayer::new
%spec
    ensures
        r.layer == $p0,
@fn cubing_core/src/alg/quantum_move.rs MoveRange::new
%spec
    ensures
        r.outer_layer == $p0,
        r.inner_layer == $p1,
@fn cubing_core/src/alg/quantum_move.rs <Option<MovePrefix> as From<MoveLayer>>::from
@fn cubing_core/src/alg/quantum_move.rs <Option<MovePrefix> as From<MoveRange>>::from
@fn cubing_core/src/alg/quantum_move.rs QuantumMove::new
%spec
    ensures
        r.prefix == $p1,
        call_ensures(Into::<String>::into, ($p0,), r.family),
@fn cubing_core/src/alg/quantum_move.rs <MoveLayer as From<u32>>::from
@fn cubing_core/src/alg/quantum_move.rs <MoveRange as From<(u32, u32)>>::from
@fn cubing_core/src/alg/quantum_move.rs <MovePrefix as From<MoveLayer>>::from
@fn cubing_core/src/alg/quantum_move.rs <MovePrefix as From<MoveRange>>::from
@fn cubing_core/src/alg/quantum_move.rs <MovePrefix as From<u32>>::from
@fn cubing_core/src/alg/quantum_move.rs <MovePrefix as From<(u32, u32)>>::from
@raw
} // verus!
