@raw
verus! {

// ---------------------------------------------------------------------------
// Equality of strings and quantum moves (derived `PartialEq`)
// ---------------------------------------------------------------------------

/// Comparing a `String` with a literal compares characters.
pub axiom fn axiom_string_eq()
    ensures
        <String as PartialEqSpec<&'static str>>::obeys_eq_spec(),
        forall|a: String, b: &'static str| #[trigger] <String as PartialEqSpec<&'static str>>::eq_spec(&a, &b) == (a@ == b@),
;

/// `From<T> for Arc<T>` puts the value in an `Arc`.
pub axiom fn axiom_arc_from<T>()
    ensures
        <Arc<T> as FromSpec<T>>::obeys_from_spec(),
        forall|t: T| *#[trigger] <Arc<T> as FromSpec<T>>::from_spec(t) == t,
        // what the blanket `Into` makes of it
        <T as IntoSpec<Arc<T>>>::obeys_into_spec(),
        forall|t: T| *#[trigger] <T as IntoSpec<Arc<T>>>::into_spec(t) == t,
;

/// Stand-in for the `OnceLock` cells: the closure is run.
pub struct VxCell {}

pub const U_SQ_quantum_cell: VxCell = VxCell {};

pub const D_SQ_quantum_cell: VxCell = VxCell {};

#[verifier::external_body]
pub fn vx_get_or_init<T, F: FnOnce() -> T>(c: VxCell, f: F) -> (r: &'static T)
    requires
        f.requires(()),
    ensures
        f.ensures((), *r),
{
    unimplemented!()
}

/// A quantum move is determined by its family's characters and its prefix.
pub proof fn lemma_quantum_ext(a: QuantumMove, b: QuantumMove)
    requires
        a.family@ == b.family@,
        a.prefix == b.prefix,
    ensures
        a == b,
{
    axiom_string_ext(a.family, b.family);
}

pub proof fn lemma_quantum_eq_all()
    ensures
        <Arc<QuantumMove> as PartialEqSpec>::obeys_eq_spec(),
        forall|a: Arc<QuantumMove>, b: Arc<QuantumMove>| #[trigger] <Arc<QuantumMove> as PartialEqSpec>::eq_spec(&a, &b) == (*a == *b),
        forall|a: QuantumMove, b: QuantumMove, f: Seq<char>| #[trigger] is_quantum(a, f) && #[trigger] is_quantum(b, f) ==> a == b,
{
    lemma_arc_quantum_eq();
    assert forall|a: QuantumMove, b: QuantumMove, f: Seq<char>| #[trigger] is_quantum(a, f) && #[trigger] is_quantum(b, f) implies a == b by {
        lemma_quantum_ext(a, b);
    }
}

@item cubing_core/src/alg/move.rs const _SLASH_

@fn cubing_core/src/alg/special_notation.rs U_SQ_quantum
%opt call get_or_init vx_get_or_init
%spec
    ensures
        is_quantum(*r, "U_SQ_"@),
%hint start
    proof { axiom_arc_from::<QuantumMove>(); }
%closure 0
|| -> (vx_q: Arc<QuantumMove>)
    ensures
        is_quantum(*vx_q, "U_SQ_"@),

@fn cubing_core/src/alg/special_notation.rs D_SQ_quantum
%opt call get_or_init vx_get_or_init
%spec
    ensures
        is_quantum(*r, "D_SQ_"@),
%hint start
    proof { axiom_arc_from::<QuantumMove>(); }
%closure 0
|| -> (vx_q: Arc<QuantumMove>)
    ensures
        is_quantum(*vx_q, "D_SQ_"@),

@fn cubing_core/src/alg/move.rs Move::invert
%spec
    requires
        neg_ok(self.amount),
    ensures
        r == move_inv(*self),
        neg_ok(r.amount),
%hint start
    proof { axiom_string_eq(); }

@raw
impl FromSpecImpl<Move> for AlgNode {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: Move) -> AlgNode { AlgNode::MoveNode(d) }
}
impl FromSpecImpl<Pause> for AlgNode {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: Pause) -> AlgNode { AlgNode::PauseNode(d) }
}
impl FromSpecImpl<Newline> for AlgNode {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: Newline) -> AlgNode { AlgNode::NewlineNode(d) }
}
impl FromSpecImpl<LineComment> for AlgNode {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: LineComment) -> AlgNode { AlgNode::LineCommentNode(d) }
}
impl FromSpecImpl<Grouping> for AlgNode {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: Grouping) -> AlgNode { AlgNode::GroupingNode(d) }
}
impl FromSpecImpl<Commutator> for AlgNode {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: Commutator) -> AlgNode { AlgNode::CommutatorNode(d) }
}
impl FromSpecImpl<Conjugate> for AlgNode {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: Conjugate) -> AlgNode { AlgNode::ConjugateNode(d) }
}
@fn cubing_core/src/alg/alg_node.rs <AlgNode as From<Move>>::from
@fn cubing_core/src/alg/alg_node.rs <AlgNode as From<Pause>>::from
@fn cubing_core/src/alg/alg_node.rs <AlgNode as From<Newline>>::from
@fn cubing_core/src/alg/alg_node.rs <AlgNode as From<LineComment>>::from
@fn cubing_core/src/alg/alg_node.rs <AlgNode as From<Grouping>>::from
@fn cubing_core/src/alg/alg_node.rs <AlgNode as From<Commutator>>::from
@fn cubing_core/src/alg/alg_node.rs <AlgNode as From<Conjugate>>::from

@fn cubing_core/src/alg/pause.rs Pause::invert
@fn cubing_core/src/alg/newline.rs Newline::invert
@fn cubing_core/src/alg/line_comment.rs LineComment::invert
%spec
    ensures
        r == *self,

@fn cubing_core/src/alg/grouping.rs Grouping::square1_tuple
%spec
    ensures
        r is Some <==> sq1_tuple(galg(*self.alg), self.amount),
        r is Some ==> GNode::Mv(*r->Some_0.0) == galg(*self.alg)[0] && GNode::Mv(*r->Some_0.1) == galg(*self.alg)[1],
%hint start
    proof {
        lemma_galg(&self.alg);
        lemma_quantum_eq_all();
    }

@fn cubing_core/src/alg/grouping.rs Grouping::invert
%spec
    requires
        neg_ok(self.amount),
        alg_ok(galg(*self.alg)),
    ensures
        GNode::Group(galg(*r.alg), r.amount) == node_inv(GNode::Group(galg(*self.alg), self.amount)),
%hint start
    proof { lemma_galg(&self.alg); lemma_galg_two(); }

@fn cubing_core/src/alg/commutator.rs Commutator::invert
%spec
    ensures
        galg(*r.a) == galg(*self.b),
        galg(*r.b) == galg(*self.a),

@fn cubing_core/src/alg/conjugate.rs Conjugate::invert
%spec
    requires
        alg_ok(galg(*self.a)),
        alg_ok(galg(*self.b)),
    ensures
        galg(*r.a) == galg(*self.a),
        galg(*r.b) == alg_inv(galg(*self.b)),
    decreases
        self,
%hint start
    proof { axiom_arc_from::<Alg>(); }

@fn cubing_core/src/alg/alg_node.rs AlgNode::invert
%spec
    requires
        node_ok(gnode(*self)),
    ensures
        gnode(r) == node_inv(gnode(*self)),
    decreases
        self,

@fn cubing_core/src/alg/alg.rs Alg::invert
%spec
    requires
        alg_ok(galg(*self)),
    ensures
        galg(r) == alg_inv(galg(*self)),
        alg_ok(galg(r)),
    decreases
        self,
%hint start
    proof {
        lemma_galg(self);
        assert forall|i: int| 0 <= i < self.nodes@.len() implies node_ok(gnode(#[trigger] self.nodes@[i])) by {
            assert(node_ok(galg(*self)[i]));
        }
    }
%closure 0
|$c0_0: &AlgNode| -> (vx_q: AlgNode)
    requires
        decreases_to!(self => $c0_0),
        node_ok(gnode(*$c0_0)),
    ensures
        gnode(vx_q) == node_inv(gnode(*$c0_0)),
%hint tail
    proof {
        lemma_galg(self);
        lemma_alg_inv(galg(*self));
        lemma_alg_inv_ok(galg(*self));
        assert(galg(vx_r) =~= alg_inv(galg(*self)));
    }

@raw
} // verus!
