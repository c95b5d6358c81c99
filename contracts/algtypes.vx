@raw
verus! {

// ---------------------------------------------------------------------------
// Alg data types
// ---------------------------------------------------------------------------
@item cubing_core/src/alg/amount.rs type Amount
@item cubing_core/src/alg/quantum_move.rs struct MoveLayer
%needderive Eq Hash
%derive PartialEq
    ensures
        r == (*self == *other),
%derive Clone
    ensures
        r == *self,
@item cubing_core/src/alg/quantum_move.rs struct MoveRange
%needderive Eq Hash
%derive PartialEq
    ensures
        r == (*self == *other),
%derive Clone
    ensures
        r == *self,
@item cubing_core/src/alg/quantum_move.rs enum MovePrefix
%needderive Eq Hash
%derive PartialEq
    ensures
        r == (*self == *other),
%derive Clone
    ensures
        r == *self,
@item cubing_core/src/alg/quantum_move.rs struct QuantumMove
%needderive Eq Hash
%derive PartialEq
    ensures
        r == (*self == *other),
---
    proof { axiom_string_string_eq(); axiom_string_ext(self.family, other.family); }
%derive Clone
    ensures
        r == *self,
---
    proof { axiom_string_ext(self.family, vx_r.family); }
@item cubing_core/src/alg/move.rs struct Move
%needderive Eq Hash
%derive PartialEq
    ensures
        r == (*self == *other),
---
    proof { lemma_arc_quantum_eq(); }
%derive Clone
    ensures
        r == *self,
@item cubing_core/src/alg/pause.rs struct Pause
%derive Clone
    ensures
        r == *self,
@item cubing_core/src/alg/newline.rs struct Newline
%derive Clone
    ensures
        r == *self,
@item cubing_core/src/alg/line_comment.rs struct LineComment
%derive Clone
    ensures
        r == *self,
---
    proof { axiom_string_ext(self.text, vx_r.text); }
@item cubing_core/src/alg/alg.rs struct Alg
%needderive PartialEq
%derive Clone
    ensures
        r.nodes@ == self.nodes@,
---
    proof { assert(vx_r.nodes@ =~= self.nodes@); }
@item cubing_core/src/alg/grouping.rs struct Grouping
%needderive PartialEq
%derive Clone
    ensures
        r == *self,
@item cubing_core/src/alg/commutator.rs struct Commutator
%needderive PartialEq
%derive Clone
    ensures
        r == *self,
@item cubing_core/src/alg/conjugate.rs struct Conjugate
%needderive PartialEq
%derive Clone
    ensures
        r == *self,
@item cubing_core/src/alg/alg_node.rs enum AlgNode
%needderive PartialEq
%derive Clone
    ensures
        r == *self,
@raw

// Equality of these types is structural (proved of the derived comparison).
impl PartialEqSpecImpl for MoveLayer {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &MoveLayer) -> bool { *self == *o }
}
impl PartialEqSpecImpl for MoveRange {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &MoveRange) -> bool { *self == *o }
}
impl PartialEqSpecImpl for MovePrefix {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &MovePrefix) -> bool { *self == *o }
}
impl PartialEqSpecImpl for QuantumMove {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &QuantumMove) -> bool { *self == *o }
}
impl PartialEqSpecImpl for Move {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Move) -> bool { *self == *o }
}

/// Comparing `String`s compares characters.
pub axiom fn axiom_string_string_eq()
    ensures
        <String as PartialEqSpec>::obeys_eq_spec(),
        forall|a: String, b: String| #[trigger] <String as PartialEqSpec>::eq_spec(&a, &b) == (a@ == b@),
;

/// Comparing `Arc`s compares their contents.
pub axiom fn axiom_arc_eq<T: PartialEq>()
    ensures
        <T as PartialEqSpec>::obeys_eq_spec() ==> <Arc<T> as PartialEqSpec>::obeys_eq_spec(),
        forall|a: Arc<T>, b: Arc<T>| #[trigger] <Arc<T> as PartialEqSpec>::eq_spec(&a, &b) == <T as PartialEqSpec>::eq_spec(&*a, &*b),
;

pub proof fn lemma_arc_quantum_eq()
    ensures
        <Arc<QuantumMove> as PartialEqSpec>::obeys_eq_spec(),
        forall|a: Arc<QuantumMove>, b: Arc<QuantumMove>| #[trigger] <Arc<QuantumMove> as PartialEqSpec>::eq_spec(&a, &b) == (*a == *b),
{
    axiom_arc_eq::<QuantumMove>();
}
} // verus!
