@raw
/// Stand-in for the parts of serde that are used.
pub mod serde {
    use super::*;
    verus! {
    pub mod de {
        use super::*;
        verus! {
        pub enum Unexpected<'a> { Str(&'a str), Other }
        pub trait Error: Sized {
            fn invalid_value<V>(u: Unexpected<'_>, e: &V) -> Self;
        }
        }
    }

    /// A string is written with `serialize_str`; what that returns is up to the format.
    pub trait Serializer: Sized {
        type Ok;
        type Error;

        spec fn vx_string(self, t: Text, r: Result<Self::Ok, Self::Error>) -> bool;

        fn serialize_str(self, v: &str) -> (r: Result<Self::Ok, Self::Error>)
            ensures
                self.vx_string(v@, r),
        ;
    }

    pub trait Visitor<'de>: Sized {
        type Value;

        /// What a string is read as (`None`: an error).
        spec fn vx_reads(t: Text, v: Option<Self::Value>) -> bool;

        fn visit_str<E: de::Error>(self, s: &str) -> (r: Result<Self::Value, E>)
            ensures
                r is Ok ==> Self::vx_reads(s@, Some(r->Ok_0)),
                r is Err ==> Self::vx_reads(s@, None),
        ;
    }

    /// A value that is not a string is an error; a string is given to the visitor.
    pub trait Deserializer<'de>: Sized {
        type Error: de::Error;

        spec fn vx_text(self) -> Option<Text>;

        fn deserialize_str<V: Visitor<'de>>(self, v: V) -> (r: Result<V::Value, Self::Error>)
            ensures
                self.vx_text() is None ==> r is Err,
                self.vx_text() is Some && r is Ok ==> V::vx_reads(self.vx_text()->Some_0, Some(r->Ok_0)),
                self.vx_text() is Some && r is Err ==> V::vx_reads(self.vx_text()->Some_0, None),
        ;
    }
    }
}
pub use serde::de::Unexpected;
pub use serde::Visitor;
pub use serde::Serializer;
pub use serde::Deserializer;
verus! {

// ---------------------------------------------------------------------------
// Serialization
// ---------------------------------------------------------------------------

/// Reading a text as an alg: exactly parsing it.
pub open spec fn reads_alg(t: Text, v: Option<Alg>) -> bool {
    match v {
        Some(a) => parse_alg_text(t) == Some(sa_of(a)) && alg_ok(galg(a)),
        None => parse_alg_text(t) is None,
    }
}

pub open spec fn reads_move(t: Text, v: Option<Move>) -> bool {
    match v {
        Some(m) => parse_move_text(t) == Some(smove(m)) && neg_ok(m.amount),
        None => parse_move_text(t) is None,
    }
}

pub open spec fn reads_quantum(t: Text, v: Option<QuantumMove>) -> bool {
    match v {
        Some(q) => parse_quantum_text(t) == Some((q.family@, q.prefix)),
        None => parse_quantum_text(t) is None,
    }
}

@item cubing_core/src/alg/alg.rs struct AlgVisitor
@item cubing_core/src/alg/move.rs struct MoveVisitor
@item cubing_core/src/alg/quantum_move.rs struct QuantumMoveVisitor

@fn cubing_core/src/alg/alg.rs <AlgVisitor as Visitor>::visit_str
%opt inherent
%opt sub Self::Value => Alg
%spec
    ensures
        r is Ok ==> reads_alg($p0@, Some(r->Ok_0)),
        r is Err ==> reads_alg($p0@, None),

@fn cubing_core/src/alg/move.rs <MoveVisitor as Visitor>::visit_str
%opt inherent
%opt sub Self::Value => Move
%spec
    ensures
        r is Ok ==> reads_move($p0@, Some(r->Ok_0)),
        r is Err ==> reads_move($p0@, None),

@fn cubing_core/src/alg/quantum_move.rs <QuantumMoveVisitor as Visitor>::visit_str
%opt inherent
%opt sub Self::Value => QuantumMove
%spec
    ensures
        r is Ok ==> reads_quantum($p0@, Some(r->Ok_0)),
        r is Err ==> reads_quantum($p0@, None),

@fn? cubing_core/src/alg/alg.rs <AlgVisitor as Visitor>::visit_borrowed_str
%opt inherent
%opt sub Self::Value => Alg
%spec
    ensures
        r is Ok ==> reads_alg($p0@, Some(r->Ok_0)),
        r is Err ==> reads_alg($p0@, None),

@fn? cubing_core/src/alg/alg.rs <AlgVisitor as Visitor>::visit_string
%opt inherent
%opt sub Self::Value => Alg
%spec
    ensures
        r is Ok ==> reads_alg($p0@, Some(r->Ok_0)),
        r is Err ==> reads_alg($p0@, None),

@fn? cubing_core/src/alg/move.rs <MoveVisitor as Visitor>::visit_borrowed_str
%opt inherent
%opt sub Self::Value => Move
%spec
    ensures
        r is Ok ==> reads_move($p0@, Some(r->Ok_0)),
        r is Err ==> reads_move($p0@, None),

@fn? cubing_core/src/alg/move.rs <MoveVisitor as Visitor>::visit_string
%opt inherent
%opt sub Self::Value => Move
%spec
    ensures
        r is Ok ==> reads_move($p0@, Some(r->Ok_0)),
        r is Err ==> reads_move($p0@, None),

@fn? cubing_core/src/alg/quantum_move.rs <QuantumMoveVisitor as Visitor>::visit_borrowed_str
%opt inherent
%opt sub Self::Value => QuantumMove
%spec
    ensures
        r is Ok ==> reads_quantum($p0@, Some(r->Ok_0)),
        r is Err ==> reads_quantum($p0@, None),

@fn? cubing_core/src/alg/quantum_move.rs <QuantumMoveVisitor as Visitor>::visit_string
%opt inherent
%opt sub Self::Value => QuantumMove
%spec
    ensures
        r is Ok ==> reads_quantum($p0@, Some(r->Ok_0)),
        r is Err ==> reads_quantum($p0@, None),

@raw
impl<'de> serde::Visitor<'de> for AlgVisitor {
    type Value = Alg;

    open spec fn vx_reads(t: Text, v: Option<Alg>) -> bool { reads_alg(t, v) }

    fn visit_str<E: serde::de::Error>(self, s: &str) -> (r: Result<Alg, E>) { AlgVisitor::visit_str(self, s) }
}

impl<'de> serde::Visitor<'de> for MoveVisitor {
    type Value = Move;

    open spec fn vx_reads(t: Text, v: Option<Move>) -> bool { reads_move(t, v) }

    fn visit_str<E: serde::de::Error>(self, s: &str) -> (r: Result<Move, E>) { MoveVisitor::visit_str(self, s) }
}

impl<'de> serde::Visitor<'de> for QuantumMoveVisitor {
    type Value = QuantumMove;

    open spec fn vx_reads(t: Text, v: Option<QuantumMove>) -> bool { reads_quantum(t, v) }

    fn visit_str<E: serde::de::Error>(self, s: &str) -> (r: Result<QuantumMove, E>) { QuantumMoveVisitor::visit_str(self, s) }
}

@fn cubing_core/src/alg/alg.rs <Alg as Serialize>::serialize
%opt inherent
%opt display
%spec
    requires
        alg_ok(galg(*self)),
    ensures
        $p0.vx_string(pr_alg(sa_of(*self)), r),
%hint start
    proof { lemma_cat_all(); }

@fn cubing_core/src/alg/move.rs <Move as Serialize>::serialize
%opt inherent
%opt display
%spec
    requires
        neg_ok(self.amount),
    ensures
        $p0.vx_string(pr_move(smove(*self)), r),
%hint start
    proof { lemma_cat_all(); }

@fn cubing_core/src/alg/quantum_move.rs <QuantumMove as Serialize>::serialize
%opt inherent
%opt display
%spec
    ensures
        $p0.vx_string(pr_quantum(self.family@, self.prefix), r),
%hint start
    proof { lemma_cat_all(); }

@fn cubing_core/src/alg/alg.rs <Alg as Deserialize>::deserialize
%opt inherent
%spec
    ensures
        $p0.vx_text() is None ==> r is Err,
        $p0.vx_text() is Some && r is Ok ==> reads_alg($p0.vx_text()->Some_0, Some(r->Ok_0)),
        $p0.vx_text() is Some && r is Err ==> reads_alg($p0.vx_text()->Some_0, None),

@fn cubing_core/src/alg/move.rs <Move as Deserialize>::deserialize
%opt inherent
%spec
    ensures
        $p0.vx_text() is None ==> r is Err,
        $p0.vx_text() is Some && r is Ok ==> reads_move($p0.vx_text()->Some_0, Some(r->Ok_0)),
        $p0.vx_text() is Some && r is Err ==> reads_move($p0.vx_text()->Some_0, None),

@fn cubing_core/src/alg/quantum_move.rs <QuantumMove as Deserialize>::deserialize
%opt inherent
%spec
    ensures
        $p0.vx_text() is None ==> r is Err,
        $p0.vx_text() is Some && r is Ok ==> reads_quantum($p0.vx_text()->Some_0, Some(r->Ok_0)),
        $p0.vx_text() is Some && r is Err ==> reads_quantum($p0.vx_text()->Some_0, None),

@raw
} // verus!
