@raw
verus! {

// ---------------------------------------------------------------------------
// Algs: mathematical view
// ---------------------------------------------------------------------------

/// An alg node as a mathematical tree (an alg is a sequence of them).
pub enum GNode {
    Mv(Move),
    Pause,
    Newline,
    Comment(Seq<char>),
    Group(Seq<GNode>, i32),
    Comm(Seq<GNode>, Seq<GNode>),
    Conj(Seq<GNode>, Seq<GNode>),
}

pub type GAlg = Seq<GNode>;

pub open spec fn gnode(n: AlgNode) -> GNode
    decreases n,
{
    match n {
        AlgNode::MoveNode(m) => GNode::Mv(m),
        AlgNode::PauseNode(_) => GNode::Pause,
        AlgNode::NewlineNode(_) => GNode::Newline,
        AlgNode::LineCommentNode(c) => GNode::Comment(c.text@),
        AlgNode::GroupingNode(g) => GNode::Group(galg(*g.alg), g.amount),
        AlgNode::CommutatorNode(c) => GNode::Comm(galg(*c.a), galg(*c.b)),
        AlgNode::ConjugateNode(c) => GNode::Conj(galg(*c.a), galg(*c.b)),
    }
}

pub open spec fn galg(a: Alg) -> GAlg
    decreases a,
{
    Seq::new(a.nodes@.len(), |i: int| if 0 <= i < a.nodes@.len() { gnode(a.nodes@[i]) } else { GNode::Pause })
}

pub proof fn lemma_galg(a: &Alg)
    ensures
        galg(*a).len() == a.nodes@.len(),
        forall|i: int| 0 <= i < a.nodes@.len() ==> #[trigger] galg(*a)[i] == gnode(a.nodes@[i]),
{
}

pub proof fn lemma_galg_two()
    ensures
        forall|a: Alg| a.nodes@.len() == 2 ==> #[trigger] galg(a) == seq![gnode(a.nodes@[0]), gnode(a.nodes@[1])],
{
    assert forall|a: Alg| a.nodes@.len() == 2 implies #[trigger] galg(a) == seq![gnode(a.nodes@[0]), gnode(a.nodes@[1])] by {
        lemma_galg(&a);
        assert(galg(a) =~= seq![gnode(a.nodes@[0]), gnode(a.nodes@[1])]);
    }
}

/// Amounts can be negated (the smallest `i32` cannot).
pub open spec fn neg_ok(n: i32) -> bool {
    n > i32::MIN
}

pub open spec fn node_ok(n: GNode) -> bool
    decreases n,
{
    match n {
        GNode::Mv(m) => neg_ok(m.amount),
        GNode::Group(s, k) => neg_ok(k) && alg_ok(s),
        GNode::Comm(a, b) => alg_ok(a) && alg_ok(b),
        GNode::Conj(a, b) => alg_ok(a) && alg_ok(b),
        _ => true,
    }
}

pub open spec fn alg_ok(s: GAlg) -> bool
    decreases s,
{
    forall|i: int| 0 <= i < s.len() ==> node_ok(#[trigger] s[i])
}

pub open spec fn is_quantum(q: QuantumMove, family: Seq<char>) -> bool {
    q.family@ == family && q.prefix is None
}

pub open spec fn neg(n: i32) -> i32 {
    (-(n as int)) as i32
}

/// `/` is its own inverse; any other move negates its amount.
pub open spec fn move_inv(m: Move) -> Move {
    if is_quantum(*m.quantum, "_SLASH_"@) { m } else { Move { quantum: m.quantum, amount: neg(m.amount) } }
}

/// `(x, y)`: U_SQ_ and D_SQ_ moves in a group of amount 1.
pub open spec fn sq1_tuple(s: GAlg, k: i32) -> bool {
    &&& k == 1
    &&& sq1_pair(s)
}

pub open spec fn sq1_pair(s: GAlg) -> bool {
    &&& s.len() == 2
    &&& s[0] is Mv
    &&& s[1] is Mv
    &&& is_quantum(*s[0]->Mv_0.quantum, "U_SQ_"@)
    &&& is_quantum(*s[1]->Mv_0.quantum, "D_SQ_"@)
}

pub open spec fn node_inv(n: GNode) -> GNode
    decreases n,
{
    match n {
        GNode::Mv(m) => GNode::Mv(move_inv(m)),
        GNode::Group(s, k) =>
            if sq1_tuple(s, k) {
                GNode::Group(seq![GNode::Mv(move_inv(s[0]->Mv_0)), GNode::Mv(move_inv(s[1]->Mv_0))], 1)
            } else {
                GNode::Group(s, neg(k))
            },
        GNode::Comm(a, b) => GNode::Comm(b, a),
        GNode::Conj(a, b) => GNode::Conj(a, alg_inv(b)),
        _ => n,
    }
}

/// The inverses of the nodes in reverse order.
pub open spec fn alg_inv(s: GAlg) -> GAlg
    decreases s,
{
    Seq::new(s.len(), |i: int| if 0 <= i < s.len() { node_inv(s[s.len() - 1 - i]) } else { GNode::Pause })
}

pub proof fn lemma_alg_inv(s: GAlg)
    ensures
        alg_inv(s).len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] alg_inv(s)[i] == node_inv(s[s.len() - 1 - i]),
{
}

pub proof fn lemma_sq1_literals()
    ensures
        "U_SQ_"@ != "_SLASH_"@,
        "D_SQ_"@ != "_SLASH_"@,
        "D_SQ_"@ != "U_SQ_"@,
{
    reveal_strlit("U_SQ_");
    reveal_strlit("D_SQ_");
    reveal_strlit("_SLASH_");
    assert("U_SQ_"@[0] == 'U');
    assert("D_SQ_"@[0] == 'D');
    assert("_SLASH_"@[0] == '_');
}

/// The inverse has amounts that can be negated again.
pub proof fn lemma_node_inv_ok(n: GNode)
    requires
        node_ok(n),
    ensures
        node_ok(node_inv(n)),
    decreases n,
{
    match n {
        GNode::Group(s, k) => {
            if sq1_tuple(s, k) {
                assert(node_ok(s[0]) && node_ok(s[1]));
                let s2 = seq![GNode::Mv(move_inv(s[0]->Mv_0)), GNode::Mv(move_inv(s[1]->Mv_0))];
                assert(node_ok(s2[0]) && node_ok(s2[1]));
                assert(alg_ok(s2));
            }
        },
        GNode::Conj(a, b) => { lemma_alg_inv_ok(b); },
        _ => {},
    }
}

pub proof fn lemma_alg_inv_ok(s: GAlg)
    requires
        alg_ok(s),
    ensures
        alg_ok(alg_inv(s)),
    decreases s,
{
    lemma_alg_inv(s);
    assert forall|i: int| 0 <= i < s.len() implies node_ok(#[trigger] alg_inv(s)[i]) by {
        assert(node_ok(s[s.len() - 1 - i]));
        lemma_node_inv_ok(s[s.len() - 1 - i]);
    }
}

/// No group of amount -1 around exactly a pair of Square-1 moves (its inverse is read as the
/// tuple, and the tuple inverts by negating both entries: the recorded finding of C11).
pub open spec fn node_plain(n: GNode) -> bool
    decreases n,
{
    match n {
        GNode::Group(s, k) => !(k == -1 && sq1_pair(s)) && alg_plain(s),
        GNode::Comm(a, b) => alg_plain(a) && alg_plain(b),
        GNode::Conj(a, b) => alg_plain(a) && alg_plain(b),
        _ => true,
    }
}

pub open spec fn alg_plain(s: GAlg) -> bool
    decreases s,
{
    forall|i: int| 0 <= i < s.len() ==> node_plain(#[trigger] s[i])
}

pub proof fn lemma_move_inv_inv(m: Move)
    requires
        neg_ok(m.amount),
    ensures
        move_inv(move_inv(m)) == m,
{
}

/// Inverting twice gives the original.
pub proof fn lemma_node_inv_inv(n: GNode)
    requires
        node_ok(n),
        node_plain(n),
    ensures
        node_inv(node_inv(n)) == n,
    decreases n,
{
    match n {
        GNode::Mv(m) => lemma_move_inv_inv(m),
        GNode::Group(s, k) => {
            if sq1_tuple(s, k) {
                lemma_sq1_literals();
                assert(node_ok(s[0]) && node_ok(s[1]));
                let s2 = seq![GNode::Mv(move_inv(s[0]->Mv_0)), GNode::Mv(move_inv(s[1]->Mv_0))];
                assert(sq1_tuple(s2, 1));
                assert(node_inv(node_inv(n)) == GNode::Group(seq![GNode::Mv(move_inv(s2[0]->Mv_0)), GNode::Mv(move_inv(s2[1]->Mv_0))], 1));
                assert(seq![GNode::Mv(move_inv(s2[0]->Mv_0)), GNode::Mv(move_inv(s2[1]->Mv_0))] =~= s);
            }
        },
        GNode::Conj(a, b) => { lemma_alg_inv_inv(b); },
        _ => {},
    }
}

pub proof fn lemma_alg_inv_inv(s: GAlg)
    requires
        alg_ok(s),
        alg_plain(s),
    ensures
        alg_inv(alg_inv(s)) == s,
    decreases s,
{
    lemma_alg_inv(s);
    lemma_alg_inv(alg_inv(s));
    assert forall|i: int| 0 <= i < s.len() implies alg_inv(alg_inv(s))[i] == #[trigger] s[i] by {
        assert(node_ok(s[i]) && node_plain(s[i]));
        lemma_node_inv_inv(s[i]);
    }
    assert(alg_inv(alg_inv(s)) =~= s);
}

/// The inverse of a concatenation is the concatenation of the inverses, swapped.
pub proof fn lemma_alg_inv_concat(a: GAlg, b: GAlg)
    ensures
        alg_inv(a + b) == alg_inv(b) + alg_inv(a),
{
    lemma_alg_inv(a);
    lemma_alg_inv(b);
    lemma_alg_inv(a + b);
    assert(alg_inv(a + b) =~= alg_inv(b) + alg_inv(a));
}

@raw
} // verus!
