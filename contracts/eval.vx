@raw
verus! {

// ---------------------------------------------------------------------------
// Evaluation of algs
// ---------------------------------------------------------------------------

/// The transformation an alg node stands for (meaningful where `walk` holds): a move its definition
/// to the power of its relative amount, a group its content to the power of its amount,
/// [A, B] = A B A' B', [A: B] = A B A'.
pub open spec fn ev_node(k: KPuzzle, n: nat, x: GNode) -> TV
    decreases n, 0int, 0int,
{
    match x {
        GNode::Mv(m) => match lookup(k.def(), m) {
            None => tid(k.shape()),
            Some(f) =>
                if f.derived {
                    if n > 0 { zpow(k.shape(), ev(k, (n - 1) as nat, galg(k.def().dv()[f.key])), f.amount) } else { tid(k.shape()) }
                } else {
                    zpow(k.shape(), tdata_view(k, k.def().mv()[f.key]@), f.amount)
                },
        },
        GNode::Group(s, a) => if n > 0 { zpow(k.shape(), ev(k, (n - 1) as nat, s), a as int) } else { tid(k.shape()) },
        GNode::Comm(a, b) => if n > 0 {
            tcomp(k.shape(), tcomp(k.shape(), tcomp(k.shape(), ev(k, (n - 1) as nat, a), ev(k, (n - 1) as nat, b)),
                ev(k, (n - 1) as nat, alg_inv(a))), ev(k, (n - 1) as nat, alg_inv(b)))
        } else { tid(k.shape()) },
        GNode::Conj(a, b) => if n > 0 {
            tcomp(k.shape(), tcomp(k.shape(), ev(k, (n - 1) as nat, a), ev(k, (n - 1) as nat, b)), ev(k, (n - 1) as nat, alg_inv(a)))
        } else { tid(k.shape()) },
        _ => tid(k.shape()),
    }
}

/// The first `i` nodes in order.
pub open spec fn ev_upto(k: KPuzzle, n: nat, s: GAlg, i: int) -> TV
    decreases n, 1int, i,
{
    if i <= 0 { tid(k.shape()) } else { tcomp(k.shape(), ev_upto(k, n, s, i - 1), ev_node(k, n, s[i - 1])) }
}

pub open spec fn ev(k: KPuzzle, n: nat, s: GAlg) -> TV
    decreases n, 2int, 0int,
{
    ev_upto(k, n, s, s.len() as int)
}

/// `s` stands for `t` on `k`.
pub open spec fn evals_to(k: KPuzzle, s: GAlg, t: TV) -> bool {
    exists|n: nat| #[trigger] walk(k.def(), true, n, s) && ev(k, n, s) == t
}

pub open spec fn evals_to_node(k: KPuzzle, x: GNode, t: TV) -> bool {
    exists|n: nat| #[trigger] walk_node(k.def(), true, n, x) && ev_node(k, n, x) == t
}

pub open spec fn evals_to_upto(k: KPuzzle, s: GAlg, i: int, t: TV) -> bool {
    exists|n: nat| #[trigger] walk(k.def(), true, n, s.take(i)) && ev(k, n, s.take(i)) == t
}

/// The amounts used in move definitions can be negated.
pub open spec fn def_amounts_ok(d: KPuzzleDefinition) -> bool {
    &&& forall|m: Move| #[trigger] d.dv().contains_key(m) ==> neg_ok(m.amount) && alg_ok(galg(d.dv()[m]))
}

/// Every direct move definition is a transformation of the puzzle.
pub open spec fn moves_ok(k: KPuzzle) -> bool {
    forall|m: Move| #[trigger] k.def().mv().contains_key(m) ==> tdata_ok(k, k.def().mv()[m]@)
}

impl KPuzzle {
    /// A puzzle that was built successfully (from a definition without `i32::MIN` amounts).
    pub open spec fn ready(&self) -> bool {
        &&& self.wf()
        &&& def_amounts_ok(self.def())
        &&& acyclic(self.def())
        &&& moves_ok(*self)
    }
}

// The value does not depend on the number of levels.
pub proof fn lemma_ev_mono(k: KPuzzle, n: nat, m: nat, s: GAlg)
    requires
        n <= m,
        walk(k.def(), true, n, s),
    ensures
        walk(k.def(), true, m, s),
        ev(k, m, s) == ev(k, n, s),
    decreases n, 2int, 0int,
{
    lemma_walk_mono(k.def(), true, n, m, s);
    lemma_ev_upto_mono(k, n, m, s, s.len() as int);
}

pub proof fn lemma_ev_upto_mono(k: KPuzzle, n: nat, m: nat, s: GAlg, i: int)
    requires
        n <= m,
        walk(k.def(), true, n, s),
        i <= s.len(),
    ensures
        ev_upto(k, m, s, i) == ev_upto(k, n, s, i),
    decreases n, 1int, i,
{
    if i > 0 {
        lemma_ev_upto_mono(k, n, m, s, i - 1);
        assert(walk_node(k.def(), true, n, s[i - 1]));
        lemma_ev_node_mono(k, n, m, s[i - 1]);
    }
}

pub proof fn lemma_ev_node_mono(k: KPuzzle, n: nat, m: nat, x: GNode)
    requires
        n <= m,
        walk_node(k.def(), true, n, x),
    ensures
        walk_node(k.def(), true, m, x),
        ev_node(k, m, x) == ev_node(k, n, x),
    decreases n, 0int, 0int,
{
    lemma_walk_node_mono(k.def(), true, n, m, x);
    if n > 0 {
        let n1 = (n - 1) as nat;
        let m1 = (m - 1) as nat;
        match x {
            GNode::Mv(v) => {
                if let Some(f) = lookup(k.def(), v) {
                    if f.derived { lemma_ev_mono(k, n1, m1, galg(k.def().dv()[f.key])); }
                }
            },
            GNode::Group(s, _) => { lemma_ev_mono(k, n1, m1, s); },
            GNode::Comm(a, b) => {
                lemma_ev_mono(k, n1, m1, a);
                lemma_ev_mono(k, n1, m1, b);
                lemma_ev_mono(k, n1, m1, alg_inv(a));
                lemma_ev_mono(k, n1, m1, alg_inv(b));
            },
            GNode::Conj(a, b) => {
                lemma_ev_mono(k, n1, m1, a);
                lemma_ev_mono(k, n1, m1, b);
                lemma_ev_mono(k, n1, m1, alg_inv(a));
            },
            _ => {},
        }
    }
}

/// An alg stands for one transformation.
pub proof fn lemma_evals_unique(k: KPuzzle, s: GAlg, t: TV, u: TV)
    requires
        evals_to(k, s, t),
        evals_to(k, s, u),
    ensures
        t == u,
{
    let n = choose|n: nat| #[trigger] walk(k.def(), true, n, s) && ev(k, n, s) == t;
    let m = choose|m: nat| #[trigger] walk(k.def(), true, m, s) && ev(k, m, s) == u;
    lemma_ev_mono(k, n, n + m, s);
    lemma_ev_mono(k, m, n + m, s);
}

pub proof fn lemma_ev_upto_same(k: KPuzzle, n: nat, a: GAlg, b: GAlg, i: int)
    requires
        i <= a.len(),
        i <= b.len(),
        forall|h: int| 0 <= h < i ==> a[h] == b[h],
    ensures
        ev_upto(k, n, a, i) == ev_upto(k, n, b, i),
    decreases i,
{
    if i > 0 { lemma_ev_upto_same(k, n, a, b, i - 1); }
}

/// One more node.
pub proof fn lemma_evals_step(k: KPuzzle, s: GAlg, i: int, t: TV, u: TV)
    requires
        0 <= i < s.len(),
        evals_to_upto(k, s, i, t),
        evals_to_node(k, s[i], u),
    ensures
        evals_to_upto(k, s, i + 1, tcomp(k.shape(), t, u)),
{
    let a = s.take(i);
    let b = s.take(i + 1);
    let n = choose|n: nat| #[trigger] walk(k.def(), true, n, a) && ev(k, n, a) == t;
    let m = choose|m: nat| #[trigger] walk_node(k.def(), true, m, s[i]) && ev_node(k, m, s[i]) == u;
    lemma_ev_mono(k, n, n + m, a);
    lemma_ev_node_mono(k, m, n + m, s[i]);
    assert forall|h: int| 0 <= h < b.len() implies walk_node(k.def(), true, n + m, #[trigger] b[h]) by {
        if h < i { assert(b[h] == a[h]); } else { assert(b[h] == s[i]); }
    }
    lemma_ev_upto_same(k, n + m, a, b, i);
    assert(walk(k.def(), true, n + m, b));
    assert(ev(k, n + m, b) == tcomp(k.shape(), ev_upto(k, n + m, b, i), ev_node(k, n + m, b[i])));
    assert(b[i] == s[i]);
}

pub proof fn lemma_evals_done(k: KPuzzle, s: GAlg, t: TV)
    requires
        evals_to_upto(k, s, s.len() as int, t),
    ensures
        evals_to(k, s, t),
{
    assert(s.take(s.len() as int) =~= s);
}

pub proof fn lemma_evals_start(k: KPuzzle, s: GAlg)
    ensures
        evals_to_upto(k, s, 0, tid(k.shape())),
{
    let a = s.take(0);
    assert(walk(k.def(), true, 0, a));
    assert(ev(k, 0, a) == tid(k.shape()));
}

/// A node that does not resolve: neither does the alg.
pub proof fn lemma_bad_node(d: KPuzzleDefinition, s: GAlg, i: int)
    requires
        0 <= i < s.len(),
        !good_node(d, s[i]),
    ensures
        !good(d, s),
{
    if good(d, s) {
        let n = choose|n: nat| #[trigger] walk(d, true, n, s);
        assert(walk_node(d, true, n, s[i]));
    }
}

/// What a node's parts evaluate to determines the node.
pub proof fn lemma_evals_node(k: KPuzzle, x: GNode)
    ensures
        (x is Pause || x is Newline || x is Comment) ==> evals_to_node(k, x, tid(k.shape())),
        match x {
            GNode::Mv(m) => match lookup(k.def(), m) {
                None => !good_node(k.def(), x),
                Some(f) => if f.derived {
                    &&& forall|t: TV| #[trigger] evals_to(k, galg(k.def().dv()[f.key]), t) ==> evals_to_node(k, x, zpow(k.shape(), t, f.amount))
                    &&& !good(k.def(), galg(k.def().dv()[f.key])) ==> !good_node(k.def(), x)
                } else {
                    evals_to_node(k, x, zpow(k.shape(), tdata_view(k, k.def().mv()[f.key]@), f.amount))
                },
            },
            GNode::Group(s, a) => {
                &&& forall|t: TV| #[trigger] evals_to(k, s, t) ==> evals_to_node(k, x, zpow(k.shape(), t, a as int))
                &&& !good(k.def(), s) ==> !good_node(k.def(), x)
            },
            GNode::Comm(a, b) => {
                &&& forall|t: TV, u: TV, v: TV, w: TV| #[trigger] evals_to(k, a, t) && #[trigger] evals_to(k, b, u) && #[trigger] evals_to(k, alg_inv(a), v)
                    && #[trigger] evals_to(k, alg_inv(b), w)
                    ==> evals_to_node(k, x, tcomp(k.shape(), tcomp(k.shape(), tcomp(k.shape(), t, u), v), w))
                &&& !good(k.def(), a) ==> !good_node(k.def(), x)
                &&& !good(k.def(), b) ==> !good_node(k.def(), x)
                &&& !good(k.def(), alg_inv(a)) ==> !good_node(k.def(), x)
                &&& !good(k.def(), alg_inv(b)) ==> !good_node(k.def(), x)
            },
            GNode::Conj(a, b) => {
                &&& forall|t: TV, u: TV, v: TV| #[trigger] evals_to(k, a, t) && #[trigger] evals_to(k, b, u) && #[trigger] evals_to(k, alg_inv(a), v)
                    ==> evals_to_node(k, x, tcomp(k.shape(), tcomp(k.shape(), t, u), v))
                &&& !good(k.def(), a) ==> !good_node(k.def(), x)
                &&& !good(k.def(), b) ==> !good_node(k.def(), x)
                &&& !good(k.def(), alg_inv(a)) ==> !good_node(k.def(), x)
            },
            _ => true,
        },
{
    let d = k.def();
    if good_node(d, x) {
        let n = choose|n: nat| #[trigger] walk_node(d, true, n, x);
        match x {
            GNode::Mv(m) => {
                if let Some(f) = lookup(d, m) {
                    if f.derived { assert(walk(d, true, (n - 1) as nat, galg(d.dv()[f.key]))); }
                }
            },
            GNode::Group(s, _) => { assert(walk(d, true, (n - 1) as nat, s)); },
            GNode::Comm(a, b) => {
                assert(walk(d, true, (n - 1) as nat, a));
                assert(walk(d, true, (n - 1) as nat, b));
                assert(walk(d, true, (n - 1) as nat, alg_inv(a)));
                assert(walk(d, true, (n - 1) as nat, alg_inv(b)));
            },
            GNode::Conj(a, b) => {
                assert(walk(d, true, (n - 1) as nat, a));
                assert(walk(d, true, (n - 1) as nat, b));
                assert(walk(d, true, (n - 1) as nat, alg_inv(a)));
            },
            _ => {},
        }
    }
    match x {
        GNode::Mv(m) => {
            if let Some(f) = lookup(d, m) {
                if f.derived {
                    let s = galg(d.dv()[f.key]);
                    assert forall|t: TV| #[trigger] evals_to(k, s, t) implies evals_to_node(k, x, zpow(k.shape(), t, f.amount)) by {
                        let n = choose|n: nat| #[trigger] walk(d, true, n, s) && ev(k, n, s) == t;
                        assert(walk_node(d, true, n + 1, x));
                    }
                } else {
                    assert(walk_node(d, true, 0, x));
                }
            }
        },
        GNode::Group(s, a) => {
            assert forall|t: TV| #[trigger] evals_to(k, s, t) implies evals_to_node(k, x, zpow(k.shape(), t, a as int)) by {
                let n = choose|n: nat| #[trigger] walk(d, true, n, s) && ev(k, n, s) == t;
                assert(walk_node(d, true, n + 1, x));
            }
        },
        GNode::Comm(a, b) => {
            assert forall|t: TV, u: TV, v: TV, w: TV| #[trigger] evals_to(k, a, t) && #[trigger] evals_to(k, b, u) && #[trigger] evals_to(k, alg_inv(a), v)
                && #[trigger] evals_to(k, alg_inv(b), w)
                implies evals_to_node(k, x, tcomp(k.shape(), tcomp(k.shape(), tcomp(k.shape(), t, u), v), w)) by {
                let n1 = choose|n: nat| #[trigger] walk(d, true, n, a) && ev(k, n, a) == t;
                let n2 = choose|n: nat| #[trigger] walk(d, true, n, b) && ev(k, n, b) == u;
                let n3 = choose|n: nat| #[trigger] walk(d, true, n, alg_inv(a)) && ev(k, n, alg_inv(a)) == v;
                let n4 = choose|n: nat| #[trigger] walk(d, true, n, alg_inv(b)) && ev(k, n, alg_inv(b)) == w;
                let n = n1 + n2 + n3 + n4;
                lemma_ev_mono(k, n1, n, a);
                lemma_ev_mono(k, n2, n, b);
                lemma_ev_mono(k, n3, n, alg_inv(a));
                lemma_ev_mono(k, n4, n, alg_inv(b));
                assert(walk_node(d, true, n + 1, x));
            }
        },
        GNode::Conj(a, b) => {
            assert forall|t: TV, u: TV, v: TV| #[trigger] evals_to(k, a, t) && #[trigger] evals_to(k, b, u) && #[trigger] evals_to(k, alg_inv(a), v)
                implies evals_to_node(k, x, tcomp(k.shape(), tcomp(k.shape(), t, u), v)) by {
                let n1 = choose|n: nat| #[trigger] walk(d, true, n, a) && ev(k, n, a) == t;
                let n2 = choose|n: nat| #[trigger] walk(d, true, n, b) && ev(k, n, b) == u;
                let n3 = choose|n: nat| #[trigger] walk(d, true, n, alg_inv(a)) && ev(k, n, alg_inv(a)) == v;
                let n = n1 + n2 + n3;
                lemma_ev_mono(k, n1, n, a);
                lemma_ev_mono(k, n2, n, b);
                lemma_ev_mono(k, n3, n, alg_inv(a));
                assert(walk_node(d, true, n + 1, x));
            }
        },
        _ => { assert(walk_node(d, true, 0, x)); },
    }
}

impl FromSpecImpl<String> for InvalidMoveError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: String) -> InvalidMoveError { InvalidMoveError { description: d } }
}
impl FromSpecImpl<InvalidMoveError> for InvalidAlgError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: InvalidMoveError) -> InvalidAlgError { InvalidAlgError::InvalidMove(d) }
}
/// `#[derive(derive_more::From)]`
impl From<InvalidMoveError> for InvalidAlgError {
    #[verifier::external_body]
    fn from(e: InvalidMoveError) -> (r: InvalidAlgError) {
        InvalidAlgError::InvalidMove(e)
    }
}
@fn cubing_core/src/kpuzzle/packed/kpuzzle.rs <InvalidMoveError as From<String>>::from

@raw
#[verifier::external]
impl std::fmt::Debug for ConversionError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
#[verifier::external]
impl std::fmt::Debug for InvalidDefinitionError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
#[verifier::external]
impl std::fmt::Debug for InvalidAlgError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }

@fn cubing_core/src/kpuzzle/packed/kpuzzle.rs transformation_from_alg
%spec
    requires
        $p0.ready(),
        alg_ok(galg(*$p1)),
    ensures
        r is Ok <==> good($p0.def(), galg(*$p1)),
        r is Ok ==> r->Ok_0.valid() && r->Ok_0.k() == *$p0 && evals_to(*$p0, galg(*$p1), r->Ok_0.view()),
    decreases
        levels($p0.def(), galg(*$p1)), 2int,
%hint start
    proof {
        lemma_galg($p1);
        lemma_levels($p0.def(), galg(*$p1));
        lemma_evals_start(*$p0, galg(*$p1));
    }
%loop 0 it
    invariant
        $p0.ready(),
        alg_ok(galg(*$p1)),
        $let{identity_transformation}.valid(),
        $let{identity_transformation}.k() == *$p0,
        it.seq().len() == galg(*$p1).len(),
        forall|j: int| 0 <= j < galg(*$p1).len() ==> gnode(*#[trigger] it.seq()[j]) == galg(*$p1)[j],
        evals_to_upto(*$p0, galg(*$p1), it.index@, $let{identity_transformation}.view()),
%hint loopstart 0
    let ghost vx_j = it.index@;
    let ghost vx_t = $let{identity_transformation}.view();
    proof {
        let s = galg(*$p1);
        assert(gnode(*it.seq()[vx_j]) == s[vx_j]);
        assert(node_ok(s[vx_j]));
        if !good_node($p0.def(), s[vx_j]) { lemma_bad_node($p0.def(), s, vx_j); }
        lemma_levels($p0.def(), s);
    }
%hint loopend 0
    proof { lemma_evals_step(*$p0, galg(*$p1), vx_j, vx_t, $let{transformation_from_alg_node}.view()); }
%hint after 0
    proof { lemma_evals_done(*$p0, galg(*$p1), $let{identity_transformation}.view()); }

@fn cubing_core/src/kpuzzle/packed/kpuzzle.rs transformation_from_alg_node
%spec
    requires
        $p0.ready(),
        node_ok(gnode(*$p1)),
    ensures
        r is Ok <==> good_node($p0.def(), gnode(*$p1)),
        r is Ok ==> r->Ok_0.valid() && r->Ok_0.k() == *$p0 && evals_to_node(*$p0, gnode(*$p1), r->Ok_0.view()),
    decreases
        levels_node($p0.def(), gnode(*$p1)), 1int,
%hint start
    proof {
        lemma_levels_node($p0.def(), gnode(*$p1));
        lemma_evals_node(*$p0, gnode(*$p1));
    }

%alt
%hint start
    proof {
        lemma_levels_node($p0.def(), gnode(*$p1));
        lemma_evals_node(*$p0, gnode(*$p1));
        lemma_assocs(*$p0);
    }

@raw
/// Composition in another grouping.
pub proof fn lemma_assocs(k: KPuzzle)
    ensures
        forall|t: &KTransformation| #[trigger] t.valid() ==> tvalid(t.shape(), t.view()),
        forall|a: TV, b: TV, c: TV| tvalid(k.shape(), a) && tvalid(k.shape(), b) && tvalid(k.shape(), c)
            ==> #[trigger] tcomp(k.shape(), a, tcomp(k.shape(), b, c)) == tcomp(k.shape(), tcomp(k.shape(), a, b), c),
        forall|a: TV, b: TV| tvalid(k.shape(), a) && tvalid(k.shape(), b) ==> tvalid(k.shape(), #[trigger] tcomp(k.shape(), a, b)),
{
    let s = k.shape();
    assert forall|t: &KTransformation| #[trigger] t.valid() implies tvalid(t.shape(), t.view()) by { lemma_t_view(t); }
    assert forall|a: TV, b: TV, c: TV| tvalid(s, a) && tvalid(s, b) && tvalid(s, c) implies #[trigger] tcomp(s, a, tcomp(s, b, c)) == tcomp(s, tcomp(s, a, b), c) by {
        lemma_tcomp_assoc(s, a, b, c);
    }
    assert forall|a: TV, b: TV| tvalid(s, a) && tvalid(s, b) implies tvalid(s, #[trigger] tcomp(s, a, b)) by { lemma_tcomp(s, a, b); }
}

@fn cubing_core/src/kpuzzle/packed/kpuzzle.rs KPuzzle::transformation_from_move
%spec
    requires
        self.ready(),
        neg_ok($p0.amount),
    ensures
        r is Ok <==> good_node(self.def(), GNode::Mv(*$p0)),
        r is Ok ==> r->Ok_0.valid() && r->Ok_0.k() == *self && evals_to_node(*self, GNode::Mv(*$p0), r->Ok_0.view()),
    decreases
        levels_node(self.def(), GNode::Mv(*$p0)), 0int,
%hint start
    proof {
        lemma_levels_node(self.def(), GNode::Mv(*$p0));
        lemma_evals_node(*self, GNode::Mv(*$p0));
        if lookup(self.def(), *$p0) is Some { lemma_lookup_key(self.def(), *$p0); }
    }

@fn cubing_core/src/kpuzzle/packed/kpuzzle.rs KPuzzle::transformation_from_alg
%spec
    requires
        self.ready(),
        alg_ok(galg(*$p0)),
    ensures
        r is Ok <==> good(self.def(), galg(*$p0)),
        r is Ok ==> r->Ok_0.valid() && r->Ok_0.k() == *self && evals_to(*self, galg(*$p0), r->Ok_0.view()),
    decreases
        levels(self.def(), galg(*$p0)), 3int,

@raw
} // verus!
