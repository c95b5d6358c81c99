@raw
verus! {

// ---------------------------------------------------------------------------
// Expansion of algs through a puzzle's move definitions
// ---------------------------------------------------------------------------

/// The expansion of a node (groups, commutators, conjugates with their inverted parts, derived
/// moves) ends within `n` levels; with `strict`, every move it needs exists.
pub open spec fn walk_node(d: KPuzzleDefinition, strict: bool, n: nat, x: GNode) -> bool
    decreases n, 0int,
{
    match x {
        GNode::Mv(m) => match lookup(d, m) {
            None => !strict,
            Some(f) => f.derived ==> n > 0 && walk(d, strict, (n - 1) as nat, galg(d.dv()[f.key])),
        },
        GNode::Group(s, _) => n > 0 && walk(d, strict, (n - 1) as nat, s),
        GNode::Comm(a, b) => {
            &&& n > 0
            &&& walk(d, strict, (n - 1) as nat, a)
            &&& walk(d, strict, (n - 1) as nat, b)
            &&& walk(d, strict, (n - 1) as nat, alg_inv(a))
            &&& walk(d, strict, (n - 1) as nat, alg_inv(b))
        },
        GNode::Conj(a, b) => {
            &&& n > 0
            &&& walk(d, strict, (n - 1) as nat, a)
            &&& walk(d, strict, (n - 1) as nat, b)
            &&& walk(d, strict, (n - 1) as nat, alg_inv(a))
        },
        _ => true,
    }
}

pub open spec fn walk(d: KPuzzleDefinition, strict: bool, n: nat, s: GAlg) -> bool
    decreases n, 1int,
{
    forall|i: int| 0 <= i < s.len() ==> walk_node(d, strict, n, #[trigger] s[i])
}

/// Every move needed to evaluate `s` exists (at every level), and the expansion ends.
pub open spec fn good(d: KPuzzleDefinition, s: GAlg) -> bool {
    exists|n: nat| #[trigger] walk(d, true, n, s)
}

pub open spec fn good_node(d: KPuzzleDefinition, x: GNode) -> bool {
    exists|n: nat| #[trigger] walk_node(d, true, n, x)
}

/// `k` is a derived definition that lookup can select.
pub open spec fn selects(d: KPuzzleDefinition, k: Move) -> bool {
    lookup(d, k) == Some(Found { key: k, amount: 1, derived: true })
}

/// No derived move depends on itself, and every move a derived move uses exists.
pub open spec fn acyclic(d: KPuzzleDefinition) -> bool {
    forall|k: Move| #[trigger] selects(d, k) ==> good(d, galg(d.dv()[k]))
}

/// The moves a node names directly: its own, or those of its parts, with the inverted copies of
/// the parts that commutators and conjugates use.
pub open spec fn uses_node(n: nat, x: GNode, m: Move) -> bool
    decreases n, 0int,
{
    match x {
        GNode::Mv(v) => v == m,
        GNode::Group(s, _) => n > 0 && uses((n - 1) as nat, s, m),
        GNode::Comm(a, b) => n > 0 && (uses((n - 1) as nat, a, m) || uses((n - 1) as nat, b, m) || uses((n - 1) as nat, alg_inv(a), m)
            || uses((n - 1) as nat, alg_inv(b), m)),
        GNode::Conj(a, b) => n > 0 && (uses((n - 1) as nat, a, m) || uses((n - 1) as nat, b, m) || uses((n - 1) as nat, alg_inv(a), m)),
        _ => false,
    }
}

pub open spec fn uses(n: nat, s: GAlg, m: Move) -> bool
    decreases n, 1int,
{
    exists|i: int| 0 <= i < s.len() && uses_node(n, #[trigger] s[i], m)
}

/// The alg of derived move `k` uses a move that is defined by derived move `h`.
pub open spec fn depends(d: KPuzzleDefinition, k: Move, h: Move) -> bool {
    exists|n: nat, m: Move| #[trigger] uses(n, galg(d.dv()[k]), m) && lookup(d, m) is Some && lookup(d, m)->0.derived && lookup(d, m)->0.key == h
}

pub proof fn lemma_walk_mono(d: KPuzzleDefinition, strict: bool, n: nat, m: nat, s: GAlg)
    requires
        n <= m,
        walk(d, strict, n, s),
    ensures
        walk(d, strict, m, s),
    decreases n, 1int,
{
    assert forall|i: int| 0 <= i < s.len() implies walk_node(d, strict, m, #[trigger] s[i]) by {
        lemma_walk_node_mono(d, strict, n, m, s[i]);
    }
}

pub proof fn lemma_walk_node_mono(d: KPuzzleDefinition, strict: bool, n: nat, m: nat, x: GNode)
    requires
        n <= m,
        walk_node(d, strict, n, x),
    ensures
        walk_node(d, strict, m, x),
    decreases n, 0int,
{
    if n > 0 {
        let n1 = (n - 1) as nat;
        let m1 = (m - 1) as nat;
        match x {
            GNode::Mv(v) => {
                if let Some(f) = lookup(d, v) {
                    if f.derived { lemma_walk_mono(d, strict, n1, m1, galg(d.dv()[f.key])); }
                }
            },
            GNode::Group(s, _) => { lemma_walk_mono(d, strict, n1, m1, s); },
            GNode::Comm(a, b) => {
                lemma_walk_mono(d, strict, n1, m1, a);
                lemma_walk_mono(d, strict, n1, m1, b);
                lemma_walk_mono(d, strict, n1, m1, alg_inv(a));
                lemma_walk_mono(d, strict, n1, m1, alg_inv(b));
            },
            GNode::Conj(a, b) => {
                lemma_walk_mono(d, strict, n1, m1, a);
                lemma_walk_mono(d, strict, n1, m1, b);
                lemma_walk_mono(d, strict, n1, m1, alg_inv(a));
            },
            _ => {},
        }
    }
}

pub proof fn lemma_walk_strict(d: KPuzzleDefinition, n: nat, s: GAlg)
    requires
        walk(d, true, n, s),
    ensures
        walk(d, false, n, s),
    decreases n, 1int,
{
    assert forall|i: int| 0 <= i < s.len() implies walk_node(d, false, n, #[trigger] s[i]) by {
        lemma_walk_node_strict(d, n, s[i]);
    }
}

pub proof fn lemma_walk_node_strict(d: KPuzzleDefinition, n: nat, x: GNode)
    requires
        walk_node(d, true, n, x),
    ensures
        walk_node(d, false, n, x),
    decreases n, 0int,
{
    if n > 0 {
        let n1 = (n - 1) as nat;
        match x {
            GNode::Mv(v) => {
                if let Some(f) = lookup(d, v) {
                    if f.derived { lemma_walk_strict(d, n1, galg(d.dv()[f.key])); }
                }
            },
            GNode::Group(s, _) => { lemma_walk_strict(d, n1, s); },
            GNode::Comm(a, b) => {
                lemma_walk_strict(d, n1, a);
                lemma_walk_strict(d, n1, b);
                lemma_walk_strict(d, n1, alg_inv(a));
                lemma_walk_strict(d, n1, alg_inv(b));
            },
            GNode::Conj(a, b) => {
                lemma_walk_strict(d, n1, a);
                lemma_walk_strict(d, n1, b);
                lemma_walk_strict(d, n1, alg_inv(a));
            },
            _ => {},
        }
    }
}

/// The expansion of `x` and of its inverse end within `n` levels.
pub open spec fn walk2(d: KPuzzleDefinition, n: nat, x: GNode) -> bool {
    walk_node(d, false, n, x) && walk_node(d, false, n, node_inv(x))
}

pub proof fn lemma_move_ends(d: KPuzzleDefinition, m: Move) -> (n: nat)
    requires
        acyclic(d),
        neg_ok(m.amount),
    ensures
        walk_node(d, false, n, GNode::Mv(m)),
{
    if lookup(d, m) is Some {
        lemma_lookup_key(d, m);
        let f = lookup(d, m)->0;
        if f.derived {
            assert(selects(d, f.key));
            let n = choose|n: nat| #[trigger] walk(d, true, n, galg(d.dv()[f.key]));
            lemma_walk_strict(d, n, galg(d.dv()[f.key]));
            return n + 1;
        }
    }
    0
}

/// On a puzzle without recursive derived moves every expansion ends.
pub proof fn lemma_node_ends(d: KPuzzleDefinition, x: GNode) -> (n: nat)
    requires
        acyclic(d),
        node_ok(x),
    ensures
        walk2(d, n, x),
    decreases x, 0int,
{
    match x {
        GNode::Mv(m) => {
            let a = lemma_move_ends(d, m);
            let b = lemma_move_ends(d, move_inv(m));
            let n = a + b;
            lemma_walk_node_mono(d, false, a, n, GNode::Mv(m));
            lemma_walk_node_mono(d, false, b, n, GNode::Mv(move_inv(m)));
            n
        },
        GNode::Group(s, k) => {
            let a = lemma_alg_ends(d, s);
            if sq1_tuple(s, k) {
                let (m0, m1) = (s[0]->Mv_0, s[1]->Mv_0);
                assert(node_ok(s[0]) && node_ok(s[1]));
                let b0 = lemma_move_ends(d, move_inv(m0));
                let b1 = lemma_move_ends(d, move_inv(m1));
                let n = a + b0 + b1;
                lemma_walk_mono(d, false, a, n, s);
                lemma_walk_node_mono(d, false, b0, n, GNode::Mv(move_inv(m0)));
                lemma_walk_node_mono(d, false, b1, n, GNode::Mv(move_inv(m1)));
                let s2 = seq![GNode::Mv(move_inv(m0)), GNode::Mv(move_inv(m1))];
                assert(walk(d, false, n, s2));
                assert(walk_node(d, false, n + 1, x));
                assert(node_inv(x) == GNode::Group(s2, 1));
                assert(walk_node(d, false, n + 1, node_inv(x)));
                n + 1
            } else {
                assert(walk_node(d, false, a + 1, x));
                assert(walk_node(d, false, a + 1, node_inv(x)));
                a + 1
            }
        },
        GNode::Comm(a, b) => {
            let m = lemma_alg_ends(d, a);
            let k = lemma_alg_ends(d, b);
            let n = m + k;
            lemma_walk_mono(d, false, m, n, a);
            lemma_walk_mono(d, false, m, n, alg_inv(a));
            lemma_walk_mono(d, false, k, n, b);
            lemma_walk_mono(d, false, k, n, alg_inv(b));
            assert(walk_node(d, false, n + 1, x));
            assert(walk_node(d, false, n + 1, node_inv(x)));
            n + 1
        },
        GNode::Conj(a, b) => {
            let m = lemma_alg_ends(d, a);
            let k = lemma_alg_ends(d, b);
            let n = m + k;
            lemma_walk_mono(d, false, m, n, a);
            lemma_walk_mono(d, false, m, n, alg_inv(a));
            lemma_walk_mono(d, false, k, n, b);
            lemma_walk_mono(d, false, k, n, alg_inv(b));
            assert(walk_node(d, false, n + 1, x));
            assert(walk_node(d, false, n + 1, node_inv(x)));
            n + 1
        },
        _ => 0,
    }
}

pub proof fn lemma_alg_ends(d: KPuzzleDefinition, s: GAlg) -> (n: nat)
    requires
        acyclic(d),
        alg_ok(s),
    ensures
        walk(d, false, n, s),
        walk(d, false, n, alg_inv(s)),
    decreases s, s.len() + 1,
{
    let n = lemma_alg_ends_upto(d, s, s.len());
    lemma_alg_inv(s);
    assert forall|i: int| 0 <= i < s.len() implies walk_node(d, false, n, #[trigger] s[i]) by { assert(walk2(d, n, s[i])); }
    assert forall|i: int| 0 <= i < s.len() implies walk_node(d, false, n, #[trigger] alg_inv(s)[i]) by { assert(walk2(d, n, s[s.len() - 1 - i])); }
    n
}

pub proof fn lemma_alg_ends_upto(d: KPuzzleDefinition, s: GAlg, k: nat) -> (n: nat)
    requires
        acyclic(d),
        alg_ok(s),
        k <= s.len(),
    ensures
        forall|i: int| 0 <= i < k ==> walk2(d, n, #[trigger] s[i]),
    decreases s, k,
{
    if k == 0 {
        0
    } else {
        let a = lemma_alg_ends_upto(d, s, (k - 1) as nat);
        assert(node_ok(s[k - 1]));
        let b = lemma_node_ends(d, s[k - 1]);
        assert forall|i: int| 0 <= i < k implies walk2(d, a + b, #[trigger] s[i]) by {
            if i < k - 1 {
                lemma_walk_node_mono(d, false, a, a + b, s[i]);
                lemma_walk_node_mono(d, false, a, a + b, node_inv(s[i]));
            } else {
                lemma_walk_node_mono(d, false, b, a + b, s[i]);
                lemma_walk_node_mono(d, false, b, a + b, node_inv(s[i]));
            }
        }
        a + b
    }
}

/// The least number of levels: the termination measure of evaluation.
pub open spec fn is_least(d: KPuzzleDefinition, strict: bool, s: GAlg, n: nat) -> bool {
    walk(d, strict, n, s) && forall|m: nat| #[trigger] walk(d, strict, m, s) ==> n <= m
}

pub open spec fn levels(d: KPuzzleDefinition, s: GAlg) -> nat {
    choose|n: nat| is_least(d, false, s, n)
}

pub open spec fn levels_node(d: KPuzzleDefinition, x: GNode) -> nat {
    levels(d, seq![x])
}

pub proof fn lemma_least(d: KPuzzleDefinition, strict: bool, s: GAlg, n: nat) -> (l: nat)
    requires
        walk(d, strict, n, s),
    ensures
        is_least(d, strict, s, l),
    decreases n,
{
    if exists|m: nat| m < n && #[trigger] walk(d, strict, m, s) {
        let m = choose|m: nat| m < n && #[trigger] walk(d, strict, m, s);
        lemma_least(d, strict, s, m)
    } else {
        n
    }
}

pub proof fn lemma_levels(d: KPuzzleDefinition, s: GAlg)
    requires
        acyclic(d),
        alg_ok(s),
    ensures
        is_least(d, false, s, levels(d, s)),
        forall|i: int| 0 <= i < s.len() ==> levels_node(d, #[trigger] s[i]) <= levels(d, s),
{
    let n = lemma_alg_ends(d, s);
    let l = lemma_least(d, false, s, n);
    let k = levels(d, s);
    assert(is_least(d, false, s, k));
    assert forall|i: int| 0 <= i < s.len() implies levels_node(d, #[trigger] s[i]) <= k by {
        let u = seq![s[i]];
        assert(walk(d, false, k, u));
        let l2 = lemma_least(d, false, u, k);
        assert(is_least(d, false, u, levels(d, u)));
    }
}

/// The parts of a node need fewer levels than the node.
pub proof fn lemma_levels_node(d: KPuzzleDefinition, x: GNode)
    requires
        acyclic(d),
        node_ok(x),
    ensures
        match x {
            GNode::Mv(m) => lookup(d, m) is Some && lookup(d, m)->0.derived && alg_ok(galg(d.dv()[lookup(d, m)->0.key]))
                ==> levels(d, galg(d.dv()[lookup(d, m)->0.key])) < levels_node(d, x),
            GNode::Group(s, _) => alg_ok(s) && levels(d, s) < levels_node(d, x),
            GNode::Comm(a, b) => {
                &&& alg_ok(a) && alg_ok(b) && alg_ok(alg_inv(a)) && alg_ok(alg_inv(b))
                &&& levels(d, a) < levels_node(d, x)
                &&& levels(d, b) < levels_node(d, x)
                &&& levels(d, alg_inv(a)) < levels_node(d, x)
                &&& levels(d, alg_inv(b)) < levels_node(d, x)
            },
            GNode::Conj(a, b) => {
                &&& alg_ok(a) && alg_ok(b) && alg_ok(alg_inv(a))
                &&& levels(d, a) < levels_node(d, x)
                &&& levels(d, b) < levels_node(d, x)
                &&& levels(d, alg_inv(a)) < levels_node(d, x)
            },
            _ => true,
        },
{
    let u = seq![x];
    assert(alg_ok(u));
    lemma_levels(d, u);
    let n = levels_node(d, x);
    assert(walk_node(d, false, n, u[0]));
    match x {
        GNode::Mv(m) => {
            if lookup(d, m) is Some && lookup(d, m)->0.derived {
                let s = galg(d.dv()[lookup(d, m)->0.key]);
                if alg_ok(s) {
                    assert(walk(d, false, (n - 1) as nat, s));
                    lemma_levels(d, s);
                }
            }
        },
        GNode::Group(s, _) => {
            assert(walk(d, false, (n - 1) as nat, s));
            lemma_levels(d, s);
        },
        GNode::Comm(a, b) => {
            lemma_alg_inv_ok(a);
            lemma_alg_inv_ok(b);
            assert(walk(d, false, (n - 1) as nat, a));
            assert(walk(d, false, (n - 1) as nat, b));
            assert(walk(d, false, (n - 1) as nat, alg_inv(a)));
            assert(walk(d, false, (n - 1) as nat, alg_inv(b)));
            lemma_levels(d, a);
            lemma_levels(d, b);
            lemma_levels(d, alg_inv(a));
            lemma_levels(d, alg_inv(b));
        },
        GNode::Conj(a, b) => {
            lemma_alg_inv_ok(a);
            assert(walk(d, false, (n - 1) as nat, a));
            assert(walk(d, false, (n - 1) as nat, b));
            assert(walk(d, false, (n - 1) as nat, alg_inv(a)));
            lemma_levels(d, a);
            lemma_levels(d, b);
            lemma_levels(d, alg_inv(a));
        },
        _ => {},
    }
}

/// An alg is good iff each of its nodes is.
pub proof fn lemma_good_nodes(d: KPuzzleDefinition, s: GAlg, k: nat) -> (n: nat)
    requires
        k <= s.len(),
        forall|i: int| 0 <= i < k ==> good_node(d, #[trigger] s[i]),
    ensures
        forall|i: int| 0 <= i < k ==> walk_node(d, true, n, #[trigger] s[i]),
    decreases k,
{
    if k == 0 {
        0
    } else {
        let a = lemma_good_nodes(d, s, (k - 1) as nat);
        assert(good_node(d, s[k - 1]));
        let b = choose|n: nat| #[trigger] walk_node(d, true, n, s[k - 1]);
        assert forall|i: int| 0 <= i < k implies walk_node(d, true, a + b, #[trigger] s[i]) by {
            if i < k - 1 {
                lemma_walk_node_mono(d, true, a, a + b, s[i]);
            } else {
                lemma_walk_node_mono(d, true, b, a + b, s[i]);
            }
        }
        a + b
    }
}

/// No derived move depends on itself (through any number of steps).
pub open spec fn reaches(d: KPuzzleDefinition, steps: nat, k: Move, h: Move) -> bool
    decreases steps,
{
    if steps == 0 {
        depends(d, k, h)
    } else {
        exists|j: Move| #[trigger] depends(d, k, j) && reaches(d, (steps - 1) as nat, j, h)
    }
}

pub proof fn lemma_uses_good(d: KPuzzleDefinition, n: nat, f: nat, s: GAlg, m: Move)
    requires
        walk(d, true, f, s),
        uses(n, s, m),
    ensures
        lookup(d, m) is Some,
        lookup(d, m)->0.derived ==> f > 0 && walk(d, true, (f - 1) as nat, galg(d.dv()[lookup(d, m)->0.key])),
    decreases n,
{
    let i = choose|i: int| 0 <= i < s.len() && uses_node(n, #[trigger] s[i], m);
    assert(walk_node(d, true, f, s[i]));
    let x = s[i];
    if !(x is Mv) {
        let n1 = (n - 1) as nat;
        let f1 = (f - 1) as nat;
        let part = match x {
            GNode::Group(a, _) => a,
            GNode::Comm(a, b) => if uses(n1, a, m) { a } else if uses(n1, b, m) { b } else if uses(n1, alg_inv(a), m) { alg_inv(a) } else { alg_inv(b) },
            GNode::Conj(a, b) => if uses(n1, a, m) { a } else if uses(n1, b, m) { b } else { alg_inv(a) },
            _ => s,
        };
        assert(uses(n1, part, m) && walk(d, true, f1, part));
        lemma_uses_good(d, n1, f1, part, m);
        if lookup(d, m)->0.derived {
            lemma_walk_mono(d, true, (f1 - 1) as nat, f1, galg(d.dv()[lookup(d, m)->0.key]));
        }
    }
}

/// A derived move with a finite expansion is not among those it depends on.
pub proof fn lemma_acyclic(d: KPuzzleDefinition, steps: nat, k: Move, h: Move, f: nat)
    requires
        walk(d, true, f, galg(d.dv()[k])),
        reaches(d, steps, k, h),
    ensures
        f > 0,
        walk(d, true, (f - 1) as nat, galg(d.dv()[h])),
    decreases steps,
{
    if steps == 0 {
        let (n, m) = choose|n: nat, m: Move| #[trigger] uses(n, galg(d.dv()[k]), m) && lookup(d, m) is Some && lookup(d, m)->0.derived && lookup(d, m)->0.key == h;
        lemma_uses_good(d, n, f, galg(d.dv()[k]), m);
    } else {
        let j = choose|j: Move| #[trigger] depends(d, k, j) && reaches(d, (steps - 1) as nat, j, h);
        lemma_acyclic(d, 0, k, j, f);
        lemma_acyclic(d, (steps - 1) as nat, j, h, (f - 1) as nat);
        lemma_walk_mono(d, true, (f - 2) as nat, (f - 1) as nat, galg(d.dv()[h]));
    }
}

/// Accepted definitions: no derived move that lookup can select reaches itself.
pub proof fn lemma_no_cycle(d: KPuzzleDefinition, k: Move)
    requires
        acyclic(d),
        selects(d, k),
    ensures
        forall|steps: nat| !#[trigger] reaches(d, steps, k, k),
{
    let s = galg(d.dv()[k]);
    let f = choose|f: nat| #[trigger] walk(d, true, f, s);
    let l = lemma_least(d, true, s, f);
    assert forall|steps: nat| !#[trigger] reaches(d, steps, k, k) by {
        if reaches(d, steps, k, k) {
            lemma_acyclic(d, steps, k, k, l);
        }
    }
}

@raw
} // verus!
