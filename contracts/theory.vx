@raw
verus! {

// ---------------------------------------------------------------------------
// The wreath-product theory of transformations
// ---------------------------------------------------------------------------

/// Per orbit: (number of pieces, number of orientations)
pub type Shape = Seq<(int, int)>;

/// Per orbit, per position: (permutation entry, orientation delta)
pub type TV = Seq<Seq<(int, int)>>;

pub open spec fn shape_ok(s: Shape) -> bool {
    forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).0 >= 0 && s[j].1 >= 1
}

pub open spec fn at(s: Shape, j: int, i: int) -> bool {
    0 <= j < s.len() && 0 <= i < s[j].0
}

pub open spec fn tshaped(s: Shape, t: TV) -> bool {
    t.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> (#[trigger] t[j]).len() == s[j].0
}

pub open spec fn tvalid(s: Shape, t: TV) -> bool {
    &&& shape_ok(s)
    &&& tshaped(s, t)
    &&& forall|j: int, i: int| #[trigger] at(s, j, i) ==> 0 <= t[j][i].0 < s[j].0 && 0 <= t[j][i].1 < s[j].1
}

pub open spec fn tperm(s: Shape, t: TV) -> bool {
    forall|j: int, i1: int, i2: int|
        #[trigger] at(s, j, i1) && #[trigger] at(s, j, i2) && t[j][i1].0 == t[j][i2].0 ==> i1 == i2
}

pub open spec fn tcell(s: Shape, a: TV, b: TV, j: int, i: int) -> (int, int) {
    (a[j][b[j][i].0].0, (a[j][b[j][i].0].1 + b[j][i].1) % s[j].1)
}

/// `a` followed by `b`
pub open spec fn tcomp(s: Shape, a: TV, b: TV) -> TV {
    Seq::new(s.len(), |j: int| Seq::new(s[j].0 as nat, |i: int| tcell(s, a, b, j, i)))
}

pub open spec fn tid(s: Shape) -> TV {
    Seq::new(s.len(), |j: int| Seq::new(s[j].0 as nat, |i: int| (i, 0int)))
}

/// `b` is what inverting `a` gives, entry by entry
pub open spec fn tinv_of(s: Shape, a: TV, b: TV) -> bool {
    tshaped(s, b) && forall|j: int, i: int| #[trigger] at(s, j, i) ==> b[j][a[j][i].0] == (i, (s[j].1 - a[j][i].1) % s[j].1)
}

pub open spec fn tindex(s: Shape, a: TV, j: int, v: int) -> int {
    choose|i: int| #[trigger] at(s, j, i) && a[j][i].0 == v
}

pub open spec fn tinv(s: Shape, a: TV) -> TV {
    Seq::new(
        s.len(),
        |j: int|
            Seq::new(
                s[j].0 as nat,
                |v: int| (tindex(s, a, j, v), (s[j].1 - a[j][tindex(s, a, j, v)].1) % s[j].1),
            ),
    )
}

pub open spec fn tpow(s: Shape, t: TV, n: nat) -> TV
    decreases n,
{
    if n == 0 { tid(s) } else { tcomp(s, tpow(s, t, (n - 1) as nat), t) }
}

pub open spec fn zpow(s: Shape, t: TV, n: int) -> TV {
    if n >= 0 { tpow(s, t, n as nat) } else { tpow(s, tinv(s, t), (-n) as nat) }
}

pub proof fn lemma_mod_range(a: int, n: int)
    requires
        n > 0,
    ensures
        0 <= a % n < n,
{
    assert(0 <= a % n < n) by (nonlinear_arith)
        requires
            n > 0,
    ;
}

pub proof fn lemma_tv_ext(s: Shape, a: TV, b: TV)
    requires
        tshaped(s, a),
        tshaped(s, b),
        forall|j: int, i: int| #[trigger] at(s, j, i) ==> a[j][i] == b[j][i],
    ensures
        a == b,
{
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] a[j] == b[j] by {
        assert forall|i: int| 0 <= i < s[j].0 implies a[j][i] == b[j][i] by {
            assert(at(s, j, i));
        }
        assert(a[j] =~= b[j]);
    }
    assert(a =~= b);
}

pub proof fn lemma_tcomp(s: Shape, a: TV, b: TV)
    requires
        tvalid(s, a),
        tvalid(s, b),
    ensures
        tvalid(s, tcomp(s, a, b)),
        forall|j: int, i: int| #[trigger] at(s, j, i) ==> tcomp(s, a, b)[j][i] == tcell(s, a, b, j, i),
        tperm(s, a) && tperm(s, b) ==> tperm(s, tcomp(s, a, b)),
{
    let c = tcomp(s, a, b);
    assert forall|j: int, i: int| #[trigger] at(s, j, i) implies 0 <= c[j][i].0 < s[j].0 && 0 <= c[j][i].1 < s[j].1 by {
        assert(at(s, j, b[j][i].0));
        lemma_mod_range(a[j][b[j][i].0].1 + b[j][i].1, s[j].1);
    }
    if tperm(s, a) && tperm(s, b) {
        assert forall|j: int, i1: int, i2: int|
            #[trigger] at(s, j, i1) && #[trigger] at(s, j, i2) && c[j][i1].0 == c[j][i2].0 implies i1 == i2 by {
            assert(at(s, j, b[j][i1].0));
            assert(at(s, j, b[j][i2].0));
        }
    }
}

pub proof fn lemma_tid(s: Shape)
    requires
        shape_ok(s),
    ensures
        tvalid(s, tid(s)),
        tperm(s, tid(s)),
{
}

pub proof fn lemma_mod_add(a: int, b: int, n: int)
    requires
        n > 0,
    ensures
        (a % n + b) % n == (a + b) % n,
        (a + b % n) % n == (a + b) % n,
{
    vstd::arithmetic::div_mod::lemma_add_mod_noop(a, b, n);
    vstd::arithmetic::div_mod::lemma_add_mod_noop(a % n, b, n);
    vstd::arithmetic::div_mod::lemma_add_mod_noop(a, b % n, n);
    vstd::arithmetic::div_mod::lemma_mod_twice(a, n);
    vstd::arithmetic::div_mod::lemma_mod_twice(b, n);
}

pub proof fn lemma_tcomp_assoc(s: Shape, a: TV, b: TV, c: TV)
    requires
        tvalid(s, a),
        tvalid(s, b),
        tvalid(s, c),
    ensures
        tcomp(s, tcomp(s, a, b), c) == tcomp(s, a, tcomp(s, b, c)),
{
    let l = tcomp(s, tcomp(s, a, b), c);
    let r = tcomp(s, a, tcomp(s, b, c));
    lemma_tcomp(s, a, b);
    lemma_tcomp(s, b, c);
    assert forall|j: int, i: int| #[trigger] at(s, j, i) implies l[j][i] == r[j][i] by {
        let ci = c[j][i].0;
        assert(at(s, j, ci));
        let bi = b[j][ci].0;
        assert(at(s, j, bi));
        let n = s[j].1;
        lemma_mod_add(a[j][bi].1 + b[j][ci].1, c[j][i].1, n);
        lemma_mod_add(a[j][bi].1, b[j][ci].1 + c[j][i].1, n);
    }
    lemma_tv_ext(s, l, r);
}

pub proof fn lemma_tid_neutral(s: Shape, a: TV)
    requires
        tvalid(s, a),
    ensures
        tcomp(s, tid(s), a) == a,
        tcomp(s, a, tid(s)) == a,
{
    lemma_tid(s);
    assert forall|j: int, i: int| #[trigger] at(s, j, i) implies tcomp(s, tid(s), a)[j][i] == a[j][i] && tcomp(s, a, tid(s))[j][i]
        == a[j][i] by {
        assert(at(s, j, a[j][i].0));
        vstd::arithmetic::div_mod::lemma_small_mod(a[j][i].1 as nat, s[j].1 as nat);
    }
    lemma_tv_ext(s, tcomp(s, tid(s), a), a);
    lemma_tv_ext(s, tcomp(s, a, tid(s)), a);
}

/// An injection of `0..n` into itself is onto.
pub proof fn lemma_onto(f: Seq<int>, n: int, v: int) -> (i: int)
    requires
        f.len() == n,
        forall|i: int| 0 <= i < n ==> 0 <= #[trigger] f[i] < n,
        forall|i1: int, i2: int| 0 <= i1 < n && 0 <= i2 < n && #[trigger] f[i1] == #[trigger] f[i2] ==> i1 == i2,
        0 <= v < n,
    ensures
        0 <= i < n,
        f[i] == v,
{
    let all = vstd::set_lib::set_int_range(0, n);
    vstd::set_lib::lemma_int_range(0, n);
    assert(f.no_duplicates());
    f.unique_seq_to_set();
    let img = f.to_set();
    assert(img.subset_of(all)) by {
        assert forall|x: int| img.contains(x) implies all.contains(x) by {
            assert(f.contains(x));
        }
    }
    vstd::set_lib::lemma_subset_equality(img, all);
    assert(all.contains(v));
    assert(f.contains(v));
    choose|i: int| 0 <= i < n && f[i] == v
}

pub proof fn lemma_tindex(s: Shape, a: TV, j: int, v: int)
    requires
        tvalid(s, a),
        tperm(s, a),
        at(s, j, v),
    ensures
        at(s, j, tindex(s, a, j, v)),
        a[j][tindex(s, a, j, v)].0 == v,
{
    let f = Seq::new(s[j].0 as nat, |i: int| a[j][i].0);
    assert forall|i: int| 0 <= i < s[j].0 implies 0 <= #[trigger] f[i] < s[j].0 by {
        assert(at(s, j, i));
    }
    assert forall|i1: int, i2: int| 0 <= i1 < s[j].0 && 0 <= i2 < s[j].0 && #[trigger] f[i1] == #[trigger] f[i2] implies i1 == i2 by {
        assert(at(s, j, i1) && at(s, j, i2));
    }
    let i = lemma_onto(f, s[j].0, v);
    assert(at(s, j, i) && a[j][i].0 == v);
}

/// Whatever satisfies the entry-wise equation is the inverse.
pub proof fn lemma_tinv(s: Shape, a: TV, b: TV)
    requires
        tvalid(s, a),
        tperm(s, a),
        tinv_of(s, a, b),
    ensures
        b == tinv(s, a),
        tvalid(s, b),
        tperm(s, b),
        tcomp(s, a, b) == tid(s),
        tcomp(s, b, a) == tid(s),
{
    assert forall|j: int, v: int| #[trigger] at(s, j, v) implies b[j][v] == tinv(s, a)[j][v] && 0 <= b[j][v].0 < s[j].0 && 0 <= b[j][v].1
        < s[j].1 && a[j][b[j][v].0].0 == v by {
        lemma_tindex(s, a, j, v);
        let i = tindex(s, a, j, v);
        assert(b[j][a[j][i].0] == (i, (s[j].1 - a[j][i].1) % s[j].1));
        lemma_mod_range(s[j].1 - a[j][i].1, s[j].1);
    }
    lemma_tv_ext(s, b, tinv(s, a));
    assert(tvalid(s, b));
    assert forall|j: int, i: int| #[trigger] at(s, j, i) implies tcomp(s, a, b)[j][i] == tid(s)[j][i] && tcomp(s, b, a)[j][i] == tid(s)[j][i] by {
        let n = s[j].1;
        // a then b
        let k = b[j][i].0;
        assert(at(s, j, k));
        assert(b[j][a[j][k].0] == (k, (n - a[j][k].1) % n));
        lemma_mod_add(a[j][k].1, n - a[j][k].1, n);
        assert(n % n == 0) by (nonlinear_arith) requires n > 0;
        assert(tcomp(s, a, b)[j][i] == (i, 0int));
        // b then a
        lemma_mod_add(n - a[j][i].1, a[j][i].1, n);
        assert(at(s, j, a[j][i].0));
        assert(tcomp(s, b, a)[j][i] == (i, 0int));
    }
    lemma_tcomp(s, a, b);
    lemma_tcomp(s, b, a);
    lemma_tid(s);
    lemma_tv_ext(s, tcomp(s, a, b), tid(s));
    lemma_tv_ext(s, tcomp(s, b, a), tid(s));
    assert forall|j: int, i1: int, i2: int|
        #[trigger] at(s, j, i1) && #[trigger] at(s, j, i2) && b[j][i1].0 == b[j][i2].0 implies i1 == i2 by {
        assert(a[j][b[j][i1].0].0 == i1);
        assert(a[j][b[j][i2].0].0 == i2);
    }
}

pub proof fn lemma_tinv_exists(s: Shape, a: TV)
    requires
        tvalid(s, a),
        tperm(s, a),
    ensures
        tinv_of(s, a, tinv(s, a)),
        tvalid(s, tinv(s, a)),
        tperm(s, tinv(s, a)),
        tcomp(s, a, tinv(s, a)) == tid(s),
        tcomp(s, tinv(s, a), a) == tid(s),
{
    assert forall|j: int, i: int| #[trigger] at(s, j, i) implies tinv(s, a)[j][a[j][i].0] == (i, (s[j].1 - a[j][i].1) % s[j].1) by {
        assert(at(s, j, a[j][i].0));
        lemma_tindex(s, a, j, a[j][i].0);
    }
    lemma_tinv(s, a, tinv(s, a));
}

/// Inverses are unique.
pub proof fn lemma_tinv_unique(s: Shape, a: TV, b: TV)
    requires
        tvalid(s, a),
        tperm(s, a),
        tvalid(s, b),
        tcomp(s, a, b) == tid(s),
    ensures
        b == tinv(s, a),
{
    lemma_tinv_exists(s, a);
    let i = tinv(s, a);
    lemma_tcomp_assoc(s, i, a, b);
    lemma_tid_neutral(s, b);
    lemma_tid_neutral(s, i);
}

pub proof fn lemma_tinv_involutive(s: Shape, a: TV)
    requires
        tvalid(s, a),
        tperm(s, a),
    ensures
        tinv(s, tinv(s, a)) == a,
{
    lemma_tinv_exists(s, a);
    lemma_tinv_unique(s, tinv(s, a), a);
}

/// (a b)^-1 = b^-1 a^-1
pub proof fn lemma_tinv_comp(s: Shape, a: TV, b: TV)
    requires
        tvalid(s, a),
        tperm(s, a),
        tvalid(s, b),
        tperm(s, b),
    ensures
        tinv(s, tcomp(s, a, b)) == tcomp(s, tinv(s, b), tinv(s, a)),
{
    let ia = tinv(s, a);
    let ib = tinv(s, b);
    lemma_tinv_exists(s, a);
    lemma_tinv_exists(s, b);
    lemma_tcomp(s, a, b);
    lemma_tcomp(s, ib, ia);
    lemma_tcomp_assoc(s, a, b, tcomp(s, ib, ia));
    lemma_tcomp_assoc(s, b, ib, ia);
    lemma_tid_neutral(s, ia);
    lemma_tid_neutral(s, a);
    lemma_tinv_unique(s, tcomp(s, a, b), tcomp(s, ib, ia));
}

pub proof fn lemma_tpow(s: Shape, t: TV, n: nat)
    requires
        tvalid(s, t),
    ensures
        tvalid(s, tpow(s, t, n)),
        tperm(s, t) ==> tperm(s, tpow(s, t, n)),
    decreases n,
{
    lemma_tid(s);
    if n > 0 {
        lemma_tpow(s, t, (n - 1) as nat);
        lemma_tcomp(s, tpow(s, t, (n - 1) as nat), t);
    }
}

pub proof fn lemma_tpow_add(s: Shape, t: TV, m: nat, n: nat)
    requires
        tvalid(s, t),
    ensures
        tcomp(s, tpow(s, t, m), tpow(s, t, n)) == tpow(s, t, m + n),
    decreases n,
{
    lemma_tpow(s, t, m);
    if n == 0 {
        lemma_tid_neutral(s, tpow(s, t, m));
    } else {
        lemma_tpow(s, t, (n - 1) as nat);
        lemma_tpow_add(s, t, m, (n - 1) as nat);
        lemma_tcomp_assoc(s, tpow(s, t, m), tpow(s, t, (n - 1) as nat), t);
    }
}

pub proof fn lemma_tpow_one(s: Shape, t: TV)
    requires
        tvalid(s, t),
    ensures
        tpow(s, t, 1) == t,
{
    reveal_with_fuel(tpow, 2);
    lemma_tid_neutral(s, t);
}

/// t^n t^-n = 1
pub proof fn lemma_tpow_inv(s: Shape, t: TV, n: nat)
    requires
        tvalid(s, t),
        tperm(s, t),
    ensures
        tcomp(s, tpow(s, t, n), tpow(s, tinv(s, t), n)) == tid(s),
        tpow(s, tinv(s, t), n) == tinv(s, tpow(s, t, n)),
    decreases n,
{
    let u = tinv(s, t);
    lemma_tinv_exists(s, t);
    lemma_tid(s);
    if n == 0 {
        lemma_tid_neutral(s, tid(s));
    } else {
        let m = (n - 1) as nat;
        lemma_tpow_inv(s, t, m);
        lemma_tpow(s, t, m);
        lemma_tpow(s, u, m);
        // t^n u^n = (t^m t) (u u^m) = t^m u^m
        lemma_tpow_add(s, u, 1, m);
        lemma_tpow_one(s, u);
        assert(tpow(s, u, n) == tcomp(s, u, tpow(s, u, m)));
        lemma_tcomp(s, u, tpow(s, u, m));
        lemma_tcomp_assoc(s, tpow(s, t, m), t, tcomp(s, u, tpow(s, u, m)));
        lemma_tcomp_assoc(s, t, u, tpow(s, u, m));
        lemma_tid_neutral(s, tpow(s, u, m));
    }
    lemma_tpow(s, t, n);
    lemma_tpow(s, u, n);
    lemma_tinv_unique(s, tpow(s, t, n), tpow(s, u, n));
}

pub proof fn lemma_zpow_valid(s: Shape, t: TV, n: int)
    requires
        tvalid(s, t),
        tperm(s, t),
    ensures
        tvalid(s, zpow(s, t, n)),
        tperm(s, zpow(s, t, n)),
{
    lemma_tinv_exists(s, t);
    if n >= 0 { lemma_tpow(s, t, n as nat); } else { lemma_tpow(s, tinv(s, t), (-n) as nat); }
}

/// Amounts add: t^m t^n = t^(m+n)
pub proof fn lemma_zpow_add(s: Shape, t: TV, m: int, n: int)
    requires
        tvalid(s, t),
        tperm(s, t),
    ensures
        tcomp(s, zpow(s, t, m), zpow(s, t, n)) == zpow(s, t, m + n),
{
    let u = tinv(s, t);
    lemma_tinv_exists(s, t);
    lemma_tinv_involutive(s, t);
    if m >= 0 && n >= 0 {
        lemma_tpow_add(s, t, m as nat, n as nat);
    } else if m < 0 && n < 0 {
        lemma_tpow_add(s, u, (-m) as nat, (-n) as nat);
    } else if m >= 0 {
        lemma_mixed(s, t, m as nat, (-n) as nat);
    } else {
        lemma_mixed(s, u, (-m) as nat, n as nat);
    }
}

/// t^a u^b where u = t^-1
pub proof fn lemma_mixed(s: Shape, t: TV, a: nat, b: nat)
    requires
        tvalid(s, t),
        tperm(s, t),
    ensures
        tcomp(s, tpow(s, t, a), tpow(s, tinv(s, t), b)) == if a >= b { tpow(s, t, (a - b) as nat) } else {
            tpow(s, tinv(s, t), (b - a) as nat)
        },
{
    let u = tinv(s, t);
    lemma_tinv_exists(s, t);
    lemma_tpow(s, t, a);
    lemma_tpow(s, u, b);
    if a >= b {
        let c = (a - b) as nat;
        lemma_tpow(s, t, c);
        lemma_tpow(s, t, b);
        lemma_tpow_add(s, t, c, b);
        lemma_tpow_inv(s, t, b);
        lemma_tcomp_assoc(s, tpow(s, t, c), tpow(s, t, b), tpow(s, u, b));
        lemma_tid_neutral(s, tpow(s, t, c));
    } else {
        let c = (b - a) as nat;
        lemma_tpow(s, u, c);
        lemma_tpow(s, u, a);
        lemma_tpow_add(s, u, a, c);
        lemma_tpow_inv(s, t, a);
        lemma_tcomp_assoc(s, tpow(s, t, a), tpow(s, u, a), tpow(s, u, c));
        lemma_tid_neutral(s, tpow(s, u, c));
    }
}

// ---------------------------------------------------------------------------
// Patterns and the action of transformations
// ---------------------------------------------------------------------------

/// Per orbit, per position: (piece, orientation, orientation modulus; 0: unset)
pub type PV = Seq<Seq<(int, int, int)>>;

pub open spec fn pshaped(s: Shape, p: PV) -> bool {
    p.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> (#[trigger] p[j]).len() == s[j].0
}

pub open spec fn pvalid(s: Shape, p: PV) -> bool {
    &&& shape_ok(s)
    &&& pshaped(s, p)
    &&& forall|j: int, i: int| #[trigger] at(s, j, i) ==> stored_pair(p[j][i].1, p[j][i].2, s[j].1)
}

pub open spec fn pcell(s: Shape, p: PV, t: TV, j: int, i: int) -> (int, int, int) {
    let q = p[j][t[j][i].0];
    (q.0, (q.1 + t[j][i].1) % eff(q.2, s[j].1), q.2)
}

/// The pattern `p` after the transformation `t`
pub open spec fn pact(s: Shape, p: PV, t: TV) -> PV {
    Seq::new(s.len(), |j: int| Seq::new(s[j].0 as nat, |i: int| pcell(s, p, t, j, i)))
}

pub proof fn lemma_pv_ext(s: Shape, a: PV, b: PV)
    requires
        pshaped(s, a),
        pshaped(s, b),
        forall|j: int, i: int| #[trigger] at(s, j, i) ==> a[j][i] == b[j][i],
    ensures
        a == b,
{
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] a[j] == b[j] by {
        assert forall|i: int| 0 <= i < s[j].0 implies a[j][i] == b[j][i] by {
            assert(at(s, j, i));
        }
        assert(a[j] =~= b[j]);
    }
    assert(a =~= b);
}

pub proof fn lemma_pact(s: Shape, p: PV, t: TV)
    requires
        pvalid(s, p),
        tvalid(s, t),
    ensures
        pvalid(s, pact(s, p, t)),
{
    let r = pact(s, p, t);
    assert forall|j: int, i: int| #[trigger] at(s, j, i) implies stored_pair(r[j][i].1, r[j][i].2, s[j].1) by {
        assert(at(s, j, t[j][i].0));
        let q = p[j][t[j][i].0];
        lemma_mod_range(q.1 + t[j][i].1, eff(q.2, s[j].1));
    }
}

pub proof fn lemma_mod_mod(a: int, m: int, n: int)
    requires
        m > 0,
        n > 0,
        n % m == 0,
    ensures
        (a % n) % m == a % m,
{
    let k = n / m;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, m);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, n);
    // a = n q + a % n = m (k q) + a % n
    let q = a / n;
    assert(a == m * (k * q) + a % n) by (nonlinear_arith)
        requires
            n == m * k,
            a == n * q + a % n,
    ;
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k * q, a % n, m);
}

/// p (a b) = (p a) b
pub proof fn lemma_pact_comp(s: Shape, p: PV, a: TV, b: TV)
    requires
        pvalid(s, p),
        tvalid(s, a),
        tvalid(s, b),
    ensures
        pact(s, p, tcomp(s, a, b)) == pact(s, pact(s, p, a), b),
{
    let l = pact(s, p, tcomp(s, a, b));
    let r = pact(s, pact(s, p, a), b);
    lemma_tcomp(s, a, b);
    lemma_pact(s, p, a);
    assert forall|j: int, i: int| #[trigger] at(s, j, i) implies l[j][i] == r[j][i] by {
        let bi = b[j][i].0;
        assert(at(s, j, bi));
        let ai = a[j][bi].0;
        assert(at(s, j, ai));
        let q = p[j][ai];
        let n = s[j].1;
        let m = eff(q.2, n);
        assert(n % n == 0) by (nonlinear_arith) requires n > 0;
        let da = a[j][bi].1;
        let db = b[j][i].1;
        lemma_mod_mod(da + db, m, n);
        lemma_mod_add(q.1, (da + db) % n, m);
        lemma_mod_add(q.1, da + db, m);
        lemma_mod_add(q.1 + da, db, m);
    }
    lemma_pv_ext(s, l, r);
}

pub proof fn lemma_pact_id(s: Shape, p: PV)
    requires
        pvalid(s, p),
    ensures
        pact(s, p, tid(s)) == p,
{
    assert forall|j: int, i: int| #[trigger] at(s, j, i) implies pact(s, p, tid(s))[j][i] == p[j][i] by {
        let q = p[j][i];
        vstd::arithmetic::div_mod::lemma_small_mod(q.1 as nat, eff(q.2, s[j].1) as nat);
    }
    lemma_pv_ext(s, pact(s, p, tid(s)), p);
}

/// Applying a transformation and then its inverse changes nothing.
pub proof fn lemma_pact_inv(s: Shape, p: PV, t: TV)
    requires
        pvalid(s, p),
        tvalid(s, t),
        tperm(s, t),
    ensures
        pact(s, pact(s, p, t), tinv(s, t)) == p,
{
    lemma_tinv_exists(s, t);
    lemma_pact_comp(s, p, t, tinv(s, t));
    lemma_pact_id(s, p);
}

} // verus!
