@raw
verus! {

// ---------------------------------------------------------------------------
// Concrete puzzles: what a definition file says, and computing with it
// ---------------------------------------------------------------------------

/// A move as numbers: prefix, family (one or two characters), amount.
pub type MKey = (int, int, int);

pub open spec fn pcode(p: Option<MovePrefix>) -> int {
    match p { None => 0, Some(MovePrefix::Layer(l)) => 1 + l.layer, Some(MovePrefix::Range(_)) => -1 }
}

pub open spec fn fcode(f: Seq<char>) -> int {
    if f.len() == 1 { f[0] as int } else if f.len() == 2 { f[0] as int * 0x110000 + f[1] as int } else { -1 }
}

pub open spec fn mkey(m: Move) -> MKey {
    (pcode(m.quantum.prefix), fcode(m.quantum.family@), m.amount as int)
}

/// Moves in a row (all families of one or two characters, no `i32::MIN`).
pub open spec fn is_word(g: GAlg, w: Seq<MKey>) -> bool {
    &&& g.len() == w.len()
    &&& forall|i: int| 0 <= i < w.len() ==> (#[trigger] g[i]) is Mv && mkey(g[i]->Mv_0) == w[i]
}

pub open spec fn word_ok(w: Seq<MKey>) -> bool {
    forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).1 > 0 && w[i].2 > -0x8000_0000
}

/// `v` is the inverse of the word `w`.
pub open spec fn word_inv(w: Seq<MKey>, v: Seq<MKey>) -> bool {
    &&& v.len() == w.len()
    &&& forall|i: int| 0 <= i < w.len() ==> #[trigger] v[i] == (w[w.len() - 1 - i].0, w[w.len() - 1 - i].1, -w[w.len() - 1 - i].2)
}

pub ghost enum DAlg {
    Word(Seq<MKey>),
    Conj(Seq<MKey>, Seq<MKey>),
    Comm(Seq<MKey>, Seq<MKey>),
}

pub open spec fn is_dalg(g: GAlg, x: DAlg) -> bool {
    match x {
        DAlg::Word(w) => is_word(g, w),
        DAlg::Conj(a, b) => g.len() == 1 && g[0] is Conj && is_word(g[0]->Conj_0, a) && is_word(g[0]->Conj_1, b),
        DAlg::Comm(a, b) => g.len() == 1 && g[0] is Comm && is_word(g[0]->Comm_0, a) && is_word(g[0]->Comm_1, b),
    }
}

/// What a definition file says.
pub ghost struct Puz {
    pub names: Seq<Seq<char>>,
    pub shape: Shape,
    pub direct: spec_fn(MKey) -> Option<TV>,
    pub derived: spec_fn(MKey) -> Option<DAlg>,
    pub pattern: PV,
}

pub open spec fn raw(v: Seq<u8>, i: int) -> int {
    if 0 <= i < v.len() { v[i] as int } else { -1 }
}

/// The data of an orbit are the row (filled up with -1 where lists are shorter; `(-1, -1)` when absent).
pub open spec fn t_row_is(m: TData, o: KPuzzleOrbitName, row: Seq<(int, int)>) -> bool {
    if m.contains_key(o) {
        let e = m[o];
        &&& e.permutation@.len() <= row.len()
        &&& e.orientation_delta@.len() <= row.len()
        &&& forall|i: int| 0 <= i < row.len() ==> #[trigger] row[i] == (raw(e.permutation@, i), raw(e.orientation_delta@, i))
    } else {
        row == seq![(-1int, -1int)]
    }
}

pub open spec fn p_row_is(m: PData, o: KPuzzleOrbitName, row: Seq<(int, int, int)>) -> bool {
    if m.contains_key(o) {
        let e = m[o];
        &&& e.pieces@.len() <= row.len()
        &&& e.orientation@.len() <= row.len()
        &&& e.orientation_mod is Some ==> e.orientation_mod->0@.len() <= row.len()
        &&& forall|i: int| 0 <= i < row.len() ==> #[trigger] row[i] == (raw(e.pieces@, i), raw(e.orientation@, i),
                match e.orientation_mod { Some(v) => raw(v@, i), None => 0 })
    } else {
        row == seq![(-1int, -1int, -1int)]
    }
}

pub open spec fn t_is(d: KPuzzleDefinition, m: TData, t: TV) -> bool {
    &&& t.len() == d.orbits@.len()
    &&& forall|j: int| 0 <= j < d.orbits@.len() ==> t_row_is(m, (#[trigger] d.orbits@[j]).orbit_name, t[j])
}

/// The definition is what the file says.
pub open spec fn decoded(d: KPuzzleDefinition, p: Puz) -> bool {
    &&& def_amounts_ok(d)
    &&& d.orbits@.len() == p.shape.len()
    &&& d.orbits@.len() == p.names.len()
    &&& d.orbits@.len() == p.pattern.len()
    &&& forall|j: int| 0 <= j < d.orbits@.len() ==> {
        let o = #[trigger] d.orbits@[j];
        o.orbit_name.0@ == p.names[j] && o.num_pieces == p.shape[j].0 && o.num_orientations == p.shape[j].1 && p_row_is(d.default_pattern@, o.orbit_name, p.pattern[j])
    }
    &&& forall|m: Move| #[trigger] d.mv().contains_key(m) <==> (p.direct)(mkey(m)) is Some
    &&& forall|m: Move| #[trigger] d.mv().contains_key(m) ==> t_is(d, d.mv()[m]@, (p.direct)(mkey(m))->0)
    &&& forall|m: Move| #[trigger] d.dv().contains_key(m) <==> (p.derived)(mkey(m)) is Some
    &&& forall|m: Move| #[trigger] d.dv().contains_key(m) ==> is_dalg(galg(d.dv()[m]), (p.derived)(mkey(m))->0)
}

// --- functions that compute, equal to those of the theory ---

pub open spec fn cid_row(n: int) -> Seq<(int, int)>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { cid_row(n - 1).push((n - 1, 0int)) }
}

pub open spec fn cid(s: Shape, j: int) -> TV
    decreases j,
{
    if j <= 0 { Seq::empty() } else { cid(s, j - 1).push(cid_row(s[j - 1].0)) }
}

pub open spec fn ccomp_row(o: int, a: Seq<(int, int)>, b: Seq<(int, int)>, n: int) -> Seq<(int, int)>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { ccomp_row(o, a, b, n - 1).push((a[b[n - 1].0].0, (a[b[n - 1].0].1 + b[n - 1].1) % o)) }
}

pub open spec fn ccomp(s: Shape, a: TV, b: TV, j: int) -> TV
    decreases j,
{
    if j <= 0 { Seq::empty() } else { ccomp(s, a, b, j - 1).push(ccomp_row(s[j - 1].1, a[j - 1], b[j - 1], s[j - 1].0)) }
}

pub open spec fn cpow(s: Shape, t: TV, n: int) -> TV
    decreases n,
{
    if n <= 0 { cid(s, s.len() as int) } else { ccomp(s, cpow(s, t, n - 1), t, s.len() as int) }
}

pub open spec fn cword(s: Shape, w: Seq<MKey>, vs: Seq<TV>, n: int) -> TV
    decreases n,
{
    if n <= 0 { cid(s, s.len() as int) } else { ccomp(s, cword(s, w, vs, n - 1), cpow(s, vs[n - 1], w[n - 1].2 % 4), s.len() as int) }
}

pub open spec fn cnew(row: Seq<(int, int)>, i: int, k: int) -> bool
    decreases k,
{
    k <= 0 || (row[k - 1].0 != row[i].0 && cnew(row, i, k - 1))
}

pub open spec fn cok_row(s: (int, int), row: Seq<(int, int)>, n: int) -> bool
    decreases n,
{
    n <= 0 || (0 <= row[n - 1].0 < s.0 && 0 <= row[n - 1].1 < s.1 && cnew(row, n - 1, n - 1) && cok_row(s, row, n - 1))
}

/// `t` is a transformation of a puzzle of shape `s`.
pub open spec fn cok(s: Shape, t: TV, j: int) -> bool
    decreases j,
{
    j <= 0 || (s[j - 1].0 >= 0 && 1 <= s[j - 1].1 <= 107 && t[j - 1].len() == s[j - 1].0 && cok_row(s[j - 1], t[j - 1], s[j - 1].0) && cok(s, t, j - 1))
}

pub open spec fn good_t(s: Shape, t: TV) -> bool {
    &&& tvalid(s, t)
    &&& tperm(s, t)
}

pub proof fn lemma_cid_row(n: int)
    requires
        n >= 0,
    ensures
        cid_row(n).len() == n,
        forall|i: int| 0 <= i < n ==> #[trigger] cid_row(n)[i] == (i, 0int),
    decreases n,
{
    if n > 0 { lemma_cid_row(n - 1); }
}

pub proof fn lemma_cid(s: Shape, j: int)
    requires
        shape_ok(s),
        0 <= j <= s.len(),
    ensures
        cid(s, j).len() == j,
        forall|h: int| 0 <= h < j ==> #[trigger] cid(s, j)[h] == tid(s)[h],
        j == s.len() ==> cid(s, j) == tid(s),
    decreases j,
{
    if j > 0 {
        lemma_cid(s, j - 1);
        lemma_cid_row(s[j - 1].0);
        assert(cid_row(s[j - 1].0) =~= tid(s)[j - 1]);
    }
    if j == s.len() { assert(cid(s, j) =~= tid(s)); }
}

pub proof fn lemma_ccomp_row(o: int, a: Seq<(int, int)>, b: Seq<(int, int)>, n: int)
    requires
        n >= 0,
    ensures
        ccomp_row(o, a, b, n).len() == n,
        forall|i: int| 0 <= i < n ==> #[trigger] ccomp_row(o, a, b, n)[i] == (a[b[i].0].0, (a[b[i].0].1 + b[i].1) % o),
    decreases n,
{
    if n > 0 { lemma_ccomp_row(o, a, b, n - 1); }
}

pub proof fn lemma_ccomp(s: Shape, a: TV, b: TV, j: int)
    requires
        shape_ok(s),
        0 <= j <= s.len(),
    ensures
        ccomp(s, a, b, j).len() == j,
        forall|h: int| 0 <= h < j ==> #[trigger] ccomp(s, a, b, j)[h] == tcomp(s, a, b)[h],
        j == s.len() ==> ccomp(s, a, b, j) == tcomp(s, a, b),
    decreases j,
{
    if j > 0 {
        lemma_ccomp(s, a, b, j - 1);
        lemma_ccomp_row(s[j - 1].1, a[j - 1], b[j - 1], s[j - 1].0);
        assert(ccomp_row(s[j - 1].1, a[j - 1], b[j - 1], s[j - 1].0) =~= tcomp(s, a, b)[j - 1]);
    }
    if j == s.len() { assert(ccomp(s, a, b, j) =~= tcomp(s, a, b)); }
}

pub proof fn lemma_cpow(s: Shape, t: TV, n: int)
    requires
        shape_ok(s),
        n >= 0,
    ensures
        cpow(s, t, n) == tpow(s, t, n as nat),
    decreases n,
{
    if n == 0 { lemma_cid(s, s.len() as int); } else {
        lemma_cpow(s, t, n - 1);
        lemma_ccomp(s, cpow(s, t, n - 1), t, s.len() as int);
    }
}

pub proof fn lemma_cnew(row: Seq<(int, int)>, i: int, k: int)
    requires
        cnew(row, i, k),
    ensures
        forall|h: int| 0 <= h < k ==> (#[trigger] row[h]).0 != row[i].0,
    decreases k,
{
    if k > 0 { lemma_cnew(row, i, k - 1); }
}

pub proof fn lemma_cok_row(s: (int, int), row: Seq<(int, int)>, n: int)
    requires
        cok_row(s, row, n),
    ensures
        forall|i: int| 0 <= i < n ==> 0 <= (#[trigger] row[i]).0 < s.0 && 0 <= row[i].1 < s.1,
        forall|h: int, i: int| 0 <= h < n && 0 <= i < n && (#[trigger] row[h]).0 == (#[trigger] row[i]).0 ==> h == i,
    decreases n,
{
    if n > 0 {
        lemma_cok_row(s, row, n - 1);
        lemma_cnew(row, n - 1, n - 1);
    }
}

pub proof fn lemma_cok_upto(s: Shape, t: TV, j: int)
    requires
        cok(s, t, j),
        j <= s.len(),
    ensures
        forall|h: int| 0 <= h < j ==> (#[trigger] s[h]).0 >= 0 && 1 <= s[h].1 <= 107 && t[h].len() == s[h].0,
        forall|h: int, i: int| 0 <= h < j && #[trigger] at(s, h, i) ==> 0 <= t[h][i].0 < s[h].0 && 0 <= t[h][i].1 < s[h].1,
        forall|h: int, i1: int, i2: int| 0 <= h < j && #[trigger] at(s, h, i1) && #[trigger] at(s, h, i2) && t[h][i1].0 == t[h][i2].0 ==> i1 == i2,
    decreases j,
{
    if j > 0 {
        lemma_cok_upto(s, t, j - 1);
        lemma_cok_row(s[j - 1], t[j - 1], s[j - 1].0);
    }
}

pub proof fn lemma_cok(s: Shape, t: TV)
    requires
        cok(s, t, s.len() as int),
        t.len() == s.len(),
    ensures
        good_t(s, t),
{
    lemma_cok_upto(s, t, s.len() as int);
}

/// Order four: powers count modulo four.
pub proof fn lemma_order4(s: Shape, t: TV, a: int)
    requires
        good_t(s, t),
        cpow(s, t, 4) == tid(s),
    ensures
        zpow(s, t, a) == cpow(s, t, a % 4),
        good_t(s, cpow(s, t, a % 4)),
    decreases if a >= 0 { a } else { 3 - a },
{
    lemma_cpow(s, t, 4);
    lemma_cpow(s, t, a % 4);
    lemma_zpow_valid(s, t, a % 4);
    assert(zpow(s, t, 4) == tid(s));
    if a >= 4 {
        lemma_order4(s, t, a - 4);
        lemma_zpow_add(s, t, a - 4, 4);
        lemma_zpow_valid(s, t, a - 4);
        lemma_tid_neutral(s, zpow(s, t, a - 4));
        assert((a - 4) % 4 == a % 4);
    } else if a < 0 {
        lemma_order4(s, t, a + 4);
        lemma_zpow_add(s, t, a, 4);
        lemma_zpow_valid(s, t, a);
        lemma_tid_neutral(s, zpow(s, t, a));
        assert((a + 4) % 4 == a % 4);
    } else {
        assert(a % 4 == a);
    }
}

// --- from the file to the meaning of moves ---

pub proof fn lemma_word_inv(g: GAlg, w: Seq<MKey>, v: Seq<MKey>)
    requires
        is_word(g, w),
        word_ok(w),
        word_inv(w, v),
    ensures
        is_word(alg_inv(g), v),
        word_ok(v),
{
    lemma_alg_inv(g);
    let n = w.len() as int;
    reveal_strlit("_SLASH_");
    assert forall|i: int| 0 <= i < n implies (#[trigger] alg_inv(g)[i]) is Mv && mkey(alg_inv(g)[i]->Mv_0) == v[i] by {
        assert(g[n - 1 - i] is Mv);
        assert(mkey(g[n - 1 - i]->Mv_0) == w[n - 1 - i]);
        assert(alg_inv(g)[i] == node_inv(g[n - 1 - i]));
    }
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).1 > 0 && v[i].2 > -0x8000_0000 by {
        assert(w[n - 1 - i].1 > 0);
        if v[i].2 <= -0x8000_0000 {
            assert(g[n - 1 - i] is Mv);
            assert(mkey(g[n - 1 - i]->Mv_0) == w[n - 1 - i]);
        }
    }
}

/// Moves of family `q` (any amount) resolve on the puzzle and need nothing that does not exist.
pub open spec fn resolves(d: KPuzzleDefinition, q: (int, int)) -> bool {
    forall|m: Move| (#[trigger] mkey(m)).0 == q.0 && mkey(m).1 == q.1 && neg_ok(m.amount) ==> good_node(d, GNode::Mv(m))
}

pub open spec fn resolves_alg(d: KPuzzleDefinition, x: DAlg) -> bool {
    forall|g: GAlg| #[trigger] is_dalg(g, x) ==> good(d, g)
}

pub open spec fn resolves_word(d: KPuzzleDefinition, w: Seq<MKey>) -> bool {
    word_ok(w) && forall|i: int| 0 <= i < w.len() ==> resolves(d, ((#[trigger] w[i]).0, w[i].1))
}

pub proof fn lemma_resolves_direct(d: KPuzzleDefinition, p: Puz, q: (int, int))
    requires
        decoded(d, p),
        (p.direct)((q.0, q.1, 1)) is Some,
    ensures
        resolves(d, q),
{
    assert forall|m: Move| (#[trigger] mkey(m)).0 == q.0 && mkey(m).1 == q.1 && neg_ok(m.amount) implies good_node(d, GNode::Mv(m)) by {
        assert(mkey(unit_move(m)) == (q.0, q.1, 1int));
        assert(d.mv().contains_key(unit_move(m)));
        lemma_good_node(d, GNode::Mv(m));
    }
}

pub proof fn lemma_resolves_derived(d: KPuzzleDefinition, p: Puz, q: (int, int))
    requires
        decoded(d, p),
        (p.derived)((q.0, q.1, 1)) is Some,
        resolves_alg(d, (p.derived)((q.0, q.1, 1))->0),
    ensures
        resolves(d, q),
{
    assert forall|m: Move| (#[trigger] mkey(m)).0 == q.0 && mkey(m).1 == q.1 && neg_ok(m.amount) implies good_node(d, GNode::Mv(m)) by {
        let u = unit_move(m);
        assert(mkey(u) == (q.0, q.1, 1int));
        assert(d.dv().contains_key(u));
        assert(is_dalg(galg(d.dv()[u]), (p.derived)(mkey(u))->0));
        lemma_good_node(d, GNode::Mv(m));
    }
}

pub proof fn lemma_good_word(d: KPuzzleDefinition, g: GAlg, w: Seq<MKey>)
    requires
        is_word(g, w),
        resolves_word(d, w),
    ensures
        good(d, g),
{
    assert forall|i: int| 0 <= i < g.len() implies good_node(d, #[trigger] g[i]) by {
        assert(mkey(g[i]->Mv_0) == w[i]);
        assert(resolves(d, (w[i].0, w[i].1)));
        assert(g[i] == GNode::Mv(g[i]->Mv_0));
    }
    lemma_good_alg(d, g);
}

pub proof fn lemma_resolves_word(d: KPuzzleDefinition, w: Seq<MKey>)
    requires
        resolves_word(d, w),
    ensures
        resolves_alg(d, DAlg::Word(w)),
{
    assert forall|g: GAlg| #[trigger] is_dalg(g, DAlg::Word(w)) implies good(d, g) by { lemma_good_word(d, g, w); }
}

pub proof fn lemma_resolves_conj(d: KPuzzleDefinition, a: Seq<MKey>, b: Seq<MKey>, ai: Seq<MKey>)
    requires
        resolves_word(d, a),
        resolves_word(d, b),
        resolves_word(d, ai),
        word_inv(a, ai),
    ensures
        resolves_alg(d, DAlg::Conj(a, b)),
{
    assert forall|g: GAlg| #[trigger] is_dalg(g, DAlg::Conj(a, b)) implies good(d, g) by {
        let x = g[0]->Conj_0;
        let y = g[0]->Conj_1;
        lemma_word_inv(x, a, ai);
        lemma_good_word(d, x, a);
        lemma_good_word(d, y, b);
        lemma_good_word(d, alg_inv(x), ai);
        lemma_good_node(d, g[0]);
        lemma_good_alg(d, g);
    }
}

pub proof fn lemma_resolves_comm(d: KPuzzleDefinition, a: Seq<MKey>, b: Seq<MKey>, ai: Seq<MKey>, bi: Seq<MKey>)
    requires
        resolves_word(d, a),
        resolves_word(d, b),
        resolves_word(d, ai),
        resolves_word(d, bi),
        word_inv(a, ai),
        word_inv(b, bi),
    ensures
        resolves_alg(d, DAlg::Comm(a, b)),
{
    assert forall|g: GAlg| #[trigger] is_dalg(g, DAlg::Comm(a, b)) implies good(d, g) by {
        let x = g[0]->Comm_0;
        let y = g[0]->Comm_1;
        lemma_word_inv(x, a, ai);
        lemma_word_inv(y, b, bi);
        lemma_good_word(d, x, a);
        lemma_good_word(d, y, b);
        lemma_good_word(d, alg_inv(x), ai);
        lemma_good_word(d, alg_inv(y), bi);
        lemma_good_node(d, g[0]);
        lemma_good_alg(d, g);
    }
}

/// All that building the puzzle asks for.
pub proof fn lemma_file_valid(d: KPuzzleDefinition, p: Puz)
    requires
        decoded(d, p),
        forall|q: MKey| (#[trigger] (p.direct)(q)) is Some ==> (p.direct)(q)->0.len() == p.shape.len() && cok(p.shape, (p.direct)(q)->0, p.shape.len() as int),
        forall|q: MKey| (#[trigger] (p.derived)(q)) is Some ==> resolves_alg(d, (p.derived)(q)->0),
        forall|j: int| 0 <= j < p.shape.len() ==> (#[trigger] p.shape[j]).0 >= 0 && 1 <= p.shape[j].1 <= 107,
    ensures
        def_valid(d),
{
    assert forall|k: Move| #[trigger] selects(d, k) implies good(d, galg(d.dv()[k])) by {
        assert(d.dv().contains_key(k));
        assert((p.derived)(mkey(k)) is Some);
        assert(is_dalg(galg(d.dv()[k]), (p.derived)(mkey(k))->0));
    }
    assert forall|j: int| 0 <= j < d.orbits@.len() implies 1 <= (#[trigger] d.orbits@[j]).num_orientations <= 107 by {
        assert(p.shape[j].1 <= 107);
    }
    assert forall|m: Move| #[trigger] d.mv().contains_key(m) implies def_tdata_ok(d, d.mv()[m]@) by {
        let t = (p.direct)(mkey(m))->0;
        assert(t_is(d, d.mv()[m]@, t));
        lemma_t_is(d, p, d.mv()[m]@, t);
    }
}

pub proof fn lemma_t_is(d: KPuzzleDefinition, p: Puz, m: TData, t: TV)
    requires
        decoded(d, p),
        t_is(d, m, t),
        t.len() == p.shape.len(),
        cok(p.shape, t, p.shape.len() as int),
    ensures
        def_tdata_ok(d, m),
        good_t(p.shape, t),
        forall|j: int, i: int| #[trigger] at(p.shape, j, i) ==> {
            let e = m[d.orbits@[j].orbit_name];
            t[j][i] == (e.permutation@[i] as int, e.orientation_delta@[i] as int)
        },
{
    let s = p.shape;
    lemma_cok_upto(s, t, s.len() as int);
    lemma_cok(s, t);
    assert forall|j: int| 0 <= j < d.orbits@.len() implies def_tdata_orbit_ok(#[trigger] d.orbits@[j], m) by {
        let o = d.orbits@[j];
        let row = t[j];
        assert(t_row_is(m, o.orbit_name, row));
        assert(s[j].0 == o.num_pieces && s[j].1 == o.num_orientations);
        if !m.contains_key(o.orbit_name) {
            assert(row == seq![(-1int, -1int)]);
            assert(at(s, j, 0));
            assert(false);
        }
        let e = m[o.orbit_name];
        assert forall|i: int| #![trigger row[i]] 0 <= i < row.len() implies i < e.permutation@.len() && i < e.orientation_delta@.len() by {
            assert(at(s, j, i));
            assert(row[i] == (raw(e.permutation@, i), raw(e.orientation_delta@, i)));
        }
        assert(e.permutation@.len() == row.len()) by {
            if row.len() > 0 { let z = row[row.len() - 1]; assert(row.len() - 1 < e.permutation@.len()); }
        }
        assert(e.orientation_delta@.len() == row.len()) by {
            if row.len() > 0 { let z = row[row.len() - 1]; assert(row.len() - 1 < e.orientation_delta@.len()); }
        }
        assert forall|i: int| 0 <= i < o.num_pieces implies (#[trigger] e.permutation@[i]) < o.num_pieces by {
            assert(at(s, j, i));
            assert(row[i] == (raw(e.permutation@, i), raw(e.orientation_delta@, i)));
        }
        assert forall|i: int| 0 <= i < o.num_pieces implies (#[trigger] e.orientation_delta@[i]) < o.num_orientations by {
            assert(at(s, j, i));
            assert(row[i] == (raw(e.permutation@, i), raw(e.orientation_delta@, i)));
        }
        assert forall|h: int, i: int| 0 <= h < i < o.num_pieces implies #[trigger] e.permutation@[h] != #[trigger] e.permutation@[i] by {
            assert(at(s, j, i) && at(s, j, h));
            assert(row[i] == (raw(e.permutation@, i), raw(e.orientation_delta@, i)));
            assert(row[h] == (raw(e.permutation@, h), raw(e.orientation_delta@, h)));
        }
    }
    assert forall|j: int, i: int| #[trigger] at(s, j, i) implies ({
        let e = m[d.orbits@[j].orbit_name];
        t[j][i] == (e.permutation@[i] as int, e.orientation_delta@[i] as int)
    }) by {
        assert(def_tdata_orbit_ok(d.orbits@[j], m));
        assert(t_row_is(m, d.orbits@[j].orbit_name, t[j]));
        assert(t[j].len() == s[j].0);
        let e = m[d.orbits@[j].orbit_name];
        assert(t[j][i] == (raw(e.permutation@, i), raw(e.orientation_delta@, i)));
    }
}

pub open spec fn pat_row_ok(s: (int, int), row: Seq<(int, int, int)>, n: int) -> bool
    decreases n,
{
    n <= 0 || (0 <= row[n - 1].0 && valid_pair(row[n - 1].1, row[n - 1].2, s.1) && pat_row_ok(s, row, n - 1))
}

pub open spec fn pat_ok(s: Shape, p: PV, j: int) -> bool
    decreases j,
{
    j <= 0 || (p[j - 1].len() == s[j - 1].0 && pat_row_ok(s[j - 1], p[j - 1], s[j - 1].0) && pat_ok(s, p, j - 1))
}

pub proof fn lemma_pat_row_ok(s: (int, int), row: Seq<(int, int, int)>, n: int)
    requires
        pat_row_ok(s, row, n),
    ensures
        forall|i: int| 0 <= i < n ==> 0 <= (#[trigger] row[i]).0 && valid_pair(row[i].1, row[i].2, s.1),
    decreases n,
{
    if n > 0 { lemma_pat_row_ok(s, row, n - 1); }
}

pub proof fn lemma_pat_ok(s: Shape, p: PV, j: int)
    requires
        pat_ok(s, p, j),
    ensures
        forall|h: int| 0 <= h < j ==> (#[trigger] p[h]).len() == s[h].0 && pat_row_ok(s[h], p[h], s[h].0),
    decreases j,
{
    if j > 0 { lemma_pat_ok(s, p, j - 1); }
}

/// The default pattern is a pattern of the puzzle.
pub proof fn lemma_file_pattern(k: KPuzzle, p: Puz)
    requires
        k.wf(),
        decoded(k.def(), p),
        pat_ok(p.shape, p.pattern, p.shape.len() as int),
    ensures
        pdata_ok(k, k.def().default_pattern@),
{
    let d = k.def();
    let m = d.default_pattern@;
    lemma_pat_ok(p.shape, p.pattern, p.shape.len() as int);
    assert forall|j: int| 0 <= j < k.orbits().len() implies pdata_has(m, #[trigger] k.orbits()[j]) by {
        let ob = k.orbits()[j];
        let o = d.orbits@[j];
        let row = p.pattern[j];
        assert(ob.matches(o));
        assert(p_row_is(m, o.orbit_name, row));
        assert(row.len() == p.shape[j].0);
        lemma_pat_row_ok(p.shape[j], row, p.shape[j].0);
        if !m.contains_key(o.orbit_name) {
            assert(row == seq![(-1int, -1int, -1int)]);
            assert(row[0].0 == -1);
            assert(false);
        }
        let e = m[o.orbit_name];
        let cell = |i: int| (raw(e.pieces@, i), raw(e.orientation@, i), match e.orientation_mod { Some(v) => raw(v@, i), None => 0 });
        assert forall|i: int| #![trigger row[i]] 0 <= i < row.len() implies i < e.pieces@.len() && i < e.orientation@.len()
            && (e.orientation_mod is Some ==> i < e.orientation_mod->0@.len()) by {
            assert(row[i] == (raw(e.pieces@, i), raw(e.orientation@, i), match e.orientation_mod { Some(v) => raw(v@, i), None => 0 }));
        }
        if row.len() > 0 { let z = row.len() - 1; let y = row[z]; assert(z < e.pieces@.len() && z < e.orientation@.len()); }
        assert(e.pieces@.len() == row.len());
        assert(e.orientation@.len() == row.len());
        assert(e.orientation_mod is Some ==> e.orientation_mod->0@.len() == row.len());
        assert forall|i: int| 0 <= i < ob.num_pieces implies #[trigger] pdata_entry_ok(ob, e, i) by {
            assert(row[i] == (raw(e.pieces@, i), raw(e.orientation@, i), match e.orientation_mod { Some(v) => raw(v@, i), None => 0 }));
        }
    }
}

// --- evaluation ---

/// Moves of family `q` act as powers of `t`.
pub open spec fn means(k: KPuzzle, p: Puz, q: (int, int), t: TV) -> bool {
    forall|m: Move| (#[trigger] mkey(m)).0 == q.0 && mkey(m).1 == q.1 && neg_ok(m.amount)
        ==> evals_to_node(k, GNode::Mv(m), cpow(p.shape, t, m.amount as int % 4))
}

pub open spec fn alg_means(k: KPuzzle, x: DAlg, t: TV) -> bool {
    forall|g: GAlg| #[trigger] is_dalg(g, x) ==> evals_to(k, g, t)
}

/// Each move of the word acts as a power of its value.
pub open spec fn word_means(k: KPuzzle, p: Puz, w: Seq<MKey>, vs: Seq<TV>) -> bool {
    &&& word_ok(w)
    &&& vs.len() == w.len()
    &&& forall|i: int| 0 <= i < w.len() ==> means(k, p, ((#[trigger] w[i]).0, w[i].1), vs[i])
}

/// `t` has order four.
pub open spec fn order4(s: Shape, t: TV) -> bool {
    &&& good_t(s, t)
    &&& cpow(s, t, 4) == tid(s)
}

pub proof fn lemma_shape_of(k: KPuzzle, p: Puz)
    requires
        k.wf(),
        decoded(k.def(), p),
    ensures
        k.shape() == p.shape,
        shape_ok(p.shape),
{
    lemma_shape(k);
    assert forall|j: int| 0 <= j < p.shape.len() implies #[trigger] k.shape()[j] == p.shape[j] by {
        assert(k.orbits()[j].matches(k.def().orbits@[j]));
    }
    assert(k.shape() =~= p.shape);
}

pub proof fn lemma_means_direct(k: KPuzzle, p: Puz, q: (int, int), t: TV)
    requires
        k.wf(),
        decoded(k.def(), p),
        (p.direct)((q.0, q.1, 1)) == Some(t),
        t.len() == p.shape.len(),
        cok(p.shape, t, p.shape.len() as int),
        order4(p.shape, t),
    ensures
        means(k, p, q, t),
{
    let d = k.def();
    let s = p.shape;
    lemma_shape_of(k, p);
    assert forall|m: Move| (#[trigger] mkey(m)).0 == q.0 && mkey(m).1 == q.1 && neg_ok(m.amount)
        implies evals_to_node(k, GNode::Mv(m), cpow(s, t, m.amount as int % 4)) by {
        let u = unit_move(m);
        assert(mkey(u) == (q.0, q.1, 1int));
        assert(d.mv().contains_key(u));
        let e = d.mv()[u]@;
        assert(t_is(d, e, t));
        lemma_t_is(d, p, e, t);
        let v = tdata_view(k, e);
        assert forall|j: int, i: int| #[trigger] at(s, j, i) implies v[j][i] == t[j][i] by {
            assert(k.orbits()[j].matches(d.orbits@[j]));
        }
        lemma_tv_ext(s, v, t);
        lemma_evals_node(k, GNode::Mv(m));
        lemma_order4(s, t, m.amount as int);
    }
}

pub proof fn lemma_means_derived(k: KPuzzle, p: Puz, q: (int, int), t: TV)
    requires
        k.wf(),
        decoded(k.def(), p),
        (p.direct)((q.0, q.1, 1)) is None,
        (p.derived)((q.0, q.1, 1)) is Some,
        alg_means(k, (p.derived)((q.0, q.1, 1))->0, t),
        order4(p.shape, t),
    ensures
        means(k, p, q, t),
{
    let d = k.def();
    lemma_shape_of(k, p);
    assert forall|m: Move| (#[trigger] mkey(m)).0 == q.0 && mkey(m).1 == q.1 && neg_ok(m.amount)
        implies evals_to_node(k, GNode::Mv(m), cpow(p.shape, t, m.amount as int % 4)) by {
        let u = unit_move(m);
        assert(mkey(u) == (q.0, q.1, 1int));
        assert(!d.mv().contains_key(u));
        assert(d.dv().contains_key(u));
        assert(is_dalg(galg(d.dv()[u]), (p.derived)(mkey(u))->0));
        assert(evals_to(k, galg(d.dv()[u]), t));
        lemma_evals_node(k, GNode::Mv(m));
        lemma_order4(p.shape, t, m.amount as int);
    }
}

pub proof fn lemma_word_upto(k: KPuzzle, p: Puz, g: GAlg, w: Seq<MKey>, vs: Seq<TV>, n: int)
    requires
        k.wf(),
        decoded(k.def(), p),
        is_word(g, w),
        word_means(k, p, w, vs),
        0 <= n <= w.len(),
    ensures
        evals_to_upto(k, g, n, cword(p.shape, w, vs, n)),
    decreases n,
{
    lemma_shape_of(k, p);
    if n == 0 {
        lemma_evals_start(k, g);
        lemma_cid(p.shape, p.shape.len() as int);
    } else {
        lemma_word_upto(k, p, g, w, vs, n - 1);
        let m = g[n - 1]->Mv_0;
        assert(g[n - 1] is Mv && mkey(m) == w[n - 1]);
        assert(w[n - 1].2 > -0x8000_0000);
        assert(means(k, p, (w[n - 1].0, w[n - 1].1), vs[n - 1]));
        lemma_ccomp(p.shape, cword(p.shape, w, vs, n - 1), cpow(p.shape, vs[n - 1], w[n - 1].2 % 4), p.shape.len() as int);
        lemma_evals_step(k, g, n - 1, cword(p.shape, w, vs, n - 1), cpow(p.shape, vs[n - 1], w[n - 1].2 % 4));
    }
}

pub proof fn lemma_word(k: KPuzzle, p: Puz, g: GAlg, w: Seq<MKey>, vs: Seq<TV>)
    requires
        k.wf(),
        decoded(k.def(), p),
        is_word(g, w),
        word_means(k, p, w, vs),
    ensures
        evals_to(k, g, cword(p.shape, w, vs, w.len() as int)),
{
    lemma_word_upto(k, p, g, w, vs, w.len() as int);
    lemma_evals_done(k, g, cword(p.shape, w, vs, w.len() as int));
}

pub proof fn lemma_means_word(k: KPuzzle, p: Puz, w: Seq<MKey>, vs: Seq<TV>)
    requires
        k.wf(),
        decoded(k.def(), p),
        word_means(k, p, w, vs),
    ensures
        alg_means(k, DAlg::Word(w), cword(p.shape, w, vs, w.len() as int)),
{
    assert forall|g: GAlg| #[trigger] is_dalg(g, DAlg::Word(w)) implies evals_to(k, g, cword(p.shape, w, vs, w.len() as int)) by {
        lemma_word(k, p, g, w, vs);
    }
}

/// One node.
pub proof fn lemma_evals_single(k: KPuzzle, g: GAlg, t: TV)
    requires
        g.len() == 1,
        evals_to_node(k, g[0], t),
        good_t(k.shape(), t),
    ensures
        evals_to(k, g, t),
{
    lemma_evals_start(k, g);
    lemma_evals_step(k, g, 0, tid(k.shape()), t);
    lemma_tid_neutral(k.shape(), t);
    lemma_evals_done(k, g, t);
}

pub proof fn lemma_means_conj(k: KPuzzle, p: Puz, a: Seq<MKey>, b: Seq<MKey>, ai: Seq<MKey>, va: Seq<TV>, vb: Seq<TV>, vai: Seq<TV>, t: TV)
    requires
        k.wf(),
        decoded(k.def(), p),
        word_means(k, p, a, va),
        word_means(k, p, b, vb),
        word_means(k, p, ai, vai),
        word_inv(a, ai),
        good_t(p.shape, t),
        t == ccomp(p.shape, ccomp(p.shape, cword(p.shape, a, va, a.len() as int), cword(p.shape, b, vb, b.len() as int), p.shape.len() as int),
            cword(p.shape, ai, vai, ai.len() as int), p.shape.len() as int),
    ensures
        alg_means(k, DAlg::Conj(a, b), t),
{
    let s = p.shape;
    lemma_shape_of(k, p);
    let ta = cword(s, a, va, a.len() as int);
    let tb = cword(s, b, vb, b.len() as int);
    let tai = cword(s, ai, vai, ai.len() as int);
    lemma_ccomp(s, ta, tb, s.len() as int);
    lemma_ccomp(s, tcomp(s, ta, tb), tai, s.len() as int);
    assert forall|g: GAlg| #[trigger] is_dalg(g, DAlg::Conj(a, b)) implies evals_to(k, g, t) by {
        let x = g[0]->Conj_0;
        let y = g[0]->Conj_1;
        lemma_word_inv(x, a, ai);
        lemma_word(k, p, x, a, va);
        lemma_word(k, p, y, b, vb);
        lemma_word(k, p, alg_inv(x), ai, vai);
        lemma_evals_node(k, g[0]);
        lemma_evals_single(k, g, t);
    }
}

pub proof fn lemma_means_comm(k: KPuzzle, p: Puz, a: Seq<MKey>, b: Seq<MKey>, ai: Seq<MKey>, bi: Seq<MKey>, va: Seq<TV>, vb: Seq<TV>, vai: Seq<TV>, vbi: Seq<TV>, t: TV)
    requires
        k.wf(),
        decoded(k.def(), p),
        word_means(k, p, a, va),
        word_means(k, p, b, vb),
        word_means(k, p, ai, vai),
        word_means(k, p, bi, vbi),
        word_inv(a, ai),
        word_inv(b, bi),
        good_t(p.shape, t),
        t == ccomp(p.shape, ccomp(p.shape, ccomp(p.shape, cword(p.shape, a, va, a.len() as int), cword(p.shape, b, vb, b.len() as int), p.shape.len() as int),
            cword(p.shape, ai, vai, ai.len() as int), p.shape.len() as int), cword(p.shape, bi, vbi, bi.len() as int), p.shape.len() as int),
    ensures
        alg_means(k, DAlg::Comm(a, b), t),
{
    let s = p.shape;
    lemma_shape_of(k, p);
    let ta = cword(s, a, va, a.len() as int);
    let tb = cword(s, b, vb, b.len() as int);
    let tai = cword(s, ai, vai, ai.len() as int);
    let tbi = cword(s, bi, vbi, bi.len() as int);
    lemma_ccomp(s, ta, tb, s.len() as int);
    lemma_ccomp(s, tcomp(s, ta, tb), tai, s.len() as int);
    lemma_ccomp(s, tcomp(s, tcomp(s, ta, tb), tai), tbi, s.len() as int);
    assert forall|g: GAlg| #[trigger] is_dalg(g, DAlg::Comm(a, b)) implies evals_to(k, g, t) by {
        let x = g[0]->Comm_0;
        let y = g[0]->Comm_1;
        lemma_word_inv(x, a, ai);
        lemma_word_inv(y, b, bi);
        lemma_word(k, p, x, a, va);
        lemma_word(k, p, y, b, vb);
        lemma_word(k, p, alg_inv(x), ai, vai);
        lemma_word(k, p, alg_inv(y), bi, vbi);
        lemma_evals_node(k, g[0]);
        lemma_evals_single(k, g, t);
    }
}

// --- relations ---

/// The two words act alike: `transformation_from_alg` gives one transformation for both (C05).
pub open spec fn same_effect(k: KPuzzle, a: Seq<MKey>, b: Seq<MKey>) -> bool {
    forall|g: GAlg, h: GAlg| #[trigger] is_word(g, a) && #[trigger] is_word(h, b) ==> exists|t: TV| #[trigger] evals_to(k, g, t) && evals_to(k, h, t)
}

pub proof fn lemma_same_effect(k: KPuzzle, p: Puz, a: Seq<MKey>, va: Seq<TV>, b: Seq<MKey>, vb: Seq<TV>)
    requires
        k.wf(),
        decoded(k.def(), p),
        word_means(k, p, a, va),
        word_means(k, p, b, vb),
        cword(p.shape, a, va, a.len() as int) == cword(p.shape, b, vb, b.len() as int),
    ensures
        same_effect(k, a, b),
{
    assert forall|g: GAlg, h: GAlg| #[trigger] is_word(g, a) && #[trigger] is_word(h, b) implies exists|t: TV| #[trigger] evals_to(k, g, t) && evals_to(k, h, t) by {
        lemma_word(k, p, g, a, va);
        lemma_word(k, p, h, b, vb);
        let t = cword(p.shape, a, va, a.len() as int);
        assert(evals_to(k, g, t) && evals_to(k, h, t));
    }
}

@raw
} // verus!
