@raw
verus! {

// ---------------------------------------------------------------------------
// Round trip: printing and parsing again
// ---------------------------------------------------------------------------

/// Values that can be printed and parsed: amounts that can be negated, families of family
/// characters, comments without a newline.
pub open spec fn wf_amount(a: int) -> bool { -0x7fff_ffff <= a <= 0x7fff_ffff }

pub open spec fn fam(f: Text) -> bool { f.len() > 0 && forall|j: int| 0 <= j < f.len() ==> is_fam(#[trigger] f[j]) }

pub open spec fn wf_node(n: SNode) -> bool
    decreases n,
{
    match n {
        SNode::Mv(m) => fam(m.family) && wf_amount(m.amount),
        SNode::Comment(t) => forall|j: int| 0 <= j < t.len() ==> #[trigger] t[j] != '\n',
        SNode::Group(s, k) => wf_amount(k) && wf_alg(s),
        SNode::Comm(a, b) => wf_alg(a) && wf_alg(b),
        SNode::Conj(a, b) => wf_alg(a) && wf_alg(b),
        _ => true,
    }
}

pub open spec fn wf_alg(s: SAlg) -> bool
    decreases s,
{
    forall|i: int| 0 <= i < s.len() ==> wf_node(#[trigger] s[i])
}

/// Every comment is followed by a newline node (or, if `top`, may be the last node).
pub open spec fn comments_ok(s: SAlg, top: bool) -> bool {
    forall|j: int| 0 <= j < s.len() && (#[trigger] s[j]) is Comment ==> (j + 1 < s.len() && s[j + 1] is Newline) || (top && j + 1 == s.len())
}

/// All nested algs have their comments closed.
pub open spec fn closed_node(n: SNode) -> bool
    decreases n,
{
    match n {
        SNode::Group(s, k) => comments_ok(s, false) && closed_alg(s),
        SNode::Comm(a, b) => comments_ok(a, false) && comments_ok(b, false) && closed_alg(a) && closed_alg(b),
        SNode::Conj(a, b) => comments_ok(a, false) && comments_ok(b, false) && closed_alg(a) && closed_alg(b),
        _ => true,
    }
}

pub open spec fn closed_alg(s: SAlg) -> bool
    decreases s,
{
    forall|i: int| 0 <= i < s.len() ==> closed_node(#[trigger] s[i])
}

/// The characters that may follow a node in a text.
pub open spec fn is_stop(c: char) -> bool { c == ')' || c == ']' || c == ',' || c == ':' }

pub open spec fn stop(r: Text) -> bool { r.len() == 0 || is_stop(r[0]) }

pub open spec fn ends_node(r: Text) -> bool { r.len() == 0 || is_stop(r[0]) || r[0] == ' ' || r[0] == '\n' }

pub open spec fn follow(n: SNode, r: Text) -> bool {
    match n { SNode::Newline => true, SNode::Comment(_) => r.len() == 0 || r[0] == '\n', _ => ends_node(r) }
}

pub proof fn lemma_lits()
    ensures
        "_SLASH_"@ =~= seq!['_', 'S', 'L', 'A', 'S', 'H', '_'],
        "_PLUS_"@ =~= seq!['_', 'P', 'L', 'U', 'S', '_'],
        "_PLUSPLUS_"@ =~= seq!['_', 'P', 'L', 'U', 'S', 'P', 'L', 'U', 'S', '_'],
        "U_SQ_"@ =~= seq!['U', '_', 'S', 'Q', '_'],
        "D_SQ_"@ =~= seq!['D', '_', 'S', 'Q', '_'],
        fam("_SLASH_"@),
        fam("_PLUS_"@),
        fam("_PLUSPLUS_"@),
        fam("U_SQ_"@),
        fam("D_SQ_"@),
        !ends("_PLUSPLUS_"@, "_PLUS_"@),
{
    reveal_strlit("_SLASH_");
    reveal_strlit("_PLUS_");
    reveal_strlit("_PLUSPLUS_");
    reveal_strlit("U_SQ_");
    reveal_strlit("D_SQ_");
    let p = "_PLUSPLUS_"@;
    assert(p.skip(4)[0] == 'S');
}

// --- associativity helpers ---

pub proof fn lemma_cat3(a: Text, b: Text, c: Text)
    ensures
        (a + b) + c == a + (b + c),
{
    assert((a + b) + c =~= a + (b + c));
}

pub proof fn lemma_cat_all()
    ensures
        forall|a: Text, b: Text, c: Text| #[trigger] ((a + b) + c) == a + (b + c),
        forall|a: Text, b: Text| #[trigger] (a + b).len() == a.len() + b.len(),
        forall|b: Text| #[trigger] (Seq::<char>::empty() + b) == b,
        forall|a: Text| #[trigger] (a + Seq::<char>::empty()) == a,
{
    assert forall|a: Text, b: Text, c: Text| #[trigger] ((a + b) + c) == a + (b + c) by { lemma_cat3(a, b, c); }
    assert forall|b: Text| #[trigger] (Seq::<char>::empty() + b) == b by { assert(Seq::<char>::empty() + b =~= b); }
    assert forall|a: Text| #[trigger] (a + Seq::<char>::empty()) == a by { assert(a + Seq::<char>::empty() =~= a); }
}

pub proof fn lemma_cat5(a: Text, b: Text, c: Text, d: Text, e: Text, r: Text)
    ensures
        (a + b + c + d + e) + r == a + (b + (c + (d + (e + r)))),
{
    assert((a + b + c + d + e) + r =~= a + (b + (c + (d + (e + r)))));
}

pub proof fn lemma_cat4(a: Text, b: Text, c: Text, d: Text, r: Text)
    ensures
        (a + b + c + d) + r == a + (b + (c + (d + r))),
{
    assert((a + b + c + d) + r =~= a + (b + (c + (d + r))));
}

pub proof fn lemma_skip_cat(a: Text, b: Text)
    ensures
        (a + b).skip(a.len() as int) == b,
        (a + b).take(a.len() as int) == a,
        a.len() > 0 ==> (a + b)[0] == a[0],
        a.len() == 0 ==> a + b == b,
{
    assert((a + b).skip(a.len() as int) =~= b);
    assert((a + b).take(a.len() as int) =~= a);
    if a.len() == 0 { assert(a + b =~= b); }
}

/// One character in front.
pub proof fn lemma_one(c: char, b: Text)
    ensures
        (seq![c] + b).skip(1) == b,
        (seq![c] + b)[0] == c,
        (seq![c] + b).len() == b.len() + 1,
{
    assert((seq![c] + b).skip(1) =~= b);
}

pub proof fn lemma_two(c: char, d: char, b: Text)
    ensures
        (seq![c, d] + b).skip(2) == b,
        (seq![c, d] + b).skip(1) == seq![d] + b,
        (seq![c, d] + b)[0] == c,
        (seq![c, d] + b)[1] == d,
        (seq![c, d] + b).len() == b.len() + 2,
{
    assert((seq![c, d] + b).skip(2) =~= b);
    assert((seq![c, d] + b).skip(1) =~= seq![d] + b);
}

// --- numbers ---

pub proof fn lemma_uint_none(i: Text, max: nat)
    requires
        i.len() == 0 || !is_digit(i[0]),
    ensures
        sp_uint(i, max) is None,
{
    assert(run(Cls::Digit, i) == 0);
}

pub proof fn lemma_uint_dec(n: nat, max: nat, rest: Text)
    requires
        n <= max,
        rest.len() == 0 || !is_digit(rest[0]),
    ensures
        sp_uint(dec(n) + rest, max) == Some((rest, n)),
        (dec(n) + rest).len() > 0,
        is_digit((dec(n) + rest)[0]),
{
    lemma_dec(n);
    assert forall|j: int| 0 <= j < dec(n).len() implies in_cls(Cls::Digit, #[trigger] dec(n)[j]) by {}
    lemma_run_cat(Cls::Digit, dec(n), rest);
}

pub proof fn lemma_dec_rt(n: int, rest: Text)
    requires
        wf_amount(n),
        rest.len() == 0 || !is_digit(rest[0]),
    ensures
        sp_dec(pr_int(n) + rest) == Some((rest, n)),
        pr_int(n).len() > 0,
        is_digit(pr_int(n)[0]) || pr_int(n)[0] == '-',
{
    if n < 0 {
        let d = dec((-n) as nat);
        lemma_uint_dec((-n) as nat, i32_max(), rest);
        lemma_dec((-n) as nat);
        lemma_cat3(seq!['-'], d, rest);
        lemma_one('-', d + rest);
        lemma_uint_none(seq!['-'] + (d + rest), i32_max());
    } else {
        lemma_uint_dec(n as nat, i32_max(), rest);
        lemma_dec(n as nat);
    }
}

// --- moves ---

pub proof fn lemma_prefix_rt(p: MovePrefix, rest: Text)
    requires
        rest.len() > 0,
        is_fam(rest[0]),
    ensures
        sp_prefix(pr_prefix(p) + rest) == Some((rest, p)),
        pr_prefix(p).len() > 0,
        is_digit(pr_prefix(p)[0]),
{
    match p {
        MovePrefix::Layer(l) => {
            lemma_uint_dec(l.layer as nat, u32_max(), rest);
            lemma_dec(l.layer as nat);
        },
        MovePrefix::Range(r) => {
            let (a, b) = (dec(r.outer_layer as nat), dec(r.inner_layer as nat));
            lemma_dec(r.outer_layer as nat);
            lemma_uint_dec(r.inner_layer as nat, u32_max(), rest);
            let t = seq!['-'] + (b + rest);
            lemma_one('-', b + rest);
            lemma_uint_dec(r.outer_layer as nat, u32_max(), t);
            assert(pr_prefix(p) + rest =~= a + t);
        },
    }
}

/// Quantum moves: prefix and family, up to the first character that is not a family character.
pub proof fn lemma_quantum_rt(f: Text, p: Option<MovePrefix>, rest: Text)
    requires
        fam(f),
        rest.len() == 0 || !is_fam(rest[0]),
    ensures
        sp_quantum(pr_quantum(f, p) + rest) == Some((rest, f, p)),
        pr_quantum(f, p).len() > 0,
        is_digit(pr_quantum(f, p)[0]) || is_fam(pr_quantum(f, p)[0]),
{
    let t = f + rest;
    assert(t[0] == f[0]);
    assert forall|j: int| 0 <= j < f.len() implies in_cls(Cls::Fam, #[trigger] f[j]) by {}
    lemma_run_cat(Cls::Fam, f, rest);
    match p {
        Some(q) => {
            lemma_prefix_rt(q, t);
            lemma_cat3(pr_prefix(q), f, rest);
            assert(pr_quantum(f, p)[0] == pr_prefix(q)[0]);
        },
        None => {
            assert(pr_quantum(f, p) =~= f);
            lemma_uint_none(t, u32_max());
        },
    }
}

pub proof fn lemma_ends(f: Text, t: Text)
    requires
        fam(f),
        ends(f, t),
        base(f, t).len() > 0,
    ensures
        fam(base(f, t)),
        base(f, t) + t == f,
{
    let b = base(f, t);
    assert forall|j: int| 0 <= j < b.len() implies is_fam(#[trigger] b[j]) by { assert(b[j] == f[j]); }
    assert(f =~= f.take(f.len() - t.len()) + f.skip(f.len() - t.len()));
}

/// The text of an amount, and the amount read back from it.
pub proof fn lemma_amount_rt(a: int, rest: Text)
    requires
        wf_amount(a),
        ends_node(rest),
    ensures
        sp_suffix(pr_amount(a) + rest) == (rest, a),
        ({ let (r, n) = sp_opt_nat(pr_amount(a) + rest); !is1(r, '+') && !is1(r, '-') && sp_prime(r) == (rest, if a < 0 { -1int } else { 1int })
            && or1(n) == abs(a) }),
        ({ let t = pr_amount(a) + rest; t.len() == 0 || (!is_fam(t[0]) && t[0] != '+' && t[0] != '-') }),
{
    let t = pr_amount(a) + rest;
    if a == 1 {
        assert(t =~= rest);
        lemma_uint_none(rest, i32_max());
    } else if a == -1 {
        lemma_one('\'', rest);
        lemma_uint_none(t, i32_max());
    } else if a < 0 {
        let d = dec((-a) as nat);
        lemma_cat3(d, seq!['\''], rest);
        lemma_one('\'', rest);
        lemma_uint_dec((-a) as nat, i32_max(), seq!['\''] + rest);
        assert(sp_opt_nat(t) == (seq!['\''] + rest, Some(-a)));
        assert((-a) * -1 == a) by (nonlinear_arith);
    } else {
        lemma_uint_dec(a as nat, i32_max(), rest);
        assert(sp_opt_nat(t) == (rest, Some(a)));
        assert(a * 1 == a);
    }
}

pub proof fn lemma_move_plus(b: Text, p: Option<MovePrefix>, a: int, rest: Text)
    requires
        fam(b),
        wf_amount(a),
    ensures
        ({
            let c = if a < 0 { '-' } else { '+' };
            let x = pr_quantum(b, p) + dec(abs(a)) + seq![c];
            &&& sp_move(x + rest) == Some((rest, SMove { family: b + "_PLUS_"@, prefix: p, amount: a }))
            &&& x.len() > 0
            &&& is_digit(x[0]) || is_fam(x[0])
        }),
{
    let c = if a < 0 { '-' } else { '+' };
    let t1 = seq![c] + rest;
    let t2 = dec(abs(a)) + t1;
    lemma_one(c, rest);
    lemma_uint_dec(abs(a), i32_max(), t1);
    lemma_quantum_rt(b, p, t2);
    let q = pr_quantum(b, p);
    let x = q + dec(abs(a)) + seq![c];
    assert(x + rest =~= q + t2);
    lemma_skip_cat(q, t2);
    assert(x[0] == q[0]);
    assert(!is1(q + t2, '/'));
    assert(sp_opt_nat(t2) == (t1, Some(abs(a) as int)));
}

pub proof fn lemma_move_plusplus(b: Text, p: Option<MovePrefix>, a: int, rest: Text)
    requires
        fam(b),
        a == 1 || a == -1,
    ensures
        ({
            let x = pr_quantum(b, p) + (if a < 0 { seq!['-', '-'] } else { seq!['+', '+'] });
            &&& sp_move(x + rest) == Some((rest, SMove { family: b + "_PLUSPLUS_"@, prefix: p, amount: a }))
            &&& x.len() > 0
            &&& is_digit(x[0]) || is_fam(x[0])
        }),
{
    let c = if a < 0 { '-' } else { '+' };
    let t = seq![c, c] + rest;
    lemma_two(c, c, rest);
    lemma_quantum_rt(b, p, t);
    let q = pr_quantum(b, p);
    let x = q + seq![c, c];
    assert(x + rest =~= q + t);
    lemma_skip_cat(q, t);
    assert(x[0] == q[0]);
    assert(!is1(q + t, '/'));
}

pub proof fn lemma_move_plain(f: Text, p: Option<MovePrefix>, a: int, rest: Text)
    requires
        fam(f),
        wf_amount(a),
        ends_node(rest),
    ensures
        ({
            let x = pr_quantum(f, p) + pr_amount(a);
            &&& sp_move(x + rest) == Some((rest, SMove { family: f, prefix: p, amount: a }))
            &&& x.len() > 0
            &&& is_digit(x[0]) || is_fam(x[0])
        }),
{
    let t = pr_amount(a) + rest;
    let q = pr_quantum(f, p);
    let x = q + pr_amount(a);
    lemma_amount_rt(a, rest);
    lemma_quantum_rt(f, p, t);
    lemma_cat3(q, pr_amount(a), rest);
    lemma_skip_cat(q, t);
    assert(x[0] == q[0]);
    assert(!is1(q + t, '/'));
    let (r, n) = sp_opt_nat(t);
    assert(sp_prime(r) == (rest, if a < 0 { -1int } else { 1int }));
    if a < 0 { assert(abs(a) * -1 == a) by (nonlinear_arith) requires a < 0, abs(a) == -a; } else { assert(abs(a) * 1 == a); }
    assert(!is2(t, '+', '+') && !is2(t, '-', '-'));
}

/// A printed move is read back as exactly this move.
pub proof fn lemma_move_rt(m: SMove, rest: Text)
    requires
        fam(m.family),
        wf_amount(m.amount),
        ends_node(rest),
    ensures
        sp_move(pr_move(m) + rest) == Some((rest, m)),
        pr_move(m).len() > 0,
        pr_move(m)[0] == '/' || is_digit(pr_move(m)[0]) || is_fam(pr_move(m)[0]),
        pr_move(m)[0] == '/' ==> pr_move(m) == seq!['/'],
{
    let a = m.amount;
    if s_is(m, "_SLASH_"@) && a == 1 {
        lemma_one('/', rest);
    } else if ends(m.family, "_PLUS_"@) && base(m.family, "_PLUS_"@).len() > 0 {
        lemma_ends(m.family, "_PLUS_"@);
        lemma_move_plus(base(m.family, "_PLUS_"@), m.prefix, a, rest);
    } else if ends(m.family, "_PLUSPLUS_"@) && base(m.family, "_PLUSPLUS_"@).len() > 0 && (a == 1 || a == -1) {
        lemma_ends(m.family, "_PLUSPLUS_"@);
        lemma_move_plusplus(base(m.family, "_PLUSPLUS_"@), m.prefix, a, rest);
    } else {
        lemma_move_plain(m.family, m.prefix, a, rest);
    }
}

/// What a move cannot start with.
pub proof fn lemma_move_none(i: Text)
    requires
        i.len() == 0 || !(i[0] == '/' || is_digit(i[0]) || is_fam(i[0])),
    ensures
        sp_move(i) is None,
{
    lemma_uint_none(i, u32_max());
    assert(run(Cls::Fam, i) == 0);
}

/// No node starts here.
pub proof fn lemma_node_none(i: Text)
    requires
        stop(i),
    ensures
        sp_node(i) is None,
        after_spaces(i) == i,
        sp_items(i) == (i, Seq::<(bool, SNode)>::empty()),
{
    lemma_move_none(i);
    assert(seq![] =~= Seq::<(bool, SNode)>::empty());
}

// --- algs ---

pub open spec fn flag(s: SAlg, j: int) -> bool { j > 0 && sep(s[j - 1], s[j]) == seq![' '] }

pub open spec fn items_from(s: SAlg, i: int) -> SItems {
    Seq::new((s.len() - i) as nat, |j: int| (flag(s, i + j), s[i + j]))
}

/// A printed node starts with a character that is neither a space nor the start of something else.
pub proof fn lemma_pr_first(n: SNode)
    requires
        wf_node(n),
    ensures
        pr_node(n).len() > 0,
        pr_node(n)[0] != ' ',
        !is_stop(pr_node(n)[0]),
    decreases n,
{
    lemma_lits();
    match n {
        SNode::Mv(m) => { lemma_move_rt(m, seq![]); },
        SNode::Group(s, k) => {
            if k == 1 && s_sq1(s) {
            } else if bare(s, k) {
                assert(wf_node(s[0]));
                lemma_pr_first(s[0]);
                assert(pr_from(s, 0) == seq![] + pr_node(s[0]) + pr_from(s, 1));
                assert(seq![] + pr_node(s[0]) =~= pr_node(s[0]));
                assert(pr_in(s)[0] == pr_node(s[0])[0]);
            }
        },
        _ => {},
    }
}

pub proof fn lemma_spaces_before(t: Text)
    ensures
        after_spaces(seq![' '] + t) == after_spaces(t),
{
    lemma_one(' ', t);
}

/// Spaces in front change nothing.
pub proof fn lemma_lead(t: Text)
    ensures
        sp_alg(seq![' '] + t) == sp_alg(t),
{
    let u = seq![' '] + t;
    lemma_spaces_before(t);
    lemma_one(' ', t);
    lemma_after_spaces(t);
    let (r, v) = sp_items(t);
    let (r2, v2) = sp_items(u);
    let j = after_spaces(t);
    match sp_node(j) {
        None => {
            assert(r2 == u && r == t);
            assert(nodes_of(v) =~= nodes_of(v2));
            assert(crowded(v) == crowded(v2));
        },
        Some((q, n)) => {
            lemma_node_progress(j);
            let (q1, w) = sp_items(q);
            assert(v == seq![(is1(t, ' '), n)] + w);
            assert(v2 == seq![(true, n)] + w);
            assert(nodes_of(v) =~= nodes_of(v2));
            assert forall|k: int| 0 <= k < v.len() implies #[trigger] bad_at(v, k) == bad_at(v2, k) by {
                if k > 0 { assert(v[k] == v2[k]); assert(v[k - 1].1 == v2[k - 1].1); }
            }
            if crowded(v) { let k = choose|k: int| 0 <= k < v.len() && #[trigger] bad_at(v, k); assert(bad_at(v2, k)); }
            if crowded(v2) { let k = choose|k: int| 0 <= k < v2.len() && #[trigger] bad_at(v2, k); assert(bad_at(v, k)); }
        },
    }
}

pub proof fn lemma_after_spaces(i: Text)
    ensures
        after_spaces(i).len() <= i.len(),
        !is1(after_spaces(i), ' '),
        after_spaces(after_spaces(i)) == after_spaces(i),
        !is1(i, ' ') ==> after_spaces(i) == i,
    decreases i.len(),
{
    if is1(i, ' ') { lemma_after_spaces(i.skip(1)); }
}

/// `r` is what is left of `i`.
pub open spec fn suf(r: Text, i: Text) -> bool { r.len() <= i.len() && i.skip(i.len() - r.len()) == r }

pub proof fn lemma_suf_trans(a: Text, b: Text, c: Text)
    requires
        suf(a, b),
        suf(b, c),
    ensures
        suf(a, c),
{
    assert(c.skip(c.len() - a.len()) =~= b.skip(b.len() - a.len()));
}

pub proof fn lemma_suf(i: Text, k: int)
    requires
        0 <= k <= i.len(),
    ensures
        suf(i.skip(k), i),
{
}

pub proof fn lemma_suf2(i: Text, k: int, l: int)
    requires
        0 <= k <= i.len(),
        0 <= l <= i.len() - k,
    ensures
        suf(i.skip(k).skip(l), i),
{
    lemma_suf_trans(i.skip(k).skip(l), i.skip(k), i);
}

pub proof fn lemma_suf_next(r: Text, k: int, i: Text)
    requires
        suf(r, i),
        0 <= k <= r.len(),
    ensures
        suf(r.skip(k), i),
{
    lemma_suf_trans(r.skip(k), r, i);
}

pub proof fn lemma_uint_progress(i: Text, max: nat)
    ensures
        sp_uint(i, max) is Some ==> sp_uint(i, max)->Some_0.0.len() < i.len() && suf(sp_uint(i, max)->Some_0.0, i),
{
    lemma_run(Cls::Digit, i);
}

pub proof fn lemma_opt_nat_progress(i: Text)
    ensures
        suf(sp_opt_nat(i).0, i),
{
    lemma_uint_progress(i, i32_max());
    assert(i.skip(0) =~= i);
}

pub proof fn lemma_prime_progress(i: Text)
    ensures
        suf(sp_prime(i).0, i),
{
    assert(i.skip(0) =~= i);
}

pub proof fn lemma_quantum_progress(i: Text)
    ensures
        sp_quantum(i) is Some ==> sp_quantum(i)->Some_0.0.len() < i.len() && suf(sp_quantum(i)->Some_0.0, i),
        suf(sp_opt_prefix(i).0, i),
{
    assert(i.skip(0) =~= i);
    lemma_uint_progress(i, u32_max());
    if sp_uint(i, u32_max()) is Some {
        let r = sp_uint(i, u32_max())->Some_0.0;
        lemma_uint_progress(r.skip(1), u32_max());
        if is1(r, '-') {
            lemma_suf_next(r, 1, i);
            if sp_uint(r.skip(1), u32_max()) is Some { lemma_suf_trans(sp_uint(r.skip(1), u32_max())->Some_0.0, r.skip(1), i); }
        }
    }
    let r = sp_opt_prefix(i).0;
    lemma_run(Cls::Fam, r);
    lemma_suf_next(r, run(Cls::Fam, r) as int, i);
}

pub proof fn lemma_move_progress(i: Text)
    ensures
        sp_move(i) is Some ==> sp_move(i)->Some_0.0.len() < i.len() && suf(sp_move(i)->Some_0.0, i),
{
    lemma_quantum_progress(i);
    if sp_quantum(i) is Some {
        let q = sp_quantum(i)->Some_0.0;
        if q.len() >= 2 { lemma_suf_next(q, 2, i); }
        lemma_opt_nat_progress(q);
        let r = sp_opt_nat(q).0;
        lemma_suf_trans(r, q, i);
        if r.len() >= 1 { lemma_suf_next(r, 1, i); }
    }
}

pub proof fn lemma_suffix_progress(i: Text)
    ensures
        sp_suffix(i).0.len() <= i.len(),
        suf(sp_suffix(i).0, i),
{
    lemma_opt_nat_progress(i);
    lemma_prime_progress(sp_opt_nat(i).0);
    lemma_suf_trans(sp_suffix(i).0, sp_opt_nat(i).0, i);
}

#[verifier::spinoff_prover]
pub proof fn lemma_node_progress(i: Text)
    ensures
        sp_node(i) is Some ==> sp_node(i)->Some_0.0.len() < i.len() && suf(sp_node(i)->Some_0.0, i),
    decreases i.len(), 3nat,
{
    if sp_comment(i) is Some {
        lemma_run(Cls::Text, i.skip(2));
        lemma_suf2(i, 2, run(Cls::Text, i.skip(2)) as int);
    } else if sp_move(i) is Some {
        lemma_move_progress(i);
    } else if is1(i, '(') {
        lemma_paren_progress(i.skip(1));
        lemma_tuple_progress(i.skip(1));
        if sp_paren(i.skip(1)) is Some {
            lemma_suf_trans(sp_paren(i.skip(1))->Some_0.0, i.skip(1), i);
        } else if sp_tuple(i.skip(1)) is Some {
            lemma_suf_trans(sp_tuple(i.skip(1))->Some_0.0, i.skip(1), i);
        }
    } else if is1(i, '[') {
        lemma_bracket_progress(i);
    }
}

pub proof fn lemma_bracket_progress(i: Text)
    ensures
        sp_bracket(i) is Some ==> sp_bracket(i)->Some_0.0.len() < i.len() && suf(sp_bracket(i)->Some_0.0, i),
    decreases i.len(), 2nat,
{
    if is1(i, '[') {
        lemma_alg_progress(i.skip(1));
        if sp_alg(i.skip(1)) is Some {
            let (r, a) = sp_alg(i.skip(1))->Some_0;
            lemma_suf_trans(r, i.skip(1), i);
            if r.len() > 0 {
                lemma_suf_next(r, 1, i);
                lemma_alg_progress(r.skip(1));
                if sp_alg(r.skip(1)) is Some {
                    let (q, b) = sp_alg(r.skip(1))->Some_0;
                    lemma_suf_trans(q, r.skip(1), i);
                    if q.len() > 0 {
                        lemma_suf_next(q, 1, i);
                        lemma_suffix_progress(q.skip(1));
                        lemma_suf_trans(sp_suffix(q.skip(1)).0, q.skip(1), i);
                    }
                }
            }
        }
    }
}

pub proof fn lemma_dec_progress(i: Text)
    ensures
        sp_dec(i) is Some ==> sp_dec(i)->Some_0.0.len() < i.len() && suf(sp_dec(i)->Some_0.0, i),
{
    lemma_uint_progress(i, i32_max());
    if is1(i, '-') {
        lemma_uint_progress(i.skip(1), i32_max());
        if sp_uint(i.skip(1), i32_max()) is Some { lemma_suf_trans(sp_uint(i.skip(1), i32_max())->Some_0.0, i.skip(1), i); }
    }
}

pub proof fn lemma_tuple_progress(i: Text)
    ensures
        sp_tuple(i) is Some ==> sp_tuple(i)->Some_0.0.len() < i.len() && suf(sp_tuple(i)->Some_0.0, i),
{
    lemma_dec_progress(i);
    if sp_dec(i) is Some && is2(sp_dec(i)->Some_0.0, ',', ' ') {
        let r = sp_dec(i)->Some_0.0;
        lemma_suf_next(r, 2, i);
        lemma_dec_progress(r.skip(2));
        if sp_dec(r.skip(2)) is Some {
            let q = sp_dec(r.skip(2))->Some_0.0;
            lemma_suf_trans(q, r.skip(2), i);
            if q.len() > 0 { lemma_suf_next(q, 1, i); }
        }
    }
}

pub proof fn lemma_paren_progress(i: Text)
    ensures
        sp_paren(i) is Some ==> sp_paren(i)->Some_0.0.len() < i.len() && suf(sp_paren(i)->Some_0.0, i),
    decreases i.len(), 6nat,
{
    lemma_alg_progress(i);
    if sp_alg(i) is Some && sp_alg(i)->Some_0.0.len() > 0 {
        let r = sp_alg(i)->Some_0.0;
        lemma_suf_next(r, 1, i);
        lemma_suffix_progress(r.skip(1));
        lemma_suf_trans(sp_suffix(r.skip(1)).0, r.skip(1), i);
    }
}

pub proof fn lemma_after_suf(i: Text)
    ensures
        suf(after_spaces(i), i),
    decreases i.len(),
{
    if is1(i, ' ') {
        lemma_after_suf(i.skip(1));
        lemma_suf_trans(after_spaces(i.skip(1)), i.skip(1), i);
    } else {
        assert(i.skip(0) =~= i);
    }
}

pub proof fn lemma_items_progress(i: Text)
    ensures
        sp_items(i).0.len() <= i.len(),
        suf(sp_items(i).0, i),
    decreases i.len(), 4nat,
{
    let j = after_spaces(i);
    lemma_after_spaces(i);
    lemma_after_suf(i);
    lemma_node_progress(j);
    assert(i.skip(0) =~= i);
    if sp_node(j) is Some {
        let r = sp_node(j)->Some_0.0;
        lemma_suf_trans(r, j, i);
        lemma_items_progress(r);
        lemma_suf_trans(sp_items(r).0, r, i);
    }
}

pub proof fn lemma_alg_progress(i: Text)
    ensures
        sp_alg(i) is Some ==> sp_alg(i)->Some_0.0.len() <= i.len() && suf(sp_alg(i)->Some_0.0, i),
    decreases i.len(), 5nat,
{
    lemma_items_progress(i);
    lemma_after_spaces(sp_items(i).0);
    lemma_after_suf(sp_items(i).0);
    lemma_suf_trans(after_spaces(sp_items(i).0), sp_items(i).0, i);
}

#[verifier::spinoff_prover]
pub proof fn lemma_items_rt(s: SAlg, i: int, rest: Text)
    requires
        0 <= i <= s.len(),
        wf_alg(s),
        closed_alg(s),
        comments_ok(s, rest.len() == 0),
        stop(rest),
    ensures
        sp_items(pr_from(s, i) + rest) == (rest, items_from(s, i)),
    decreases s, 1nat, s.len() - i,
{
    if i == s.len() {
        assert(pr_from(s, i) + rest =~= rest);
        lemma_node_none(rest);
        assert(items_from(s, i) =~= Seq::<(bool, SNode)>::empty());
    } else {
        let n = s[i];
        let tail = pr_from(s, i + 1) + rest;
        let t = pr_node(n) + tail;
        let sp = if i == 0 { seq![] } else { sep(s[i - 1], s[i]) };
        let all = pr_from(s, i) + rest;
        assert(wf_node(n) && closed_node(n));
        lemma_pr_first(n);
        assert(all =~= sp + t);
        if i > 0 { assert(s[i - 1] is Comment ==> s[i] is Newline); }
        assert(sp == Seq::<char>::empty() || sp == seq![' ']);
        assert(t[0] == pr_node(n)[0]);
        lemma_after_spaces(t);
        assert(after_spaces(all) == t && is1(all, ' ') == flag(s, i)) by {
            if sp == seq![' '] { lemma_spaces_before(t); lemma_one(' ', t); } else { assert(sp + t =~= t); assert(seq![' '].len() == 1); }
        }
        // what follows the node
        assert(follow(n, tail)) by {
            if i + 1 < s.len() {
                let m = s[i + 1];
                assert(wf_node(m));
                lemma_pr_first(m);
                let sp2 = sep(n, m);
                assert(pr_from(s, i + 1) == sp2 + pr_node(m) + pr_from(s, i + 2));
                if m is Newline {
                    assert(pr_node(m) == seq!['\n']);
                    assert(tail[0] == '\n');
                } else if n is Newline {
                } else {
                    assert(!(n is Comment));
                    assert(tail[0] == ' ');
                }
            } else {
                assert(pr_from(s, i + 1) == Seq::<char>::empty());
                assert(tail =~= rest);
            }
        }
        lemma_node_rt(n, tail);
        lemma_items_rt(s, i + 1, rest);
        assert(seq![(flag(s, i), n)] + items_from(s, i + 1) =~= items_from(s, i));
        lemma_after_spaces(all);
    }
}

/// A printed alg is read back, up to a closing bracket, separator or the end.
pub proof fn lemma_alg_rt(s: SAlg, rest: Text)
    requires
        wf_alg(s),
        closed_alg(s),
        comments_ok(s, rest.len() == 0),
        stop(rest),
    ensures
        sp_alg(pr_alg(s) + rest) == Some((rest, s)),
        sp_alg(seq![' '] + (pr_alg(s) + rest)) == Some((rest, s)),
    decreases s, 2nat, 0int,
{
    lemma_items_rt(s, 0, rest);
    lemma_lead(pr_alg(s) + rest);
    lemma_node_none(rest);
    let v = items_from(s, 0);
    assert(nodes_of(v) =~= s);
    assert forall|j: int| 0 <= j < v.len() implies !(#[trigger] bad_at(v, j)) by {
        if j > 0 {
            assert(v[j].1 == s[j] && v[j - 1].1 == s[j - 1]);
            if s[j - 1] is Comment { } else if s[j - 1] is Newline || s[j] is Newline { } else { assert(flag(s, j)); }
        }
    }
}

/// An alg in brackets.
pub proof fn lemma_in_rt(s: SAlg, rest: Text)
    requires
        wf_alg(s),
        closed_alg(s),
        comments_ok(s, false),
        stop(rest),
        rest.len() > 0,
    ensures
        sp_alg(pr_in(s) + rest) == Some((rest, s)),
        sp_alg(seq![' '] + (pr_in(s) + rest)) == Some((rest, s)),
    decreases s, 3nat, 0int,
{
    lemma_alg_rt(s, rest);
    assert(pr_in(s) =~= pr_alg(s));
}

/// A printed node is read back as exactly this node.
pub proof fn lemma_node_rt(n: SNode, rest: Text)
    requires
        wf_node(n),
        closed_node(n),
        follow(n, rest),
    ensures
        sp_node(pr_node(n) + rest) == Some((rest, n)),
    decreases n, 1nat, 0int,
{
    let t = pr_node(n) + rest;
    lemma_pr_first(n);
    match n {
        SNode::Mv(m) => {
            lemma_move_rt(m, rest);
            assert(t[0] == pr_move(m)[0]);
            if t[0] == '/' { lemma_one('/', rest); assert(!is2(t, '/', '/')); }
        },
        SNode::Pause => { lemma_one('.', rest); lemma_move_none(t); },
        SNode::Newline => { lemma_one('\n', rest); lemma_move_none(t); },
        SNode::Comment(c) => {
            lemma_cat3(seq!['/', '/'], c, rest);
            lemma_two('/', '/', c + rest);
            assert forall|j: int| 0 <= j < c.len() implies in_cls(Cls::Text, #[trigger] c[j]) by {}
            lemma_run_cat(Cls::Text, c, rest);
        },
        SNode::Group(s, k) => {
            if k == 1 && s_sq1(s) {
                lemma_tuple_rt(s, rest);
            } else if bare(s, k) {
                let b = s[0];
                assert(wf_node(s[0]) && closed_node(s[0]));
                lemma_single(s);
                lemma_cat3(pr_in(s), pr_amount(k), rest);
                match b {
                    SNode::Comm(x, y) => { lemma_bracket_rt(true, x, y, k, rest); },
                    SNode::Conj(x, y) => { lemma_bracket_rt(false, x, y, k, rest); },
                    _ => {},
                }
                assert(s =~= seq![b]);
            } else {
                let u = seq![')'] + (pr_amount(k) + rest);
                lemma_one(')', pr_amount(k) + rest);
                lemma_in_rt(s, u);
                lemma_group_rt(s, k, rest);
            }
        },
        SNode::Comm(x, y) => {
            lemma_amount_rt(1, rest);
            assert(pr_amount(1) + rest =~= rest);
            lemma_bracket_rt(true, x, y, 1, rest);
        },
        SNode::Conj(x, y) => {
            lemma_amount_rt(1, rest);
            assert(pr_amount(1) + rest =~= rest);
            lemma_bracket_rt(false, x, y, 1, rest);
        },
    }
}

pub proof fn lemma_single(s: SAlg)
    requires
        s.len() == 1,
        !(s[0] is Comment),
    ensures
        pr_in(s) == pr_node(s[0]),
{
    assert(pr_from(s, 1) == Seq::<char>::empty());
    assert(pr_from(s, 0) == Seq::<char>::empty() + pr_node(s[0]) + pr_from(s, 1));
    assert(pr_in(s) =~= pr_node(s[0]));
}

pub proof fn lemma_group_rt(s: SAlg, k: int, rest: Text)
    requires
        wf_amount(k),
        ends_node(rest),
        !(k == 1 && s_sq1(s)),
        !bare(s, k),
        sp_alg(pr_in(s) + (seq![')'] + (pr_amount(k) + rest))) == Some((seq![')'] + (pr_amount(k) + rest), s)),
    ensures
        sp_node(pr_node(SNode::Group(s, k)) + rest) == Some((rest, SNode::Group(s, k))),
{
    let n = SNode::Group(s, k);
    lemma_amount_rt(k, rest);
    let u = seq![')'] + (pr_amount(k) + rest);
    let w = pr_in(s) + u;
    lemma_cat4(seq!['('], pr_in(s), seq![')'], pr_amount(k), rest);
    assert(pr_node(n) + rest == seq!['('] + w);
    lemma_group_parse(s, k, rest, pr_amount(k) + rest, w);
}

/// Reading a group whose content is read as `s`.
pub proof fn lemma_group_parse(s: SAlg, k: int, rest: Text, a2: Text, w: Text)
    requires
        sp_alg(w) == Some((seq![')'] + a2, s)),
        sp_suffix(a2) == (rest, k),
    ensures
        sp_node(seq!['('] + w) == Some((rest, SNode::Group(s, k))),
{
    let t = seq!['('] + w;
    lemma_one(')', a2);
    lemma_one('(', w);
    lemma_move_none(t);
    assert(t.skip(1) == w && (seq![')'] + a2).skip(1) == a2);
    assert(sp_paren(w) == Some((rest, SNode::Group(s, k))));
    assert(sp_group(t) == Some((rest, SNode::Group(s, k))));
    assert(sp_comment(t) is None);
}

#[verifier::spinoff_prover]
pub proof fn lemma_tuple_rt(s: SAlg, rest: Text)
    requires
        wf_alg(s),
        s_sq1(s),
        ends_node(rest),
    ensures
        sp_node(pr_tuple(s) + rest) == Some((rest, SNode::Group(s, 1))),
{
    let (a, b) = (s[0]->Mv_0.amount, s[1]->Mv_0.amount);
    assert(wf_node(s[0]) && wf_node(s[1]));
    let t1 = seq![')'] + rest;
    let t2 = pr_int(b) + t1;
    let t3 = seq![',', ' '] + t2;
    let t4 = pr_int(a) + t3;
    let t = seq!['('] + t4;
    lemma_cat5(seq!['('], pr_int(a), seq![',', ' '], pr_int(b), seq![')'], rest);
    assert(pr_tuple(s) + rest == t);
    lemma_one(')', rest);
    lemma_dec_rt(b, t1);
    lemma_two(',', ' ', t2);
    lemma_dec_rt(a, t3);
    lemma_one('(', t4);
    lemma_move_none(t);
    assert(mk_tuple(a, b) =~= s);
    assert(sp_tuple(t4) == Some((rest, SNode::Group(s, 1))));
    // the text is not a group: no node starts with a number
    assert(t4[0] == pr_int(a)[0]);
    lemma_number_not_node(t4, t3, a);
    assert(sp_paren(t4) is None);
}

/// `digits ,` starts no node.
pub proof fn lemma_number_not_node(t4: Text, t3: Text, a: int)
    requires
        wf_amount(a),
        t4 == pr_int(a) + t3,
        is1(t3, ','),
    ensures
        sp_alg(t4) == Some((t4, Seq::<SNode>::empty())),
{
    lemma_dec_rt(a, t3);
    assert(t4[0] == pr_int(a)[0]);
    lemma_after_spaces(t4);
    if a < 0 {
        lemma_move_none(t4);
    } else {
        lemma_uint_dec(a as nat, u32_max(), t3);
        assert(sp_opt_prefix(t4) == (t3, Some(mk_layer(a as nat))));
        assert(run(Cls::Fam, t3) == 0);
        assert(sp_move(t4) is None);
    }
    assert(sp_node(t4) is None);
    assert(sp_items(t4).1 =~= Seq::<(bool, SNode)>::empty());
    assert(nodes_of(sp_items(t4).1) =~= Seq::<SNode>::empty());
}

pub proof fn lemma_bracket_rt(comma: bool, x: SAlg, y: SAlg, k: int, rest: Text)
    requires
        wf_alg(x),
        wf_alg(y),
        closed_alg(x),
        closed_alg(y),
        comments_ok(x, false),
        comments_ok(y, false),
        wf_amount(k),
        ends_node(rest),
    ensures
        sp_node(pr_node(mk_bracket(comma, x, y)) + (pr_amount(k) + rest))
            == Some((rest, if k == 1 { mk_bracket(comma, x, y) } else { SNode::Group(seq![mk_bracket(comma, x, y)], k) })),
    decreases mk_bracket(comma, x, y), 0nat, 0int,
{
    let c = if comma { ',' } else { ':' };
    let t2 = seq![']'] + (pr_amount(k) + rest);
    let t4 = seq![c] + (seq![' '] + (pr_in(y) + t2));
    lemma_one(']', pr_amount(k) + rest);
    lemma_one(c, seq![' '] + (pr_in(y) + t2));
    lemma_in_rt(x, t4);
    lemma_in_rt(y, t2);
    lemma_bracket_rt2(comma, x, y, k, rest);
}

#[verifier::spinoff_prover]
pub proof fn lemma_bracket_rt2(comma: bool, x: SAlg, y: SAlg, k: int, rest: Text)
    requires
        wf_amount(k),
        ends_node(rest),
        ({
            let c = if comma { ',' } else { ':' };
            let t2 = seq![']'] + (pr_amount(k) + rest);
            let t4 = seq![c] + (seq![' '] + (pr_in(y) + t2));
            sp_alg(pr_in(x) + t4) == Some((t4, x)) && sp_alg(seq![' '] + (pr_in(y) + t2)) == Some((t2, y))
        }),
    ensures
        sp_node(pr_node(mk_bracket(comma, x, y)) + (pr_amount(k) + rest))
            == Some((rest, if k == 1 { mk_bracket(comma, x, y) } else { SNode::Group(seq![mk_bracket(comma, x, y)], k) })),
{
    let n = mk_bracket(comma, x, y);
    let c = if comma { ',' } else { ':' };
    lemma_amount_rt(k, rest);
    let t1 = pr_amount(k) + rest;
    let t2 = seq![']'] + t1;
    let t3 = pr_in(y) + t2;
    let t5 = pr_in(x) + (seq![c] + (seq![' '] + t3));
    assert(pr_node(n) == seq!['['] + pr_in(x) + seq![c, ' '] + pr_in(y) + seq![']']);
    lemma_cat5(seq!['['], pr_in(x), seq![c, ' '], pr_in(y), seq![']'], t1);
    assert(seq![c, ' '] + t3 =~= seq![c] + (seq![' '] + t3));
    assert(pr_node(n) + t1 == seq!['['] + t5);
    lemma_bracket_parse(comma, x, y, k, rest, t1, seq![' '] + t3, t5);
}

/// Reading a bracket whose parts are read as `x` and `y`.
pub proof fn lemma_bracket_parse(comma: bool, x: SAlg, y: SAlg, k: int, rest: Text, t1: Text, u: Text, t5: Text)
    requires
        sp_alg(t5) == Some((seq![if comma { ',' } else { ':' }] + u, x)),
        sp_alg(u) == Some((seq![']'] + t1, y)),
        sp_suffix(t1) == (rest, k),
    ensures
        sp_node(seq!['['] + t5) == Some((rest, if k == 1 { mk_bracket(comma, x, y) } else { SNode::Group(seq![mk_bracket(comma, x, y)], k) })),
{
    let c = if comma { ',' } else { ':' };
    let t = seq!['['] + t5;
    let t4 = seq![c] + u;
    let t2 = seq![']'] + t1;
    lemma_one(']', t1);
    lemma_one(c, u);
    lemma_one('[', t5);
    lemma_move_none(t);
    lemma_alg_progress(t5);
    assert(t.skip(1) == t5 && t4.skip(1) == u && t2.skip(1) == t1);
    let n = mk_bracket(comma, x, y);
    assert(sp_bracket(t) == Some((rest, if k == 1 { n } else { SNode::Group(seq![n], k) })));
    assert(sp_group(t) is None);
    assert(sp_comment(t) is None);
}

@raw
} // verus!
