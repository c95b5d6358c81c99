@raw
verus! {

// ---------------------------------------------------------------------------
// Comments: the newline that printing puts after a comment
// ---------------------------------------------------------------------------

/// The nodes from the i-th on, with a newline node put after every comment followed by something else.
pub open spec fn ins_from(s: SAlg, i: int) -> SAlg
    decreases s.len() - i,
{
    if i < 0 || i >= s.len() { seq![] } else {
        seq![s[i]] + (if s[i] is Comment && i + 1 < s.len() && !(s[i + 1] is Newline) { seq![SNode::Newline] } else { seq![] }) + ins_from(s, i + 1)
    }
}

pub open spec fn shut(s: SAlg) -> SAlg {
    if s.len() > 0 && s.last() is Comment { s.push(SNode::Newline) } else { s }
}

/// The alg with every comment closed by a newline node (a last comment only inside brackets):
/// the same alg up to newline nodes after comments.
pub open spec fn norm_node(n: SNode) -> SNode
    decreases n,
{
    match n {
        SNode::Group(s, k) => SNode::Group(shut(ins_from(norm_each(s), 0)), k),
        SNode::Comm(a, b) => SNode::Comm(shut(ins_from(norm_each(a), 0)), shut(ins_from(norm_each(b), 0))),
        SNode::Conj(a, b) => SNode::Conj(shut(ins_from(norm_each(a), 0)), shut(ins_from(norm_each(b), 0))),
        _ => n,
    }
}

pub open spec fn norm_each(s: SAlg) -> SAlg
    decreases s,
{
    Seq::new(s.len(), |i: int| if 0 <= i < s.len() { norm_node(s[i]) } else { SNode::Pause })
}

pub open spec fn norm(s: SAlg) -> SAlg { ins_from(norm_each(s), 0) }

pub open spec fn norm_in(s: SAlg) -> SAlg { shut(norm(s)) }

pub proof fn lemma_norm_each(s: SAlg)
    ensures
        norm_each(s).len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] norm_each(s)[i] == norm_node(s[i]),
        forall|i: int| 0 <= i < s.len() ==> ((#[trigger] norm_each(s)[i]) is Comment <==> s[i] is Comment),
        forall|i: int| 0 <= i < s.len() ==> ((#[trigger] norm_each(s)[i]) is Newline <==> s[i] is Newline),
{
}

// --- printing is not changed ---

pub proof fn lemma_pr_shift(x: SNode, t: SAlg, j: int)
    requires
        1 <= j <= t.len(),
    ensures
        pr_from(seq![x] + t, j + 1) == pr_from(t, j),
    decreases t.len() - j,
{
    let u = seq![x] + t;
    if j < t.len() {
        assert(u[j] == t[j - 1] && u[j + 1] == t[j]);
        lemma_pr_shift(x, t, j + 1);
    }
}

pub proof fn lemma_pr_cons(x: SNode, t: SAlg)
    ensures
        pr_alg(seq![x] + t) == pr_node(x) + ((if t.len() > 0 { sep(x, t[0]) } else { seq![] }) + pr_alg(t)),
{
    let u = seq![x] + t;
    assert(u[0] == x);
    assert(pr_from(u, 0) == Seq::<char>::empty() + pr_node(x) + pr_from(u, 1));
    assert(Seq::<char>::empty() + pr_node(x) =~= pr_node(x));
    if t.len() > 0 {
        assert(u[1] == t[0]);
        lemma_pr_shift(x, t, 1);
        assert(pr_from(t, 0) == Seq::<char>::empty() + pr_node(t[0]) + pr_from(t, 1));
        assert(pr_from(u, 1) =~= sep(x, t[0]) + pr_alg(t));
    } else {
        assert(pr_from(u, 1) =~= Seq::<char>::empty());
        assert(pr_alg(t) =~= Seq::<char>::empty());
        assert(pr_node(x) + (Seq::<char>::empty() + Seq::<char>::empty()) =~= pr_node(x));
        assert(pr_node(x) + Seq::<char>::empty() =~= pr_node(x));
    }
}

pub proof fn lemma_ins_first(s: SAlg, i: int)
    requires
        0 <= i < s.len(),
    ensures
        ins_from(s, i).len() > 0,
        ins_from(s, i)[0] == s[i],
{
}

pub proof fn lemma_ins_print(s: SAlg, i: int)
    requires
        0 <= i < s.len(),
    ensures
        pr_alg(ins_from(s, i)) == pr_node(s[i]) + pr_from(s, i + 1),
    decreases s.len() - i,
{
    let t = ins_from(s, i + 1);
    if i + 1 < s.len() {
        lemma_ins_print(s, i + 1);
        lemma_ins_first(s, i + 1);
        let d = sep(s[i], s[i + 1]);
        assert(pr_from(s, i + 1) =~= d + pr_alg(t));
        if s[i] is Comment && !(s[i + 1] is Newline) {
            let nl = SNode::Newline;
            assert(ins_from(s, i) =~= seq![s[i]] + (seq![nl] + t));
            lemma_pr_cons(nl, t);
            lemma_pr_cons(s[i], seq![nl] + t);
            assert((seq![nl] + t)[0] == nl);
            assert(pr_node(nl) + (Seq::<char>::empty() + pr_alg(t)) =~= seq!['\n'] + pr_alg(t));
            assert(pr_node(s[i]) + (Seq::<char>::empty() + (seq!['\n'] + pr_alg(t))) =~= pr_node(s[i]) + (seq!['\n'] + pr_alg(t)));
        } else {
            assert(ins_from(s, i) =~= seq![s[i]] + t);
            lemma_pr_cons(s[i], t);
        }
    } else {
        assert(ins_from(s, i) =~= seq![s[i]] + Seq::<SNode>::empty());
        lemma_pr_cons(s[i], Seq::<SNode>::empty());
        assert(pr_alg(Seq::<SNode>::empty()) =~= Seq::<char>::empty());
        assert(pr_from(s, i + 1) =~= Seq::<char>::empty());
        assert(pr_node(s[i]) + (Seq::<char>::empty() + Seq::<char>::empty()) =~= pr_node(s[i]) + Seq::<char>::empty());
    }
}

pub proof fn lemma_ins_print_all(s: SAlg)
    ensures
        pr_alg(ins_from(s, 0)) == pr_alg(s),
{
    if s.len() > 0 {
        lemma_ins_print(s, 0);
        assert(pr_from(s, 0) == Seq::<char>::empty() + pr_node(s[0]) + pr_from(s, 1));
        assert(Seq::<char>::empty() + pr_node(s[0]) =~= pr_node(s[0]));
    } else {
        assert(ins_from(s, 0) =~= s);
    }
}

pub proof fn lemma_ins_last(s: SAlg, i: int)
    requires
        0 <= i < s.len(),
    ensures
        ins_from(s, i).len() > 0,
        ins_from(s, i).last() == s.last(),
    decreases s.len() - i,
{
    if i + 1 < s.len() {
        lemma_ins_last(s, i + 1);
        let t = ins_from(s, i + 1);
        let u = ins_from(s, i);
        assert(u[u.len() - 1] == t[t.len() - 1]);
    } else {
        assert(ins_from(s, i + 1) == Seq::<SNode>::empty());
        assert(ins_from(s, i) =~= seq![s[i]]);
    }
}

/// Printing with one more node at the end.
pub proof fn lemma_pr_push(s: SAlg, x: SNode, i: int)
    requires
        0 <= i <= s.len(),
        s.len() > 0,
    ensures
        pr_from(s.push(x), i) == pr_from(s, i) + (if i == s.len() || true { sep(s.last(), x) + pr_node(x) } else { seq![] }),
    decreases s.len() - i,
{
    let u = s.push(x);
    if i == s.len() {
        assert(u[i] == x && u[i - 1] == s.last());
        assert(pr_from(u, i + 1) =~= Seq::<char>::empty());
        assert(pr_from(u, i) == sep(u[i - 1], u[i]) + pr_node(u[i]) + pr_from(u, i + 1));
        assert(sep(u[i - 1], u[i]) + pr_node(u[i]) + Seq::<char>::empty() =~= sep(s.last(), x) + pr_node(x));
        assert(pr_from(s, i) =~= Seq::<char>::empty());
        assert(Seq::<char>::empty() + (sep(s.last(), x) + pr_node(x)) =~= sep(s.last(), x) + pr_node(x));
    } else {
        lemma_pr_push(s, x, i + 1);
        assert(u[i] == s[i]);
        if i > 0 { assert(u[i - 1] == s[i - 1]); }
        assert(pr_from(u, i) =~= pr_from(s, i) + (sep(s.last(), x) + pr_node(x)));
    }
}

pub proof fn lemma_shut_print(s: SAlg)
    ensures
        pr_in(shut(s)) == pr_in(s),
{
    if s.len() > 0 && s.last() is Comment {
        lemma_pr_push(s, SNode::Newline, 0);
        assert(shut(s).last() is Newline);
        assert(Seq::<char>::empty() + seq!['\n'] =~= seq!['\n']);
        assert(pr_alg(shut(s)) + Seq::<char>::empty() =~= pr_alg(shut(s)));
    }
}

/// Printing the closed alg gives the same text.
#[verifier::spinoff_prover]
pub proof fn lemma_norm_print_node(n: SNode)
    ensures
        pr_node(norm_node(n)) == pr_node(n),
    decreases n, 0nat, 0int,
{
    match n {
        SNode::Group(s, k) => {
            lemma_norm_print(s);
            lemma_norm_each(s);
            let t = norm_in(s);
            lemma_norm_shape(s);
        },
        SNode::Comm(a, b) => { lemma_norm_print(a); lemma_norm_print(b); },
        SNode::Conj(a, b) => { lemma_norm_print(a); lemma_norm_print(b); },
        _ => {},
    }
}

/// Closing comments does not make or break the special forms of groups.
pub proof fn lemma_norm_shape(s: SAlg)
    ensures
        s_sq1(norm_in(s)) == s_sq1(s),
        s_sq1(s) ==> norm_in(s) == s,
        forall|k: int| #[trigger] bare(norm_in(s), k) == bare(s, k),
{
    lemma_norm_each(s);
    let m = norm_each(s);
    let t = norm_in(s);
    reveal_with_fuel(ins_from, 4);
    if s.len() == 0 {
        assert(t =~= s);
    } else if s.len() == 1 {
        assert(ins_from(m, 0) =~= seq![m[0]]);
        if !(s[0] is Comment) { assert(t =~= seq![m[0]]); }
    } else if s.len() == 2 {
        if s[0] is Comment || s[1] is Comment {
            lemma_ins_first(m, 0);
            lemma_ins_last(m, 0);
            if s[0] is Comment { assert(t[0] is Comment); } else { assert(t.last() is Newline); }
        } else {
            assert(ins_from(m, 0) =~= seq![m[0], m[1]]);
            assert(t =~= seq![m[0], m[1]]);
            if s_sq1(s) { assert(t =~= s); }
        }
    } else {
        lemma_ins_len(m, 0);
        assert(ins_from(m, 0).len() >= 3);
    }
}

pub proof fn lemma_ins_len(s: SAlg, i: int)
    requires
        0 <= i <= s.len(),
    ensures
        ins_from(s, i).len() >= s.len() - i,
    decreases s.len() - i,
{
    if i < s.len() { lemma_ins_len(s, i + 1); }
}

pub proof fn lemma_norm_print_from(s: SAlg, i: int)
    requires
        0 <= i <= s.len(),
    ensures
        pr_from(norm_each(s), i) == pr_from(s, i),
    decreases s, 1nat, s.len() - i,
{
    lemma_norm_each(s);
    if i < s.len() {
        lemma_norm_print_node(s[i]);
        lemma_norm_print_from(s, i + 1);
        if i > 0 { assert(sep(norm_each(s)[i - 1], norm_each(s)[i]) == sep(s[i - 1], s[i])); }
    }
}

pub proof fn lemma_norm_print(s: SAlg)
    ensures
        pr_alg(norm(s)) == pr_alg(s),
        pr_in(norm_in(s)) == pr_in(s),
    decreases s, 2nat, 0int,
{
    lemma_norm_print_from(s, 0);
    lemma_ins_print_all(norm_each(s));
    lemma_norm_each(s);
    lemma_shut_print(norm(s));
    if s.len() > 0 { lemma_ins_last(norm_each(s), 0); } else { assert(norm(s) =~= s); }
}

// --- the closed alg is closed ---

pub proof fn lemma_ins_ok(s: SAlg, i: int)
    requires
        0 <= i <= s.len(),
    ensures
        comments_ok(ins_from(s, i), true),
        wf_alg(s) ==> wf_alg(ins_from(s, i)),
        closed_alg(s) ==> closed_alg(ins_from(s, i)),
    decreases s.len() - i,
{
    if i < s.len() {
        lemma_ins_ok(s, i + 1);
        let t = ins_from(s, i + 1);
        let mid: SAlg = if s[i] is Comment && i + 1 < s.len() && !(s[i + 1] is Newline) { seq![SNode::Newline] } else { seq![] };
        let u = ins_from(s, i);
        assert(u == seq![s[i]] + mid + t);
        let off = 1 + mid.len();
        if i + 1 < s.len() { lemma_ins_first(s, i + 1); }
        assert forall|j: int| off <= j < u.len() implies u[j] == t[j - off] by {}
        assert forall|j: int| 0 <= j < u.len() && (#[trigger] u[j]) is Comment implies (j + 1 < u.len() && u[j + 1] is Newline) || j + 1 == u.len() by {
            if j >= off {
                assert(t[j - off] is Comment);
                if j + 1 < u.len() { assert(u[j + 1] == t[j + 1 - off]); }
            } else if j == 0 {
                if i + 1 < s.len() {
                    if mid.len() == 1 { assert(u[1] == mid[0]); } else { assert(u[1] == t[0]); }
                }
            }
        }
        if wf_alg(s) {
            assert forall|j: int| 0 <= j < u.len() implies wf_node(#[trigger] u[j]) by {
                if j >= off { assert(wf_node(t[j - off])); } else if j == 0 { assert(wf_node(s[i])); }
            }
        }
        if closed_alg(s) {
            assert forall|j: int| 0 <= j < u.len() implies closed_node(#[trigger] u[j]) by {
                if j >= off { assert(closed_node(t[j - off])); } else if j == 0 { assert(closed_node(s[i])); }
            }
        }
    }
}

pub proof fn lemma_shut_ok(s: SAlg)
    requires
        comments_ok(s, true),
    ensures
        comments_ok(shut(s), false),
        wf_alg(s) ==> wf_alg(shut(s)),
        closed_alg(s) ==> closed_alg(shut(s)),
{
    let u = shut(s);
    assert forall|j: int| 0 <= j < u.len() && (#[trigger] u[j]) is Comment implies j + 1 < u.len() && u[j + 1] is Newline by {
        assert(s[j] is Comment);
        if j + 1 < s.len() { assert(u[j + 1] == s[j + 1]); }
    }
    if wf_alg(s) { assert forall|j: int| 0 <= j < u.len() implies wf_node(#[trigger] u[j]) by { if j < s.len() { assert(u[j] == s[j]); } } }
    if closed_alg(s) { assert forall|j: int| 0 <= j < u.len() implies closed_node(#[trigger] u[j]) by { if j < s.len() { assert(u[j] == s[j]); } } }
}

pub proof fn lemma_norm_node_ok(n: SNode)
    ensures
        closed_node(norm_node(n)),
        wf_node(n) ==> wf_node(norm_node(n)),
    decreases n,
{
    match n {
        SNode::Group(s, k) => { lemma_norm_ok(s); },
        SNode::Comm(a, b) => { lemma_norm_ok(a); lemma_norm_ok(b); },
        SNode::Conj(a, b) => { lemma_norm_ok(a); lemma_norm_ok(b); },
        _ => {},
    }
}

pub proof fn lemma_norm_ok(s: SAlg)
    ensures
        closed_alg(norm(s)),
        comments_ok(norm(s), true),
        closed_alg(norm_in(s)),
        comments_ok(norm_in(s), false),
        wf_alg(s) ==> wf_alg(norm(s)) && wf_alg(norm_in(s)),
    decreases s,
{
    lemma_norm_each(s);
    let m = norm_each(s);
    assert forall|i: int| 0 <= i < m.len() implies closed_node(#[trigger] m[i]) by { lemma_norm_node_ok(s[i]); }
    if wf_alg(s) {
        assert forall|i: int| 0 <= i < m.len() implies wf_node(#[trigger] m[i]) by { assert(wf_node(s[i])); lemma_norm_node_ok(s[i]); }
    }
    lemma_ins_ok(m, 0);
    lemma_shut_ok(norm(s));
}

/// An alg whose comments are closed is its own closed form.
pub proof fn lemma_norm_id_node(n: SNode)
    requires
        closed_node(n),
    ensures
        norm_node(n) == n,
    decreases n,
{
    match n {
        SNode::Group(s, k) => { lemma_norm_id(s); lemma_shut_id(s); },
        SNode::Comm(a, b) => { lemma_norm_id(a); lemma_norm_id(b); lemma_shut_id(a); lemma_shut_id(b); },
        SNode::Conj(a, b) => { lemma_norm_id(a); lemma_norm_id(b); lemma_shut_id(a); lemma_shut_id(b); },
        _ => {},
    }
}

pub proof fn lemma_shut_id(s: SAlg)
    requires
        comments_ok(s, false),
    ensures
        shut(s) == s,
        comments_ok(s, true),
{
    if s.len() > 0 { assert(s[s.len() - 1] == s.last()); }
}

pub proof fn lemma_ins_id(s: SAlg, i: int)
    requires
        0 <= i <= s.len(),
        comments_ok(s, true),
    ensures
        ins_from(s, i) == s.skip(i),
    decreases s.len() - i,
{
    if i < s.len() {
        lemma_ins_id(s, i + 1);
        assert(s[i] is Comment ==> i + 1 >= s.len() || s[i + 1] is Newline);
        assert(ins_from(s, i) =~= s.skip(i));
    } else {
        assert(ins_from(s, i) =~= s.skip(i));
    }
}

pub proof fn lemma_norm_id(s: SAlg)
    requires
        closed_alg(s),
        comments_ok(s, true) || comments_ok(s, false),
    ensures
        norm(s) == s,
    decreases s,
{
    lemma_norm_each(s);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] norm_each(s)[i] == s[i] by {
        assert(closed_node(s[i]));
        lemma_norm_id_node(s[i]);
    }
    assert(norm_each(s) =~= s);
    lemma_ins_id(s, 0);
    assert(s.skip(0) =~= s);
}

// ---------------------------------------------------------------------------
// What parsing can produce
// ---------------------------------------------------------------------------

pub proof fn lemma_fam_run(i: Text)
    requires
        sp_family(i) is Some,
    ensures
        fam(sp_family(i)->Some_0.1),
{
    lemma_run(Cls::Fam, i);
    let n = run(Cls::Fam, i) as int;
    let f = i.take(n);
    assert forall|j: int| 0 <= j < f.len() implies is_fam(#[trigger] f[j]) by { assert(f[j] == i[j]); }
}

pub proof fn lemma_fam_cat(a: Text, b: Text)
    requires
        fam(a),
        fam(b),
    ensures
        fam(a + b),
{
    let c = a + b;
    assert forall|j: int| 0 <= j < c.len() implies is_fam(#[trigger] c[j]) by {
        if j < a.len() { assert(c[j] == a[j]); } else { assert(c[j] == b[j - a.len()]); }
    }
}

/// Accepted moves: a family of family characters and an amount that can be negated.
pub proof fn lemma_parsed_move(i: Text)
    requires
        sp_move(i) is Some,
    ensures
        fam(sp_move(i)->Some_0.1.family),
        wf_amount(sp_move(i)->Some_0.1.amount),
{
    lemma_lits();
    if !is1(i, '/') {
        let (r, f, p) = sp_quantum(i)->Some_0;
        lemma_fam_run(sp_opt_prefix(i).0);
        lemma_fam_cat(f, "_PLUSPLUS_"@);
        lemma_fam_cat(f, "_PLUS_"@);
        let (r2, n) = sp_opt_nat(r);
        let k = or1(n);
        assert(k <= 0x7fff_ffff && k >= 0);
        assert(k * -1 == -k) by (nonlinear_arith);
        assert(k * 1 == k) by (nonlinear_arith);
        let q = sp_prime(r2).1;
        assert(q == 1 || q == -1);
        assert(-0x7fff_ffff <= k * q <= 0x7fff_ffff);
    }
}

pub proof fn lemma_parsed_suffix(i: Text)
    ensures
        wf_amount(sp_suffix(i).1),
{
    let n = sp_opt_nat(i).1;
    assert(or1(n) <= 0x7fff_ffff && or1(n) >= 0);
    assert(or1(n) * -1 == -or1(n)) by (nonlinear_arith);
}

#[verifier::spinoff_prover]
pub proof fn lemma_parsed_node(i: Text)
    ensures
        sp_node(i) is Some ==> ({
            let (r, n) = sp_node(i)->Some_0;
            wf_node(n) && closed_node(n) && (n is Comment ==> r.len() == 0 || r[0] == '\n')
        }),
    decreases i.len(), 3nat,
{
    if sp_comment(i) is Some {
        lemma_run(Cls::Text, i.skip(2));
        let c = sp_comment(i)->Some_0.1;
        assert forall|j: int| 0 <= j < c.len() implies #[trigger] c[j] != '\n' by { assert(c[j] == i.skip(2)[j]); assert(in_cls(Cls::Text, i.skip(2)[j])); }
    } else if sp_move(i) is Some {
        lemma_parsed_move(i);
    } else if is1(i, '(') {
        lemma_parsed_paren(i.skip(1));
        if sp_paren(i.skip(1)) is None && sp_tuple(i.skip(1)) is Some { lemma_parsed_tuple(i.skip(1)); }
    } else if is1(i, '[') {
        lemma_parsed_alg(i.skip(1));
        lemma_alg_progress(i.skip(1));
        if sp_alg(i.skip(1)) is Some {
            let (r, a) = sp_alg(i.skip(1))->Some_0;
            if r.len() > 0 {
                lemma_parsed_alg(r.skip(1));
                if sp_alg(r.skip(1)) is Some {
                    let (q, b) = sp_alg(r.skip(1))->Some_0;
                    if q.len() > 0 {
                        lemma_parsed_suffix(q.skip(1));
                        let n = mk_bracket(r[0] == ',', a, b);
                        if sp_bracket(i) is Some {
                            lemma_not_top(a);
                            lemma_not_top(b);
                            assert(wf_node(n) && closed_node(n));
                            let g = seq![n];
                            assert(wf_alg(g) && closed_alg(g) && comments_ok(g, false));
                        }
                    }
                }
            }
        }
    }
}

pub proof fn lemma_not_top(a: SAlg)
    requires
        comments_ok(a, true),
        a.len() > 0 ==> !(a.last() is Comment),
    ensures
        comments_ok(a, false),
{
}

pub proof fn lemma_parsed_tuple(i: Text)
    requires
        sp_tuple(i) is Some,
    ensures
        wf_node(sp_tuple(i)->Some_0.1),
        closed_node(sp_tuple(i)->Some_0.1),
        !(sp_tuple(i)->Some_0.1 is Comment),
{
    lemma_lits();
    let (r, a) = sp_dec(i)->Some_0;
    let (q, b) = sp_dec(r.skip(2))->Some_0;
    let s = mk_tuple(a, b);
    assert(wf_node(s[0]) && wf_node(s[1]));
    assert(wf_alg(s));
    assert(closed_node(s[0]) && closed_node(s[1]));
    assert(closed_alg(s) && comments_ok(s, false));
}

pub proof fn lemma_parsed_paren(i: Text)
    ensures
        sp_paren(i) is Some ==> wf_node(sp_paren(i)->Some_0.1) && closed_node(sp_paren(i)->Some_0.1) && sp_paren(i)->Some_0.1 is Group,
    decreases i.len(), 6nat,
{
    lemma_parsed_alg(i);
    if sp_paren(i) is Some {
        let (r, a) = sp_alg(i)->Some_0;
        lemma_parsed_suffix(r.skip(1));
        lemma_not_top(a);
    }
}

pub proof fn lemma_parsed_items(i: Text)
    ensures
        ({
            let (r, v) = sp_items(i);
            let s = nodes_of(v);
            &&& wf_alg(s)
            &&& closed_alg(s)
            &&& comments_ok(s, true)
            &&& s.len() > 0 && s.last() is Comment ==> r.len() == 0
        }),
    decreases i.len(), 4nat,
{
    let j = after_spaces(i);
    lemma_after_spaces(i);
    lemma_parsed_node(j);
    lemma_node_progress(j);
    let (q, v) = sp_items(i);
    let s = nodes_of(v);
    if sp_node(j) is Some {
        let (r, n) = sp_node(j)->Some_0;
        lemma_parsed_items(r);
        let (q2, w) = sp_items(r);
        let t = nodes_of(w);
        assert(s =~= seq![n] + t);
        assert forall|k: int| 0 <= k < s.len() implies wf_node(#[trigger] s[k]) && closed_node(s[k]) by {
            if k > 0 { assert(s[k] == t[k - 1]); assert(wf_node(t[k - 1]) && closed_node(t[k - 1])); }
        }
        if n is Comment {
            lemma_after_spaces(r);
            if r.len() == 0 {
                lemma_node_none(r);
                assert(t.len() == 0);
            } else {
                lemma_move_none(r);
                lemma_node_progress(r);
                assert(sp_node(r) == Some((r.skip(1), SNode::Newline)));
                assert(w.len() > 0 && w[0].1 is Newline);
                assert(t[0] is Newline);
            }
        }
        assert forall|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is Comment implies (k + 1 < s.len() && s[k + 1] is Newline) || k + 1 == s.len() by {
            if k > 0 {
                assert(t[k - 1] is Comment);
                if k + 1 < s.len() { assert(s[k + 1] == t[k]); }
            } else if t.len() > 0 { assert(s[1] == t[0]); }
        }
        if t.len() > 0 { assert(s.last() == t.last()); }
    } else {
        assert(s =~= Seq::<SNode>::empty());
    }
}

pub proof fn lemma_parsed_alg(i: Text)
    ensures
        sp_alg(i) is Some ==> ({
            let (r, s) = sp_alg(i)->Some_0;
            &&& wf_alg(s)
            &&& closed_alg(s)
            &&& comments_ok(s, true)
            &&& s.len() > 0 && s.last() is Comment ==> r.len() == 0
        }),
    decreases i.len(), 5nat,
{
    lemma_parsed_items(i);
    lemma_after_spaces(sp_items(i).0);
}

/// Nodes without whitespace (or a newline or comment) between them are rejected.
pub proof fn lemma_not_crowded(i: Text)
    ensures
        sp_alg(i) is Some ==> !crowded(sp_items(i).1),
{
    lemma_items_end(i);
}

pub proof fn lemma_items_end(i: Text)
    ensures
        sp_node(after_spaces(sp_items(i).0)) is None,
        !ws(after_spaces(sp_items(i).0)),
    decreases i.len(),
{
    let j = after_spaces(i);
    lemma_after_spaces(i);
    lemma_node_progress(j);
    if sp_node(j) is Some {
        lemma_items_end(sp_node(j)->Some_0.0);
    } else {
        if is1(j, '\n') { lemma_move_none(j); }
    }
}

// ---------------------------------------------------------------------------
// The round trip
// ---------------------------------------------------------------------------

/// The value of a whole text as an alg, a move, a quantum move.
pub open spec fn parse_alg_text(t: Text) -> Option<SAlg> {
    match sp_alg(t) { Some((r, s)) => if r.len() == 0 { Some(s) } else { None }, None => None }
}

pub open spec fn parse_move_text(t: Text) -> Option<SMove> {
    match sp_move(t) { Some((r, m)) => if r.len() == 0 { Some(m) } else { None }, None => None }
}

pub open spec fn parse_quantum_text(t: Text) -> Option<(Text, Option<MovePrefix>)> {
    match sp_quantum(t) { Some((r, f, p)) => if r.len() == 0 { Some((f, p)) } else { None }, None => None }
}

/// Printing any printable alg gives a text that parses, to the same alg with its comments closed;
/// printing that alg gives the same text.
pub proof fn lemma_print_parse(s: SAlg)
    requires
        wf_alg(s),
    ensures
        parse_alg_text(pr_alg(s)) == Some(norm(s)),
        pr_alg(norm(s)) == pr_alg(s),
{
    lemma_norm_print(s);
    lemma_norm_ok(s);
    let e = Seq::<char>::empty();
    lemma_alg_rt(norm(s), e);
    assert(pr_alg(s) + e =~= pr_alg(s));
}

/// C12: the alg read from a text prints as a text that reads as the same alg.
pub proof fn lemma_parse_print_parse(t: Text)
    requires
        parse_alg_text(t) is Some,
    ensures
        parse_alg_text(pr_alg(parse_alg_text(t)->Some_0)) == parse_alg_text(t),
        wf_alg(parse_alg_text(t)->Some_0),
{
    let s = parse_alg_text(t)->Some_0;
    lemma_parsed_alg(t);
    lemma_print_parse(s);
    lemma_norm_id(s);
}

/// C12 for moves and quantum moves.
pub proof fn lemma_move_parse_print(t: Text)
    requires
        parse_move_text(t) is Some,
    ensures
        parse_move_text(pr_move(parse_move_text(t)->Some_0)) == parse_move_text(t),
        parse_move_text(pr_move(s_move_inv(parse_move_text(t)->Some_0))) == Some(s_move_inv(parse_move_text(t)->Some_0)),
{
    let m = parse_move_text(t)->Some_0;
    lemma_parsed_move(t);
    let e = Seq::<char>::empty();
    lemma_move_rt(m, e);
    lemma_move_rt(s_move_inv(m), e);
    assert(pr_move(m) + e =~= pr_move(m));
    assert(pr_move(s_move_inv(m)) + e =~= pr_move(s_move_inv(m)));
}

pub proof fn lemma_quantum_parse_print(t: Text)
    requires
        parse_quantum_text(t) is Some,
    ensures
        ({ let (f, p) = parse_quantum_text(t)->Some_0; parse_quantum_text(pr_quantum(f, p)) == Some((f, p)) }),
{
    let (f, p) = parse_quantum_text(t)->Some_0;
    lemma_fam_run(sp_opt_prefix(t).0);
    let e = Seq::<char>::empty();
    lemma_quantum_rt(f, p, e);
    assert(pr_quantum(f, p) + e =~= pr_quantum(f, p));
}

pub proof fn lemma_inv_wf_node(n: SNode)
    requires
        wf_node(n),
    ensures
        wf_node(s_node_inv(n)),
    decreases n,
{
    match n {
        SNode::Group(s, k) => {
            if k == 1 && s_sq1(s) {
                assert(wf_node(s[0]) && wf_node(s[1]));
                let t = seq![SNode::Mv(s_move_inv(s[0]->Mv_0)), SNode::Mv(s_move_inv(s[1]->Mv_0))];
                assert(wf_node(t[0]) && wf_node(t[1]));
                assert(wf_alg(t));
            }
        },
        SNode::Conj(a, b) => { lemma_inv_wf(b); },
        _ => {},
    }
}

pub proof fn lemma_inv_wf(s: SAlg)
    requires
        wf_alg(s),
    ensures
        wf_alg(s_alg_inv(s)),
    decreases s,
{
    lemma_s_alg_inv(s);
    assert forall|i: int| 0 <= i < s.len() implies wf_node(#[trigger] s_alg_inv(s)[i]) by {
        assert(wf_node(s[s.len() - 1 - i]));
        lemma_inv_wf_node(s[s.len() - 1 - i]);
    }
}

/// C12 for the inverse of an alg read from a text: it prints as a text that reads as that inverse
/// with its comments closed, and printing is stable.
pub proof fn lemma_inverse_print_parse(t: Text)
    requires
        parse_alg_text(t) is Some,
    ensures
        ({
            let i = s_alg_inv(parse_alg_text(t)->Some_0);
            &&& wf_alg(i)
            &&& parse_alg_text(pr_alg(i)) == Some(norm(i))
            &&& pr_alg(norm(i)) == pr_alg(i)
            &&& closed_alg(i) && comments_ok(i, true) ==> norm(i) == i
        }),
{
    let s = parse_alg_text(t)->Some_0;
    lemma_parsed_alg(t);
    lemma_inv_wf(s);
    lemma_print_parse(s_alg_inv(s));
    let i = s_alg_inv(s);
    if closed_alg(i) && comments_ok(i, true) { lemma_norm_id(i); }
}

/// A value that can be printed has amounts that can be negated.
pub proof fn lemma_wf_ok_node(n: GNode)
    requires
        wf_node(snode(n)),
    ensures
        node_ok(n),
    decreases n,
{
    match n {
        GNode::Group(s, k) => { lemma_wf_ok(s); },
        GNode::Comm(a, b) => { lemma_wf_ok(a); lemma_wf_ok(b); },
        GNode::Conj(a, b) => { lemma_wf_ok(a); lemma_wf_ok(b); },
        _ => {},
    }
}

pub proof fn lemma_wf_ok(s: GAlg)
    requires
        wf_alg(salg(s)),
    ensures
        alg_ok(s),
    decreases s,
{
    lemma_salg(s);
    assert forall|i: int| 0 <= i < s.len() implies node_ok(#[trigger] s[i]) by {
        assert(wf_node(salg(s)[i]));
        lemma_wf_ok_node(s[i]);
    }
}

@raw
} // verus!
