@raw
verus! {

// ---------------------------------------------------------------------------
// Notation: algs as values over texts (sequences of characters)
// ---------------------------------------------------------------------------

pub type Text = Seq<char>;

pub struct SMove {
    pub family: Text,
    pub prefix: Option<MovePrefix>,
    pub amount: int,
}

pub enum SNode {
    Mv(SMove),
    Pause,
    Newline,
    Comment(Text),
    Group(Seq<SNode>, int),
    Comm(Seq<SNode>, Seq<SNode>),
    Conj(Seq<SNode>, Seq<SNode>),
}

pub type SAlg = Seq<SNode>;

pub open spec fn smove(m: Move) -> SMove {
    SMove { family: m.quantum.family@, prefix: m.quantum.prefix, amount: m.amount as int }
}

pub open spec fn snode(n: GNode) -> SNode
    decreases n,
{
    match n {
        GNode::Mv(m) => SNode::Mv(smove(m)),
        GNode::Pause => SNode::Pause,
        GNode::Newline => SNode::Newline,
        GNode::Comment(t) => SNode::Comment(t),
        GNode::Group(s, k) => SNode::Group(salg(s), k as int),
        GNode::Comm(a, b) => SNode::Comm(salg(a), salg(b)),
        GNode::Conj(a, b) => SNode::Conj(salg(a), salg(b)),
    }
}

pub open spec fn salg(s: GAlg) -> SAlg
    decreases s,
{
    Seq::new(s.len(), |i: int| if 0 <= i < s.len() { snode(s[i]) } else { SNode::Pause })
}

pub proof fn lemma_salg(s: GAlg)
    ensures
        salg(s).len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] salg(s)[i] == snode(s[i]),
{
}

pub proof fn lemma_string_ext_all()
    ensures
        forall|a: String, b: String| #[trigger] a@ == #[trigger] b@ ==> a == b,
{
    assert forall|a: String, b: String| #[trigger] a@ == #[trigger] b@ implies a == b by { axiom_string_ext(a, b); }
}

/// Two algs with the same notation value are the same alg.
pub proof fn lemma_snode_inj(a: GNode, b: GNode)
    requires
        snode(a) == snode(b),
    ensures
        a == b,
    decreases a,
{
    match (a, b) {
        (GNode::Mv(m), GNode::Mv(k)) => {
            lemma_string_ext_all();
            assert(m.quantum.family@ == k.quantum.family@);
        },
        (GNode::Group(s, _), GNode::Group(t, _)) => { lemma_salg_inj(s, t); },
        (GNode::Comm(s, u), GNode::Comm(t, v)) => { lemma_salg_inj(s, t); lemma_salg_inj(u, v); },
        (GNode::Conj(s, u), GNode::Conj(t, v)) => { lemma_salg_inj(s, t); lemma_salg_inj(u, v); },
        _ => {},
    }
}

pub proof fn lemma_salg_inj(a: GAlg, b: GAlg)
    requires
        salg(a) == salg(b),
    ensures
        a == b,
    decreases a,
{
    lemma_salg(a);
    lemma_salg(b);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == b[i] by {
        assert(salg(a)[i] == salg(b)[i]);
        assert(salg(a)[i] == snode(a[i]) && salg(b)[i] == snode(b[i]));
        lemma_snode_inj(a[i], b[i]);
    }
    assert(a =~= b);
}

// ---------------------------------------------------------------------------
// Inverses, on notation values
// ---------------------------------------------------------------------------

pub open spec fn s_is(m: SMove, f: Text) -> bool {
    m.family == f && m.prefix is None
}

pub open spec fn s_sq1(s: SAlg) -> bool {
    &&& s.len() == 2
    &&& s[0] is Mv
    &&& s[1] is Mv
    &&& s_is(s[0]->Mv_0, "U_SQ_"@)
    &&& s_is(s[1]->Mv_0, "D_SQ_"@)
}

pub open spec fn s_move_inv(m: SMove) -> SMove {
    if s_is(m, "_SLASH_"@) { m } else { SMove { amount: -m.amount, ..m } }
}

pub open spec fn s_node_inv(n: SNode) -> SNode
    decreases n,
{
    match n {
        SNode::Mv(m) => SNode::Mv(s_move_inv(m)),
        SNode::Group(s, k) =>
            if k == 1 && s_sq1(s) {
                SNode::Group(seq![SNode::Mv(s_move_inv(s[0]->Mv_0)), SNode::Mv(s_move_inv(s[1]->Mv_0))], 1)
            } else {
                SNode::Group(s, -k)
            },
        SNode::Comm(a, b) => SNode::Comm(b, a),
        SNode::Conj(a, b) => SNode::Conj(a, s_alg_inv(b)),
        _ => n,
    }
}

pub open spec fn s_alg_inv(s: SAlg) -> SAlg
    decreases s,
{
    Seq::new(s.len(), |i: int| if 0 <= i < s.len() { s_node_inv(s[s.len() - 1 - i]) } else { SNode::Pause })
}

pub proof fn lemma_s_alg_inv(s: SAlg)
    ensures
        s_alg_inv(s).len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] s_alg_inv(s)[i] == s_node_inv(s[s.len() - 1 - i]),
{
}

pub proof fn lemma_sq1_same(s: GAlg)
    ensures
        sq1_pair(s) == s_sq1(salg(s)),
{
    lemma_salg(s);
    if s.len() == 2 {
        assert(salg(s)[0] == snode(s[0]));
        assert(salg(s)[1] == snode(s[1]));
    }
}

/// The notation value of the inverse is the inverse of the notation value.
pub proof fn lemma_inv_commutes_node(n: GNode)
    requires
        node_ok(n),
    ensures
        snode(node_inv(n)) == s_node_inv(snode(n)),
    decreases n,
{
    match n {
        GNode::Group(s, k) => {
            lemma_sq1_same(s);
            lemma_salg(s);
            if sq1_tuple(s, k) {
                let t = seq![GNode::Mv(move_inv(s[0]->Mv_0)), GNode::Mv(move_inv(s[1]->Mv_0))];
                lemma_salg(t);
                assert(node_ok(s[0]) && node_ok(s[1]));
                assert(salg(s)[0] == snode(s[0]) && salg(s)[1] == snode(s[1]));
                assert(salg(t) =~= seq![SNode::Mv(s_move_inv(salg(s)[0]->Mv_0)), SNode::Mv(s_move_inv(salg(s)[1]->Mv_0))]);
            }
        },
        GNode::Conj(a, b) => { lemma_inv_commutes(b); },
        _ => {},
    }
}

pub proof fn lemma_inv_commutes(s: GAlg)
    requires
        alg_ok(s),
    ensures
        salg(alg_inv(s)) == s_alg_inv(salg(s)),
    decreases s,
{
    lemma_salg(s);
    lemma_alg_inv(s);
    lemma_salg(alg_inv(s));
    lemma_s_alg_inv(salg(s));
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] salg(alg_inv(s))[i] == s_alg_inv(salg(s))[i] by {
        assert(node_ok(s[s.len() - 1 - i]));
        lemma_inv_commutes_node(s[s.len() - 1 - i]);
        assert(salg(s)[s.len() - 1 - i] == snode(s[s.len() - 1 - i]));
    }
    assert(salg(alg_inv(s)) =~= s_alg_inv(salg(s)));
}

// ---------------------------------------------------------------------------
// Characters and numbers
// ---------------------------------------------------------------------------

pub enum Cls { Digit, Fam, Text }

pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }

pub open spec fn is_fam(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || c == '_' }

pub open spec fn in_cls(k: Cls, c: char) -> bool {
    match k { Cls::Digit => is_digit(c), Cls::Fam => is_fam(c), Cls::Text => c != '\n' }
}

/// Length of the longest prefix of characters of a class.
pub open spec fn run(k: Cls, i: Text) -> nat
    decreases i.len(),
{
    if i.len() > 0 && in_cls(k, i[0]) { 1 + run(k, i.skip(1)) } else { 0 }
}

pub proof fn lemma_run(k: Cls, i: Text)
    ensures
        run(k, i) <= i.len(),
        forall|j: int| 0 <= j < run(k, i) ==> in_cls(k, #[trigger] i[j]),
        run(k, i) < i.len() ==> !in_cls(k, i[run(k, i) as int]),
    decreases i.len(),
{
    if i.len() > 0 && in_cls(k, i[0]) {
        lemma_run(k, i.skip(1));
        assert forall|j: int| 0 <= j < run(k, i) implies in_cls(k, #[trigger] i[j]) by {
            if j > 0 { assert(i.skip(1)[j - 1] == i[j]); }
        }
    }
}

pub proof fn lemma_run_is(k: Cls, i: Text, n: nat)
    requires
        n <= i.len(),
        forall|j: int| 0 <= j < n ==> in_cls(k, #[trigger] i[j]),
        n < i.len() ==> !in_cls(k, i[n as int]),
    ensures
        run(k, i) == n,
{
    lemma_run(k, i);
    let r = run(k, i);
    if r < n { assert(in_cls(k, i[r as int])); }
    if r > n { assert(in_cls(k, i[n as int])); }
}

/// A run followed by a text that does not continue it.
pub proof fn lemma_run_cat(k: Cls, a: Text, b: Text)
    requires
        forall|j: int| 0 <= j < a.len() ==> in_cls(k, #[trigger] a[j]),
        b.len() == 0 || !in_cls(k, b[0]),
    ensures
        run(k, a + b) == a.len(),
        (a + b).skip(a.len() as int) == b,
        (a + b).take(a.len() as int) == a,
{
    let c = a + b;
    assert forall|j: int| 0 <= j < a.len() implies in_cls(k, #[trigger] c[j]) by { assert(c[j] == a[j]); }
    if a.len() < c.len() { assert(c[a.len() as int] == b[0]); }
    lemma_run_is(k, c, a.len());
    assert(c.skip(a.len() as int) =~= b);
    assert(c.take(a.len() as int) =~= a);
}

pub open spec fn dval(c: char) -> nat {
    if c == '0' { 0 } else if c == '1' { 1 } else if c == '2' { 2 } else if c == '3' { 3 } else if c == '4' { 4 }
    else if c == '5' { 5 } else if c == '6' { 6 } else if c == '7' { 7 } else if c == '8' { 8 } else { 9 }
}

pub open spec fn dchar(d: nat) -> char {
    if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' }
    else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' }
}

/// The number a sequence of decimal digits denotes.
pub open spec fn dec_val(s: Text) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { dec_val(s.drop_last()) * 10 + dval(s.last()) }
}

/// The decimal digits of a number (no leading zeros).
pub open spec fn dec(n: nat) -> Text
    decreases n,
{
    if n < 10 { seq![dchar(n)] } else { dec(n / 10).push(dchar(n % 10)) }
}

pub open spec fn digits(s: Text) -> bool {
    forall|j: int| 0 <= j < s.len() ==> is_digit(#[trigger] s[j])
}

pub proof fn lemma_dec(n: nat)
    ensures
        dec(n).len() > 0,
        digits(dec(n)),
        dec_val(dec(n)) == n,
    decreases n,
{
    if n < 10 {
        let s = dec(n);
        assert(s.drop_last() =~= seq![]);
        assert(dec_val(s.drop_last()) == 0);
    } else {
        lemma_dec(n / 10);
        let s = dec(n);
        assert(s.drop_last() =~= dec(n / 10));
        assert(s.last() == dchar(n % 10));
        assert forall|j: int| 0 <= j < s.len() implies is_digit(#[trigger] s[j]) by {
            if j < s.len() - 1 { assert(s[j] == dec(n / 10)[j]); }
        }
    }
}

// ---------------------------------------------------------------------------
// Grammar: what each parsing function has to do with its input
// ---------------------------------------------------------------------------

pub open spec fn is1(i: Text, c: char) -> bool { i.len() > 0 && i[0] == c }

pub open spec fn is2(i: Text, c: char, d: char) -> bool { i.len() > 1 && i[0] == c && i[1] == d }

pub open spec fn starts(i: Text, t: Text) -> bool { t.len() <= i.len() && i.take(t.len() as int) == t }

pub open spec fn u32_max() -> nat { 0xffff_ffff }

pub open spec fn i32_max() -> nat { 0x7fff_ffff }

/// Digits denoting a number that fits.
pub open spec fn sp_uint(i: Text, max: nat) -> Option<(Text, nat)> {
    let n = run(Cls::Digit, i) as int;
    if n > 0 && dec_val(i.take(n)) <= max { Some((i.skip(n), dec_val(i.take(n)))) } else { None }
}

pub open spec fn sp_neg(i: Text) -> Option<(Text, int)> {
    if is1(i, '-') {
        match sp_uint(i.skip(1), i32_max()) { Some((r, n)) => Some((r, -n)), None => None }
    } else {
        None
    }
}

pub open spec fn sp_dec(i: Text) -> Option<(Text, int)> {
    match sp_uint(i, i32_max()) { Some((r, n)) => Some((r, n as int)), None => sp_neg(i) }
}

pub open spec fn mk_layer(l: nat) -> MovePrefix { MovePrefix::Layer(MoveLayer { layer: l as u32 }) }

pub open spec fn mk_range(o: nat, n: nat) -> MovePrefix {
    MovePrefix::Range(MoveRange { outer_layer: o as u32, inner_layer: n as u32 })
}

pub open spec fn sp_prefix(i: Text) -> Option<(Text, MovePrefix)> {
    match sp_uint(i, u32_max()) {
        None => None,
        Some((r, o)) =>
            if !is1(r, '-') {
                Some((r, mk_layer(o)))
            } else {
                match sp_uint(r.skip(1), u32_max()) { None => None, Some((q, n)) => Some((q, mk_range(o, n))) }
            },
    }
}

pub open spec fn sp_family(i: Text) -> Option<(Text, Text)> {
    let n = run(Cls::Fam, i) as int;
    if n > 0 { Some((i.skip(n), i.take(n))) } else { None }
}

pub open spec fn sp_opt_prefix(i: Text) -> (Text, Option<MovePrefix>) {
    match sp_prefix(i) { Some((r, p)) => (r, Some(p)), None => (i, None) }
}

pub open spec fn sp_quantum(i: Text) -> Option<(Text, Text, Option<MovePrefix>)> {
    let (r, p) = sp_opt_prefix(i);
    match sp_family(r) { Some((q, f)) => Some((q, f, p)), None => None }
}

/// An amount without sign, and what follows it; nothing if there is none (or it does not fit).
pub open spec fn sp_opt_nat(i: Text) -> (Text, Option<int>) {
    match sp_uint(i, i32_max()) { Some((r, n)) => (r, Some(n as int)), None => (i, None) }
}

pub open spec fn sp_prime(i: Text) -> (Text, int) {
    if is1(i, '\'') { (i.skip(1), -1) } else { (i, 1) }
}

pub open spec fn or1(n: Option<int>) -> int { match n { Some(k) => k, None => 1 } }

pub open spec fn sp_suffix(i: Text) -> (Text, int) {
    let (r, n) = sp_opt_nat(i);
    let (q, p) = sp_prime(r);
    (q, or1(n) * p)
}

pub open spec fn sp_move(i: Text) -> Option<(Text, SMove)> {
    if is1(i, '/') {
        Some((i.skip(1), SMove { family: "_SLASH_"@, prefix: None, amount: 1 }))
    } else {
        match sp_quantum(i) {
            None => None,
            Some((r, f, p)) =>
                if is2(r, '+', '+') {
                    Some((r.skip(2), SMove { family: f + "_PLUSPLUS_"@, prefix: p, amount: 1 }))
                } else if is2(r, '-', '-') {
                    Some((r.skip(2), SMove { family: f + "_PLUSPLUS_"@, prefix: p, amount: -1 }))
                } else {
                    let (r2, n) = sp_opt_nat(r);
                    if n is Some && is1(r2, '+') {
                        Some((r2.skip(1), SMove { family: f + "_PLUS_"@, prefix: p, amount: n->Some_0 }))
                    } else if n is Some && is1(r2, '-') {
                        Some((r2.skip(1), SMove { family: f + "_PLUS_"@, prefix: p, amount: -n->Some_0 }))
                    } else {
                        let (r3, q) = sp_prime(r2);
                        Some((r3, SMove { family: f, prefix: p, amount: or1(n) * q }))
                    }
                },
        }
    }
}

pub open spec fn after_spaces(i: Text) -> Text
    decreases i.len(),
{
    if is1(i, ' ') { after_spaces(i.skip(1)) } else { i }
}

/// Square-1 tuple, after the opening parenthesis.
pub open spec fn sp_tuple(i: Text) -> Option<(Text, SNode)> {
    match sp_dec(i) {
        None => None,
        Some((r, a)) =>
            if !is2(r, ',', ' ') { None } else {
                match sp_dec(r.skip(2)) {
                    None => None,
                    Some((q, b)) =>
                        if !is1(q, ')') { None } else {
                            Some((q.skip(1), SNode::Group(mk_tuple(a, b), 1)))
                        },
                }
            },
    }
}

pub open spec fn mk_tuple(a: int, b: int) -> SAlg {
    seq![
        SNode::Mv(SMove { family: "U_SQ_"@, prefix: None, amount: a }),
        SNode::Mv(SMove { family: "D_SQ_"@, prefix: None, amount: b }),
    ]
}

pub open spec fn sp_comment(i: Text) -> Option<(Text, Text)> {
    if !is2(i, '/', '/') { None } else {
        let n = run(Cls::Text, i.skip(2)) as int;
        Some((i.skip(2).skip(n), i.skip(2).take(n)))
    }
}

pub type SItems = Seq<(bool, SNode)>;

/// A node that follows another one without whitespace between them.
pub open spec fn bad_at(v: SItems, j: int) -> bool {
    &&& j > 0
    &&& !(v[j].1 is Newline)
    &&& !v[j].0
    &&& !(v[j - 1].1 is Newline)
    &&& !(v[j - 1].1 is Comment)
}

pub open spec fn crowded(v: SItems) -> bool {
    exists|j: int| 0 <= j < v.len() && #[trigger] bad_at(v, j)
}

pub open spec fn nodes_of(v: SItems) -> SAlg {
    Seq::new(v.len(), |j: int| v[j].1)
}

pub open spec fn ws(i: Text) -> bool { is1(i, ' ') || is1(i, '\n') }

/// Nodes, each after any number of spaces; and what is left.
pub open spec fn sp_items(i: Text) -> (Text, SItems)
    decreases i.len(), 4nat,
{
    let j = after_spaces(i);
    if j.len() > i.len() { (i, seq![]) } else {
        match sp_node(j) {
            None => (i, seq![]),
            Some((r, n)) =>
                if r.len() >= i.len() { (i, seq![]) } else {
                    let (q, v) = sp_items(r);
                    (q, seq![(is1(i, ' '), n)] + v)
                },
        }
    }
}

pub open spec fn sp_alg(i: Text) -> Option<(Text, SAlg)>
    decreases i.len(), 5nat,
{
    let (r, v) = sp_items(i);
    let q = after_spaces(r);
    if crowded(v) && !ws(q) { None } else { Some((q, nodes_of(v))) }
}

/// A group, after the opening parenthesis.
pub open spec fn sp_paren(i: Text) -> Option<(Text, SNode)>
    decreases i.len(), 6nat,
{
    match sp_alg(i) {
        None => None,
        Some((r, a)) => if !is1(r, ')') { None } else {
            let (q, k) = sp_suffix(r.skip(1));
            Some((q, SNode::Group(a, k)))
        },
    }
}

pub open spec fn sp_group(i: Text) -> Option<(Text, SNode)>
    decreases i.len(), 2nat,
{
    if !is1(i, '(') { None } else {
        match sp_paren(i.skip(1)) { Some(x) => Some(x), None => sp_tuple(i.skip(1)) }
    }
}

pub open spec fn mk_bracket(comma: bool, a: SAlg, b: SAlg) -> SNode {
    if comma { SNode::Comm(a, b) } else { SNode::Conj(a, b) }
}

pub open spec fn sp_bracket(i: Text) -> Option<(Text, SNode)>
    decreases i.len(), 2nat,
{
    if !is1(i, '[') { None } else {
        match sp_alg(i.skip(1)) {
            None => None,
            Some((r, a)) => if !(is1(r, ',') || is1(r, ':')) || r.len() > i.len() { None } else {
                match sp_alg(r.skip(1)) {
                    None => None,
                    Some((q, b)) => if !is1(q, ']') { None } else {
                        let (t, k) = sp_suffix(q.skip(1));
                        let n = mk_bracket(r[0] == ',', a, b);
                        Some((t, if k == 1 { n } else { SNode::Group(seq![n], k) }))
                    },
                }
            },
        }
    }
}

pub open spec fn sp_node(i: Text) -> Option<(Text, SNode)>
    decreases i.len(), 3nat,
{
    if sp_comment(i) is Some {
        Some((sp_comment(i)->Some_0.0, SNode::Comment(sp_comment(i)->Some_0.1)))
    } else if sp_move(i) is Some {
        Some((sp_move(i)->Some_0.0, SNode::Mv(sp_move(i)->Some_0.1)))
    } else if is1(i, '.') {
        Some((i.skip(1), SNode::Pause))
    } else if is1(i, '\n') {
        Some((i.skip(1), SNode::Newline))
    } else {
        match sp_group(i) { Some(x) => Some(x), None => sp_bracket(i) }
    }
}

// ---------------------------------------------------------------------------
// Printing: the text of each value
// ---------------------------------------------------------------------------

pub open spec fn pr_int(n: int) -> Text {
    if n < 0 { seq!['-'] + dec((-n) as nat) } else { dec(n as nat) }
}

pub open spec fn pr_amount(a: int) -> Text {
    if a == 1 { seq![] } else if a == -1 { seq!['\''] } else if a < 0 { dec((-a) as nat) + seq!['\''] } else { dec(a as nat) }
}

pub open spec fn pr_prefix(p: MovePrefix) -> Text {
    match p {
        MovePrefix::Layer(l) => dec(l.layer as nat),
        MovePrefix::Range(r) => dec(r.outer_layer as nat) + seq!['-'] + dec(r.inner_layer as nat),
    }
}

pub open spec fn pr_quantum(f: Text, p: Option<MovePrefix>) -> Text {
    (match p { Some(q) => pr_prefix(q), None => seq![] }) + f
}

pub open spec fn ends(f: Text, t: Text) -> bool { t.len() <= f.len() && f.skip(f.len() - t.len()) == t }

pub open spec fn base(f: Text, t: Text) -> Text { f.take(f.len() - t.len()) }

pub open spec fn abs(n: int) -> nat { (if n < 0 { -n } else { n }) as nat }

/// Special notation is used only where it denotes exactly this move.
pub open spec fn pr_move(m: SMove) -> Text {
    if s_is(m, "_SLASH_"@) && m.amount == 1 {
        seq!['/']
    } else if ends(m.family, "_PLUS_"@) && base(m.family, "_PLUS_"@).len() > 0 {
        pr_quantum(base(m.family, "_PLUS_"@), m.prefix) + dec(abs(m.amount)) + seq![if m.amount < 0 { '-' } else { '+' }]
    } else if ends(m.family, "_PLUSPLUS_"@) && base(m.family, "_PLUSPLUS_"@).len() > 0 && (m.amount == 1 || m.amount == -1) {
        pr_quantum(base(m.family, "_PLUSPLUS_"@), m.prefix) + (if m.amount < 0 { seq!['-', '-'] } else { seq!['+', '+'] })
    } else {
        pr_quantum(m.family, m.prefix) + pr_amount(m.amount)
    }
}

/// The text between two nodes.
pub open spec fn sep(a: SNode, b: SNode) -> Text {
    if a is Comment { if b is Newline { seq![] } else { seq!['\n'] } }
    else if a is Newline || b is Newline { seq![] }
    else { seq![' '] }
}

/// The text of the nodes from the i-th on, with what separates it from the node before.
pub open spec fn pr_from(s: SAlg, i: int) -> Text
    decreases s, 1nat, s.len() - i,
{
    if i < 0 || i >= s.len() { seq![] } else {
        (if i == 0 { seq![] } else { sep(s[i - 1], s[i]) }) + pr_node(s[i]) + pr_from(s, i + 1)
    }
}

pub open spec fn pr_alg(s: SAlg) -> Text
    decreases s, 2nat, 0int,
{
    pr_from(s, 0)
}

/// An alg in brackets: a comment at its end is closed by a newline.
pub open spec fn pr_in(s: SAlg) -> Text
    decreases s, 3nat, 0int,
{
    pr_alg(s) + (if s.len() > 0 && s.last() is Comment { seq!['\n'] } else { seq![] })
}

pub open spec fn bare(s: SAlg, k: int) -> bool {
    s.len() == 1 && k != 1 && (s[0] is Comm || s[0] is Conj)
}

pub open spec fn pr_tuple(s: SAlg) -> Text {
    seq!['('] + pr_int(s[0]->Mv_0.amount) + seq![',', ' '] + pr_int(s[1]->Mv_0.amount) + seq![')']
}

pub open spec fn pr_node(n: SNode) -> Text
    decreases n, 0nat, 0int,
{
    match n {
        SNode::Mv(m) => pr_move(m),
        SNode::Pause => seq!['.'],
        SNode::Newline => seq!['\n'],
        SNode::Comment(t) => seq!['/', '/'] + t,
        SNode::Group(s, k) =>
            if k == 1 && s_sq1(s) {
                pr_tuple(s)
            } else if bare(s, k) {
                pr_in(s) + pr_amount(k)
            } else {
                seq!['('] + pr_in(s) + seq![')'] + pr_amount(k)
            },
        SNode::Comm(a, b) => seq!['['] + pr_in(a) + seq![',', ' '] + pr_in(b) + seq![']'],
        SNode::Conj(a, b) => seq!['['] + pr_in(a) + seq![':', ' '] + pr_in(b) + seq![']'],
    }
}

@raw
} // verus!
