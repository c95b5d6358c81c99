@raw
/// Stand-in for the parts of nom that appear in signatures.
pub mod nom {
    use super::*;
    verus! {
    pub enum Err<E> { Incomplete, Error(E), Failure(E) }
    }
}
verus! {

// ---------------------------------------------------------------------------
// Parsing
// ---------------------------------------------------------------------------

pub struct VxNomE {}

pub type IResult<I, O> = Result<(I, O), nom::Err<VxNomE>>;

/// No parser fails in a way that stops alternatives from being tried.
pub open spec fn soft<O>(r: IResult<&str, O>) -> bool { r is Err ==> r->Err_0 is Error }

pub fn vx_nom_error() -> (r: nom::Err<VxNomE>)
    ensures
        r is Error,
{
    nom::Err::Error(VxNomE {})
}

pub fn vx_nom_err() -> (r: nom::Err<VxNomE>)
    ensures
        r is Error,
{
    nom::Err::Error(VxNomE {})
}

// Contracts of nom's elementary parsers on complete text.

#[verifier::external_body]
pub fn vx_tag<'a>(t: &'static str, i: &'a str) -> (r: IResult<&'a str, &'a str>)
    ensures
        r is Ok <==> starts(i@, t@),
        r is Ok ==> r->Ok_0.0@ == i@.skip(t@.len() as int) && r->Ok_0.1@ == t@,
        soft(r),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn vx_one_of<'a>(t: &'static str, i: &'a str) -> (r: IResult<&'a str, char>)
    ensures
        r is Ok <==> i@.len() > 0 && t@.contains(i@[0]),
        r is Ok ==> r->Ok_0.0@ == i@.skip(1) && r->Ok_0.1 == i@[0],
        soft(r),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn vx_take_while1<'a, F: Fn(char) -> bool>(f: F, i: &'a str) -> (r: IResult<&'a str, &'a str>)
    requires
        forall|c: char| f.requires((c,)),
    ensures
        r is Ok ==> {
            let n = r->Ok_0.1@.len();
            &&& 0 < n <= i@.len()
            &&& r->Ok_0.1@ == i@.take(n as int)
            &&& r->Ok_0.0@ == i@.skip(n as int)
            &&& forall|k: int| 0 <= k < n ==> f.ensures((#[trigger] i@[k],), true)
            &&& n < i@.len() ==> f.ensures((i@[n as int],), false)
        },
        r is Err ==> i@.len() == 0 || f.ensures((i@[0],), false),
        soft(r),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn vx_take_till<'a, F: Fn(char) -> bool>(f: F, i: &'a str) -> (r: IResult<&'a str, &'a str>)
    requires
        forall|c: char| f.requires((c,)),
    ensures
        r is Ok,
        ({
            let n = r->Ok_0.1@.len();
            &&& n <= i@.len()
            &&& r->Ok_0.1@ == i@.take(n as int)
            &&& r->Ok_0.0@ == i@.skip(n as int)
            &&& forall|k: int| 0 <= k < n ==> f.ensures((#[trigger] i@[k],), false)
            &&& n < i@.len() ==> f.ensures((i@[n as int],), true)
        }),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn vx_str_empty(i: &str) -> (r: bool)
    ensures
        r == (i@.len() == 0),
{
    i.is_empty()
}

/// Length in bytes.
pub open spec fn bytes_len(s: Text) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { char_bytes(s[0]) + bytes_len(s.skip(1)) }
}

pub open spec fn char_bytes(c: char) -> nat {
    let n = c as u32;
    if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 }
}

pub proof fn lemma_bytes_len(s: Text, k: int)
    requires
        0 < k <= s.len(),
    ensures
        bytes_len(s.skip(k)) < bytes_len(s),
    decreases k,
{
    if k > 1 {
        lemma_bytes_len(s.skip(1), k - 1);
        assert(s.skip(1).skip(k - 1) =~= s.skip(k));
    }
}

pub proof fn lemma_shorter(r: Text, i: Text)
    requires
        suf(r, i),
        r.len() < i.len(),
    ensures
        bytes_len(r) != bytes_len(i),
{
    lemma_bytes_len(i, i.len() - r.len());
}

#[verifier::external_body]
pub fn vx_str_len(i: &str) -> (r: usize)
    ensures
        r == bytes_len(i@),
{
    i.len()
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);

#[verifier::external_body]
pub fn vx_parse_u32(s: &str) -> (r: Result<u32, std::num::ParseIntError>)
    ensures
        digits(s@) ==> (r is Ok <==> s@.len() > 0 && dec_val(s@) <= u32_max()),
        digits(s@) && r is Ok ==> r->Ok_0 == dec_val(s@),
{
    s.parse::<u32>()
}

#[verifier::external_body]
pub fn vx_parse_i32(s: &str) -> (r: Result<i32, std::num::ParseIntError>)
    ensures
        digits(s@) ==> (r is Ok <==> s@.len() > 0 && dec_val(s@) <= i32_max()),
        digits(s@) && r is Ok ==> r->Ok_0 == dec_val(s@),
{
    s.parse::<i32>()
}

pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool)
    ensures
        r == is_digit(*c),
;

pub assume_specification[ char::is_ascii_alphabetic ](c: &char) -> (r: bool)
    ensures
        r == ('a' <= *c <= 'z' || 'A' <= *c <= 'Z'),
;

/// What `tag` of one or two characters accepts.
pub proof fn lemma_tags()
    ensures
        forall|i: Text, t: Text| t.len() == 1 ==> #[trigger] starts(i, t) == is1(i, t[0]),
        forall|i: Text, t: Text| t.len() == 2 ==> #[trigger] starts(i, t) == is2(i, t[0], t[1]),
{
    assert forall|i: Text, t: Text| t.len() == 1 implies #[trigger] starts(i, t) == is1(i, t[0]) by {
        if is1(i, t[0]) { assert(i.take(1) =~= t); }
        if starts(i, t) { assert(i.take(1)[0] == t[0]); }
    }
    assert forall|i: Text, t: Text| t.len() == 2 implies #[trigger] starts(i, t) == is2(i, t[0], t[1]) by {
        if is2(i, t[0], t[1]) { assert(i.take(2) =~= t); }
        if starts(i, t) { assert(i.take(2)[0] == t[0]); assert(i.take(2)[1] == t[1]); }
    }
}

pub open spec fn run_of(k: Cls, i: Text, n: int) -> bool {
    &&& 0 <= n <= i.len()
    &&& forall|j: int| 0 <= j < n ==> in_cls(k, #[trigger] i[j])
    &&& n < i.len() ==> !in_cls(k, i[n])
}

/// The longest run of a class is unique.
pub proof fn lemma_runs(k: Cls)
    ensures
        forall|i: Text, n: int| run_of(k, i, n) && (#[trigger] i.skip(n)).len() >= 0 ==> run(k, i) == n,
        forall|i: Text, n: int| run_of(k, i, n) && k is Digit && (#[trigger] i.take(n)).len() >= 0 ==> digits(i.take(n)),
        forall|i: Text| #[trigger] run(k, i) > 0 <==> i.len() > 0 && in_cls(k, i[0]),
        forall|i: Text, j: int| 0 <= j < run(k, i) ==> in_cls(k, #[trigger] i[j]),
        forall|i: Text| #[trigger] run(k, i) <= i.len(),
{
    assert forall|i: Text, n: int| run_of(k, i, n) && (#[trigger] i.skip(n)).len() >= 0 implies run(k, i) == n by {
        lemma_run_is(k, i, n as nat);
    }
    assert forall|i: Text, n: int| run_of(k, i, n) && k is Digit && (#[trigger] i.take(n)).len() >= 0 implies digits(i.take(n)) by {
        assert forall|j: int| 0 <= j < n implies is_digit(#[trigger] i.take(n)[j]) by { assert(in_cls(k, i[j])); }
    }
    assert forall|i: Text, j: int| 0 <= j < run(k, i) implies in_cls(k, #[trigger] i[j]) by { lemma_run(k, i); }
    assert forall|i: Text| #[trigger] run(k, i) <= i.len() by { lemma_run(k, i); }
}

@fn cubing_core/src/alg/parse.rs from_decimal_unsigned
%spec
    ensures
        digits($p0@) ==> (r is Ok <==> $p0@.len() > 0 && dec_val($p0@) <= u32_max()),
        digits($p0@) && r is Ok ==> r->Ok_0 == dec_val($p0@),

@fn cubing_core/src/alg/parse.rs from_natural_number_signed
%spec
    ensures
        digits($p0@) ==> (r is Ok <==> $p0@.len() > 0 && dec_val($p0@) <= i32_max()),
        digits($p0@) && r is Ok ==> r->Ok_0 == dec_val($p0@),

@fn cubing_core/src/alg/parse.rs is_decimal_digit
%spec
    ensures
        r == is_digit($p0),

@fn cubing_core/src/alg/parse.rs parse_decimal_unsigned
%spec
    ensures
        soft(r),
        r is Ok <==> sp_uint($p0@, u32_max()) is Some,
        r is Ok ==> (r->Ok_0.0@, r->Ok_0.1 as nat) == sp_uint($p0@, u32_max())->Some_0,
%hint start
    proof { lemma_runs(Cls::Digit); }

@fn cubing_core/src/alg/parse.rs parse_natural_number_signed
%spec
    ensures
        soft(r),
        r is Ok <==> sp_uint($p0@, i32_max()) is Some,
        r is Ok ==> r->Ok_0.1 >= 0,
        r is Ok ==> (r->Ok_0.0@, r->Ok_0.1 as nat) == sp_uint($p0@, i32_max())->Some_0,
%hint start
    proof { lemma_runs(Cls::Digit); }

@fn cubing_core/src/alg/parse.rs parse_negative_decimal_signed
%spec
    ensures
        soft(r),
        r is Ok <==> sp_neg($p0@) is Some,
        r is Ok ==> (r->Ok_0.0@, r->Ok_0.1 as int) == sp_neg($p0@)->Some_0,
%hint start
    proof { lemma_texts(); lemma_tags(); }

@fn cubing_core/src/alg/parse.rs decimal_signed
%spec
    ensures
        soft(r),
        r is Ok <==> sp_dec($p0@) is Some,
        r is Ok ==> (r->Ok_0.0@, r->Ok_0.1 as int) == sp_dec($p0@)->Some_0,

@fn cubing_core/src/alg/parse.rs parse_move_prefix
%spec
    ensures
        soft(r),
        r is Ok <==> sp_prefix($p0@) is Some,
        r is Ok ==> (r->Ok_0.0@, r->Ok_0.1) == sp_prefix($p0@)->Some_0,
%hint start
    proof { lemma_texts(); lemma_tags(); }

@fn cubing_core/src/alg/parse.rs is_family_char
%spec
    ensures
        r == is_fam($p0),

@fn cubing_core/src/alg/parse.rs parse_family
%spec
    ensures
        soft(r),
        r is Ok <==> sp_family($p0@) is Some,
        r is Ok ==> (r->Ok_0.0@, r->Ok_0.1@) == sp_family($p0@)->Some_0,
%hint start
    proof { lemma_runs(Cls::Fam); }

@fn cubing_core/src/alg/parse.rs parse_quantum_move
%spec
    ensures
        soft(r),
        r is Ok <==> sp_quantum($p0@) is Some,
        r is Ok ==> (r->Ok_0.0@, r->Ok_0.1.family@, r->Ok_0.1.prefix) == sp_quantum($p0@)->Some_0,

@fn cubing_core/src/alg/parse.rs parse_optional_positive_amount_number
%spec
    ensures
        r is Ok,
        r->Ok_0.0@ == sp_opt_nat($p0@).0,
        r->Ok_0.1 is Some <==> sp_opt_nat($p0@).1 is Some,
        r->Ok_0.1 is Some ==> r->Ok_0.1->Some_0 >= 0 && r->Ok_0.1->Some_0 == sp_opt_nat($p0@).1->Some_0,

@fn cubing_core/src/alg/parse.rs parse_optional_prime
%spec
    ensures
        r is Ok,
        (r->Ok_0.0@, r->Ok_0.1 as int) == sp_prime($p0@),
%hint start
    proof { lemma_texts(); lemma_tags(); }

@fn cubing_core/src/alg/parse.rs parse_optional_amount_suffix
%spec
    ensures
        r is Ok,
        (r->Ok_0.0@, r->Ok_0.1 as int) == sp_suffix($p0@),
        neg_ok(r->Ok_0.1),
%hint start
    proof {
        assert forall|a: int, b: int| b == 1 || b == -1 implies #[trigger] (a * b) == (if b == 1 { a } else { -a }) by {
            assert(a * 1 == a && a * -1 == -a) by (nonlinear_arith);
        }
    }

@item cubing_core/src/alg/move.rs const _PLUS_
@item cubing_core/src/alg/move.rs const _PLUSPLUS_
@item cubing_core/src/alg/parse.rs enum PochmannStringSuffix
@item cubing_core/src/alg/parse.rs enum ClockSuffix
@raw
pub open spec fn poch(p: PochmannStringSuffix) -> int { if p is PlusPlus { 1 } else { -1 } }

pub open spec fn clock(p: ClockSuffix) -> int { if p is Plus { 1 } else { -1 } }

pub axiom fn axiom_str_ext()
    ensures
        forall|a: &str, b: &str| #[trigger] a@ == #[trigger] b@ ==> a == b,
;

@fn cubing_core/src/alg/parse.rs PochmannStringSuffix::amount
%spec
    ensures
        r == poch(*self),

@fn cubing_core/src/alg/parse.rs PochmannStringSuffix::add_internal_suffix
%opt display
%spec
    ensures
        r.family@ == $p0.family@ + "_PLUSPLUS_"@,
        r.prefix == $p0.prefix,
%hint start
    proof { lemma_cat_all(); }

@fn cubing_core/src/alg/parse.rs ClockSuffix::amount
%spec
    ensures
        r == clock(*self),

@fn cubing_core/src/alg/parse.rs ClockSuffix::add_internal_suffix
%opt display
%spec
    ensures
        r.family@ == $p0.family@ + "_PLUS_"@,
        r.prefix == $p0.prefix,
%hint start
    proof { lemma_cat_all(); }

@fn cubing_core/src/alg/parse.rs parse_pochmann_megaminx_suffix
%spec
    ensures
        soft(r),
        r is Ok <==> is2($p0@, '+', '+') || is2($p0@, '-', '-'),
        r is Ok ==> r->Ok_0.0@ == $p0@.skip(2) && poch(r->Ok_0.1) == (if $p0@[0] == '+' { 1int } else { -1 }),
%hint start
    proof { lemma_texts(); lemma_tags(); axiom_str_ext(); }

@fn cubing_core/src/alg/parse.rs parse_clock_suffix
%spec
    ensures
        soft(r),
        r is Ok <==> is1($p0@, '+') || is1($p0@, '-'),
        r is Ok ==> r->Ok_0.0@ == $p0@.skip(1) && clock(r->Ok_0.1) == (if $p0@[0] == '+' { 1int } else { -1 }),
%hint start
    proof { lemma_texts(); lemma_tags(); axiom_str_ext(); }

@fn cubing_core/src/alg/parse.rs parse_slash
%spec
    ensures
        soft(r),
        r is Ok <==> is1($p0@, '/'),
        r is Ok ==> r->Ok_0.0@ == $p0@.skip(1),
%hint start
    proof { lemma_texts(); lemma_tags(); }

@fn cubing_core/src/alg/parse.rs parse_move
%spec
    ensures
        soft(r),
        r is Ok <==> sp_move($p0@) is Some,
        r is Ok ==> (r->Ok_0.0@, smove(r->Ok_0.1)) == sp_move($p0@)->Some_0,
        r is Ok ==> neg_ok(r->Ok_0.1.amount),
%hint start
    proof {
        axiom_arc_from::<QuantumMove>();
        assert forall|a: int, b: int| b == 1 || b == -1 implies #[trigger] (a * b) == (if b == 1 { a } else { -a }) by {
            assert(a * 1 == a && a * -1 == -a) by (nonlinear_arith);
        }
        assert forall|a: int, b: int| a == 1 || a == -1 implies #[trigger] (a * b) == (if a == 1 { b } else { -b }) by {
            assert(1 * b == b && -1 * b == -b) by (nonlinear_arith);
        }
    }


@item cubing_core/src/alg/parse.rs struct AlgParseError
@raw
impl FromSpecImpl<&str> for AlgParseError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(d: &str) -> AlgParseError { arbitrary() }
}

/// `str::contains` with a character.
#[verifier::external_body]
pub fn vx_str_contains(s: &str, c: char) -> (r: bool)
    ensures
        r == s@.contains(c),
{
    s.contains(c)
}

@fn cubing_core/src/alg/parse.rs <AlgParseError as From<&str>>::from

@fn cubing_core/src/alg/line_comment.rs LineComment::try_new
%opt call contains vx_str_contains
%spec
    ensures
        r is Ok <==> !s@.contains('\n'),
        r is Ok ==> r->Ok_0.text@ == s@,

@fn cubing_core/src/alg/line_comment.rs LineComment::text
%spec
    ensures
        r@ == self.text@,

@fn cubing_core/src/alg/parse.rs <QuantumMove as FromStr>::from_str
%opt inherent
%opt sub Self::Err => AlgParseError
%spec
    ensures
        r is Ok <==> parse_quantum_text($p0@) is Some,
        r is Ok ==> (r->Ok_0.family@, r->Ok_0.prefix) == parse_quantum_text($p0@)->Some_0,

@fn cubing_core/src/alg/parse.rs <QuantumMove as TryFrom<&str>>::try_from
%opt inherent
%opt sub Self::Error => AlgParseError
%spec
    ensures
        r is Ok <==> parse_quantum_text($p0@) is Some,
        r is Ok ==> (r->Ok_0.family@, r->Ok_0.prefix) == parse_quantum_text($p0@)->Some_0,

@fn cubing_core/src/alg/parse.rs <Move as FromStr>::from_str
%opt inherent
%opt sub Self::Err => AlgParseError
%spec
    ensures
        r is Ok <==> parse_move_text($p0@) is Some,
        r is Ok ==> smove(r->Ok_0) == parse_move_text($p0@)->Some_0,
        r is Ok ==> neg_ok(r->Ok_0.amount),

@fn cubing_core/src/alg/parse.rs <Move as TryFrom<&str>>::try_from
%opt inherent
%opt sub Self::Error => AlgParseError
%spec
    ensures
        r is Ok <==> parse_move_text($p0@) is Some,
        r is Ok ==> smove(r->Ok_0) == parse_move_text($p0@)->Some_0,
        r is Ok ==> neg_ok(r->Ok_0.amount),

@fn cubing_core/src/alg/parse.rs parse_potential_spaces
%spec
    ensures
        r is Ok,
        r->Ok_0.0@ == after_spaces($p0@),
        r->Ok_0.1 == is1($p0@, ' '),
%hint start
    let ghost i0 = $p0@;
    proof { lemma_texts(); lemma_tags(); }
%many 0
    invariant
        vx_fail0 is None ==> is1(i0, ' '),
        vx_fail0 is None ==> suf(vx_in0@, i0),
        vx_fail0 is None ==> after_spaces(vx_in0@) == after_spaces(i0),
        vx_fail0 is Some ==> vx_fail0->Some_0 is Error && !vx_more0 && !is1(i0, ' '),
        !vx_more0 && vx_fail0 is None ==> !is1(vx_in0@, ' '),
    decreases vx_in0@.len(), (if vx_more0 { 1nat } else { 0nat }),
---
    proof {
        lemma_texts();
        lemma_tags();
        if vx_c0.len() > 0 {
            lemma_suf(vx_c0, 1);
            lemma_suf_trans(vx_c0.skip(1), vx_c0, i0);
            lemma_shorter(vx_c0.skip(1), vx_c0);
        }
    }
---
%alt
%hint start
    let ghost i0 = $p0@;
    proof { lemma_texts(); lemma_tags(); assert(i0.skip(0) =~= i0); }
%many 0
    invariant
        vx_fail0 is None,
        vx_acc0@.len() > 0 ==> is1(i0, ' '),
        vx_acc0@.len() == 0 ==> vx_in0@ == i0,
        suf(vx_in0@, i0),
        after_spaces(vx_in0@) == after_spaces(i0),
        !vx_more0 ==> !is1(vx_in0@, ' '),
    decreases vx_in0@.len(), (if vx_more0 { 1nat } else { 0nat }),
---
    proof {
        lemma_texts();
        lemma_tags();
        if vx_c0.len() > 0 {
            lemma_suf(vx_c0, 1);
            lemma_suf_trans(vx_c0.skip(1), vx_c0, i0);
            lemma_shorter(vx_c0.skip(1), vx_c0);
        }
    }
---

@fn cubing_core/src/alg/parse.rs parse_pause
%spec
    ensures
        soft(r),
        r is Ok <==> is1($p0@, '.'),
        r is Ok ==> r->Ok_0.0@ == $p0@.skip(1),
%hint start
    proof { lemma_texts(); lemma_tags(); }

@fn cubing_core/src/alg/parse.rs parse_newline
%spec
    ensures
        soft(r),
        r is Ok <==> is1($p0@, '\n'),
        r is Ok ==> r->Ok_0.0@ == $p0@.skip(1),
%hint start
    proof { lemma_texts(); lemma_tags(); }

@fn cubing_core/src/alg/parse.rs parse_line_comment
%spec
    ensures
        soft(r),
        r is Ok <==> sp_comment($p0@) is Some,
        r is Ok ==> (r->Ok_0.0@, r->Ok_0.1.text@) == sp_comment($p0@)->Some_0,
%hint start
    proof { lemma_texts(); lemma_tags(); lemma_runs(Cls::Text); }
%closure 0
|$c0_0: char| -> (vx_q: bool)
    ensures
        vx_q == ($c0_0 == '\n'),

@raw
/// The blanket `From<T> for T`.
pub axiom fn axiom_into_self()
    ensures
        <Grouping as FromSpec<Grouping>>::obeys_from_spec(),
        forall|t: Grouping| #[trigger] <Grouping as FromSpec<Grouping>>::from_spec(t) == t,
        <AlgNode as FromSpec<AlgNode>>::obeys_from_spec(),
        forall|t: AlgNode| #[trigger] <AlgNode as FromSpec<AlgNode>>::from_spec(t) == t,
;

pub open spec fn items_of(v: Seq<(bool, AlgNode)>) -> SItems {
    Seq::new(v.len(), |j: int| (v[j].0, s_of(v[j].1)))
}

pub open spec fn oks(v: Seq<(bool, AlgNode)>) -> bool {
    forall|j: int| 0 <= j < v.len() ==> node_ok(gnode((#[trigger] v[j]).1))
}

pub proof fn lemma_kinds()
    ensures
        forall|n: AlgNode| #[trigger] s_of(n) is Newline <==> n is NewlineNode,
        forall|n: AlgNode| #[trigger] s_of(n) is Comment <==> n is LineCommentNode,
{
}

pub proof fn lemma_choices()
    ensures
        forall|c: char| #[trigger] " \n"@.contains(c) <==> c == ' ' || c == '\n',
        forall|c: char| #[trigger] ",:"@.contains(c) <==> c == ',' || c == ':',
{
    reveal_strlit(" \n");
    reveal_strlit(",:");
    assert(" \n"@ =~= seq![' ', '\n']);
    assert(",:"@ =~= seq![',', ':']);
    assert(seq![' ', '\n'][0] == ' ' && seq![' ', '\n'][1] == '\n');
    assert(seq![',', ':'][0] == ',' && seq![',', ':'][1] == ':');
}

/// An alg made of exactly these nodes.
pub open spec fn made_of(a: Alg, v: Seq<(bool, AlgNode)>) -> bool {
    a.nodes@.len() == v.len() && (forall|i: int| 0 <= i < v.len() ==> #[trigger] a.nodes@[i] == v[i].1)
}

/// The parsed nodes, as an alg.
pub proof fn lemma_collected(v: Seq<(bool, AlgNode)>)
    requires
        oks(v),
    ensures
        forall|a: Alg| made_of(a, v) ==> salg(#[trigger] galg(a)) == nodes_of(items_of(v)) && alg_ok(galg(a)),
{
    assert forall|a: Alg| made_of(a, v) implies salg(#[trigger] galg(a)) == nodes_of(items_of(v)) && alg_ok(galg(a)) by {
        lemma_sa(&a);
        lemma_galg(&a);
        assert forall|i: int| 0 <= i < v.len() implies #[trigger] sa_of(a)[i] == nodes_of(items_of(v))[i] by { assert(a.nodes@[i] == v[i].1); }
        assert(sa_of(a) =~= nodes_of(items_of(v)));
        assert forall|i: int| 0 <= i < galg(a).len() implies node_ok(#[trigger] galg(a)[i]) by {
            assert(galg(a)[i] == gnode(a.nodes@[i]));
            assert(node_ok(gnode(v[i].1)));
        }
    }
}

/// What one more node does to the remaining items.
pub proof fn lemma_items_step(i: Text)
    ensures
        ({
            let j = after_spaces(i);
            &&& suf(j, i)
            &&& sp_node(j) is None ==> sp_items(i) == (i, Seq::<(bool, SNode)>::empty())
            &&& sp_node(j) is Some ==> {
                let (r, n) = sp_node(j)->Some_0;
                &&& suf(r, i)
                &&& r.len() < i.len()
                &&& bytes_len(r) != bytes_len(i)
                &&& sp_items(i) == (sp_items(r).0, seq![(is1(i, ' '), n)] + sp_items(r).1)
            }
        }),
{
    let j = after_spaces(i);
    lemma_after_spaces(i);
    lemma_after_suf(i);
    lemma_node_progress(j);
    if sp_node(j) is Some {
        let r = sp_node(j)->Some_0.0;
        lemma_suf_trans(r, j, i);
        lemma_shorter(r, i);
    }
}

pub proof fn lemma_items_push(v: Seq<(bool, AlgNode)>, w: Seq<(bool, AlgNode)>, t: SItems)
    requires
        w.len() == v.len() + 1,
        w.drop_last() == v,
    ensures
        items_of(w) + t == items_of(v) + (seq![(w.last().0, s_of(w.last().1))] + t),
        oks(v) && node_ok(gnode(w.last().1)) ==> oks(w),
{
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] w[i] == v[i] by { assert(w.drop_last()[i] == v[i]); }
    assert(items_of(w) + t =~= items_of(v) + (seq![(w.last().0, s_of(w.last().1))] + t));
    if oks(v) && node_ok(gnode(w.last().1)) {
        assert forall|j: int| 0 <= j < w.len() implies node_ok(gnode((#[trigger] w[j]).1)) by { if j < v.len() { assert(node_ok(gnode(v[j].1))); } }
    }
}

pub open spec fn good_node(r: IResult<&str, AlgNode>, s: Option<(Text, SNode)>) -> bool {
    &&& soft(r)
    &&& r is Ok <==> s is Some
    &&& r is Ok ==> (r->Ok_0.0@, s_of(r->Ok_0.1)) == s->Some_0 && node_ok(gnode(r->Ok_0.1))
}

pub open spec fn good_group(r: IResult<&str, Grouping>, s: Option<(Text, SNode)>) -> bool {
    &&& soft(r)
    &&& r is Ok <==> s is Some
    &&& r is Ok ==> (r->Ok_0.0@, s_of(AlgNode::GroupingNode(r->Ok_0.1))) == s->Some_0 && node_ok(gnode(AlgNode::GroupingNode(r->Ok_0.1)))
}

@raw
pub open spec fn is_pair(a: Alg) -> bool {
    &&& a.nodes@.len() == 2
    &&& a.nodes@[0] is MoveNode
    &&& a.nodes@[1] is MoveNode
    &&& is_quantum(*a.nodes@[0]->MoveNode_0.quantum, "U_SQ_"@)
    &&& is_quantum(*a.nodes@[1]->MoveNode_0.quantum, "D_SQ_"@)
}

pub proof fn lemma_parts()
    ensures
        forall|g: Grouping| #[trigger] gnode(AlgNode::GroupingNode(g)) == GNode::Group(galg(*g.alg), g.amount),
        forall|g: Commutator| #[trigger] gnode(AlgNode::CommutatorNode(g)) == GNode::Comm(galg(*g.a), galg(*g.b)),
        forall|g: Conjugate| #[trigger] gnode(AlgNode::ConjugateNode(g)) == GNode::Conj(galg(*g.a), galg(*g.b)),
        forall|s: GAlg, k: i32| #[trigger] snode(GNode::Group(s, k)) == SNode::Group(salg(s), k as int),
        forall|s: GAlg, k: i32| #[trigger] node_ok(GNode::Group(s, k)) == (neg_ok(k) && alg_ok(s)),
{
}

pub proof fn lemma_pair_alg()
    ensures
        forall|a: Alg| is_pair(a) ==> {
            let (x, y) = (a.nodes@[0]->MoveNode_0.amount, a.nodes@[1]->MoveNode_0.amount);
            &&& salg(#[trigger] galg(a)) == mk_tuple(x as int, y as int)
            &&& neg_ok(x) && neg_ok(y) ==> alg_ok(galg(a))
        },
{
    assert forall|a: Alg| is_pair(a) implies {
            let (x, y) = (a.nodes@[0]->MoveNode_0.amount, a.nodes@[1]->MoveNode_0.amount);
            &&& salg(#[trigger] galg(a)) == mk_tuple(x as int, y as int)
            &&& neg_ok(x) && neg_ok(y) ==> alg_ok(galg(a))
        } by {
        lemma_sa(&a);
        lemma_galg(&a);
        let (x, y) = (a.nodes@[0]->MoveNode_0.amount, a.nodes@[1]->MoveNode_0.amount);
        assert(sa_of(a) =~= mk_tuple(x as int, y as int));
    }
}

pub proof fn lemma_one_alg()
    ensures
        forall|a: Alg| a.nodes@.len() == 1 ==> salg(#[trigger] galg(a)) == seq![s_of(a.nodes@[0])],
        forall|a: Alg| a.nodes@.len() == 1 && node_ok(gnode(a.nodes@[0])) ==> alg_ok(#[trigger] galg(a)),
{
    assert forall|a: Alg| a.nodes@.len() == 1 implies salg(#[trigger] galg(a)) == seq![s_of(a.nodes@[0])] by {
        lemma_sa(&a);
        assert(sa_of(a) =~= seq![s_of(a.nodes@[0])]);
    }
    assert forall|a: Alg| a.nodes@.len() == 1 && node_ok(gnode(a.nodes@[0])) implies alg_ok(#[trigger] galg(a)) by { lemma_galg(&a); }
}

@fn cubing_core/src/alg/parse.rs parse_alg
%opt call map vx_map
%opt call collect vx_collect
%attr
#[verifier::loop_isolation(false)] #[verifier::spinoff_prover]
%spec
    ensures
        soft(r),
        r is Ok <==> sp_alg($p0@) is Some,
        r is Ok ==> (r->Ok_0.0@, sa_of(r->Ok_0.1)) == sp_alg($p0@)->Some_0,
        r is Ok ==> alg_ok(galg(r->Ok_0.1)),
    decreases
        $p0@.len(), 5nat,
%hint start
    let ghost i0 = $p0@;
    let ghost q0 = after_spaces(sp_items(i0).0);
    proof { lemma_kinds(); lemma_choices(); assert(i0.skip(0) =~= i0); }
%many 0
    invariant
        vx_fail0 is None,
        suf(vx_in0@, i0),
        oks(vx_acc0@),
        vx_more0 ==> sp_items(i0) == (sp_items(vx_in0@).0, items_of(vx_acc0@) + sp_items(vx_in0@).1),
        !vx_more0 ==> sp_items(i0) == (vx_in0@, items_of(vx_acc0@)),
    decreases vx_in0@.len(), (if vx_more0 { 1nat } else { 0nat }),
---
    proof {
        lemma_items_step(vx_c0);
        if sp_node(after_spaces(vx_c0)) is Some { lemma_suf_trans(sp_node(after_spaces(vx_c0))->Some_0.0, vx_c0, i0); }
    }
---
    proof {
        if vx_more0 { assert(vx_acc0@.drop_last() =~= vx_b0); lemma_items_push(vx_b0, vx_acc0@, sp_items(vx_in0@).1); }
        else { assert(items_of(vx_acc0@) + Seq::<(bool, SNode)>::empty() =~= items_of(vx_acc0@)); }
    }
%loop 0 it
    invariant
        it.seq().len() == $let{many0@1}@.len(),
        forall|i: int| 0 <= i < $let{many0@1}@.len() ==> *(#[trigger] it.seq()[i]) == $let{many0@1}@[i],
        $let{None} is Some <==> it.index@ > 0,
        $let{None} is Some ==> *$let{None}->Some_0 == $let{many0@1}@[it.index@ - 1].1,
        forall|j: int| 0 <= j < it.index@ && #[trigger] bad_at(items_of($let{many0@1}@), j) ==> ws(q0),
%hint loopstart 0
    proof {
        let k = it.index@;
        let v = $let{many0@1}@;
        assert(*$for0 == v[k]);
        assert(items_of(v)[k] == (v[k].0, s_of(v[k].1)));
        if k > 0 { assert(items_of(v)[k - 1] == (v[k - 1].0, s_of(v[k - 1].1))); }
        assert(bad_at(items_of(v), k) ==> crowded(items_of(v)));
    }
%hint after 0
    proof { lemma_collected($let{many0@1}@); }
%hint tail
    proof {
        let v = $let{many0@1}@;
        let w = $let{into_iter}@;
        assert(w.len() == v.len());
        assert forall|i: int| 0 <= i < v.len() implies #[trigger] w[i] == v[i].1 by { assert(v[i] == v[i]); }
    }
%closure 0
|$c0_0: (bool, AlgNode)| -> (vx_q: AlgNode)
    ensures
        vx_q == $c0_0.1,
%alt
%hint start
    let ghost i0 = $p0@;
    let ghost q0 = after_spaces(sp_items(i0).0);
    proof { lemma_kinds(); lemma_choices(); assert(i0.skip(0) =~= i0); }
%many 0
    invariant
        vx_fail0 is None,
        suf(vx_in0@, i0),
        oks(vx_acc0@),
        vx_more0 ==> sp_items(i0) == (sp_items(vx_in0@).0, items_of(vx_acc0@) + sp_items(vx_in0@).1),
        !vx_more0 ==> sp_items(i0) == (vx_in0@, items_of(vx_acc0@)),
    decreases vx_in0@.len(), (if vx_more0 { 1nat } else { 0nat }),
---
    proof {
        lemma_items_step(vx_c0);
        if sp_node(after_spaces(vx_c0)) is Some { lemma_suf_trans(sp_node(after_spaces(vx_c0))->Some_0.0, vx_c0, i0); }
    }
---
    proof {
        if vx_more0 { assert(vx_acc0@.drop_last() =~= vx_b0); lemma_items_push(vx_b0, vx_acc0@, sp_items(vx_in0@).1); }
        else { assert(items_of(vx_acc0@) + Seq::<(bool, SNode)>::empty() =~= items_of(vx_acc0@)); }
    }
%hint before 0
    let ghost vx_v = $let{many0@1}@;
%loop 0 it
    invariant
        it.seq() == vx_v,
        $let{vec![] or Vec::new() or Vec::with_capacity(}@.len() == it.index@,
        forall|i: int| 0 <= i < it.index@ ==> #[trigger] $let{vec![] or Vec::new() or Vec::with_capacity(}@[i] == vx_v[i].1,
        forall|j: int| 0 <= j < it.index@ && #[trigger] bad_at(items_of(vx_v), j) ==> ws(q0),
%hint loopstart 0
    proof {
        let k = it.index@;
        let v = vx_v;
        assert(items_of(v)[k] == (v[k].0, s_of(v[k].1)));
        if k > 0 { assert(items_of(v)[k - 1] == (v[k - 1].0, s_of(v[k - 1].1))); }
        assert(bad_at(items_of(v), k) ==> crowded(items_of(v)));
    }
%hint after 0
    proof { lemma_collected(vx_v); }
%hint tail
    proof {
        let v = vx_v;
        let w = $let{vec![] or Vec::new() or Vec::with_capacity(}@;
        assert(w.len() == v.len());
        assert forall|i: int| 0 <= i < v.len() implies #[trigger] w[i] == v[i].1 by { assert(v[i] == v[i]); }
    }

@fn cubing_core/src/alg/parse.rs parse_grouping_rest
%spec
    ensures
        good_group(r, sp_paren($p0@)),
    decreases
        $p0@.len(), 6nat,
%hint start
    proof { lemma_texts(); lemma_tags(); axiom_arc_from::<Alg>(); }

@fn cubing_core/src/alg/parse.rs parse_square1_tuple_rest
%spec
    ensures
        good_group(r, sp_tuple($p0@)),
%hint start
    proof { lemma_texts(); lemma_tags(); axiom_arc_from::<Alg>(); lemma_pair_alg(); lemma_parts(); }

@fn cubing_core/src/alg/parse.rs parse_grouping
%spec
    ensures
        good_group(r, sp_group($p0@)),
    decreases
        $p0@.len(), 2nat,
%hint start
    proof { lemma_texts(); lemma_tags(); axiom_into_self(); }

@fn cubing_core/src/alg/parse.rs parse_commutator_or_conjugate
%spec
    ensures
        good_node(r, sp_bracket($p0@)),
    decreases
        $p0@.len(), 2nat,
%hint start
    proof { lemma_texts(); lemma_tags(); lemma_choices(); axiom_arc_from::<Alg>(); lemma_one_alg(); lemma_parts(); lemma_alg_progress($p0@.skip(1)); }

@fn cubing_core/src/alg/parse.rs parse_node
%spec
    ensures
        good_node(r, sp_node($p0@)),
    decreases
        $p0@.len(), 3nat,
%hint start
    proof { axiom_into_self(); }

@fn cubing_core/src/alg/parse.rs <Alg as FromStr>::from_str
%opt inherent
%opt sub Self::Err => AlgParseError
%spec
    ensures
        r is Ok <==> parse_alg_text($p0@) is Some,
        r is Ok ==> sa_of(r->Ok_0) == parse_alg_text($p0@)->Some_0,
        r is Ok ==> alg_ok(galg(r->Ok_0)),

@fn cubing_core/src/alg/parse.rs <Alg as TryFrom<&str>>::try_from
%opt inherent
%opt sub Self::Error => AlgParseError
%spec
    ensures
        r is Ok <==> parse_alg_text($p0@) is Some,
        r is Ok ==> sa_of(r->Ok_0) == parse_alg_text($p0@)->Some_0,
        r is Ok ==> alg_ok(galg(r->Ok_0)),

@raw
} // verus!
