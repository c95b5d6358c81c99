@raw
verus! {

// ---------------------------------------------------------------------------
// Display
// ---------------------------------------------------------------------------

pub proof fn lemma_texts()
    ensures
        ""@ == Seq::<char>::empty(),
        "/"@ == seq!['/'],
        "//"@ == seq!['/', '/'],
        "+"@ == seq!['+'],
        "-"@ == seq!['-'],
        "++"@ == seq!['+', '+'],
        "--"@ == seq!['-', '-'],
        "'"@ == seq!['\''],
        "."@ == seq!['.'],
        "\n"@ == seq!['\n'],
        " "@ == seq![' '],
        "("@ == seq!['('],
        ")"@ == seq![')'],
        "["@ == seq!['['],
        "]"@ == seq![']'],
        ", "@ == seq![',', ' '],
        ": "@ == seq![':', ' '],
{
    reveal_strlit("");
    reveal_strlit("/");
    reveal_strlit("//");
    reveal_strlit("+");
    reveal_strlit("-");
    reveal_strlit("++");
    reveal_strlit("--");
    reveal_strlit("'");
    reveal_strlit(".");
    reveal_strlit("\n");
    reveal_strlit(" ");
    reveal_strlit("(");
    reveal_strlit(")");
    reveal_strlit("[");
    reveal_strlit("]");
    reveal_strlit(", ");
    reveal_strlit(": ");
    assert(""@ =~= Seq::<char>::empty());
    assert("/"@ =~= seq!['/']);
    assert("//"@ =~= seq!['/', '/']);
    assert("+"@ =~= seq!['+']);
    assert("-"@ =~= seq!['-']);
    assert("++"@ =~= seq!['+', '+']);
    assert("--"@ =~= seq!['-', '-']);
    assert("'"@ =~= seq!['\'']);
    assert("."@ =~= seq!['.']);
    assert("\n"@ =~= seq!['\n']);
    assert(" "@ =~= seq![' ']);
    assert("("@ =~= seq!['(']);
    assert(")"@ =~= seq![')']);
    assert("["@ =~= seq!['[']);
    assert("]"@ =~= seq![']']);
    assert(", "@ =~= seq![',', ' ']);
    assert(": "@ =~= seq![':', ' ']);
}

pub proof fn lemma_move_texts()
    ensures
        "/"@ == seq!['/'],
        "+"@ == seq!['+'],
        "-"@ == seq!['-'],
        "++"@ == seq!['+', '+'],
        "--"@ == seq!['-', '-'],
{
    lemma_texts();
}

pub proof fn lemma_cat_at3(a: Text)
    ensures
        forall|b: Text, c: Text| #[trigger] ((a + b) + c) == a + (b + c),
        forall|b: Text, c: Text, d: Text| #[trigger] (((a + b) + c) + d) == a + ((b + c) + d),
{
    lemma_cat_all();
}

pub proof fn lemma_cat_at(a: Text)
    ensures
        forall|b: Text, c: Text| #[trigger] ((a + b) + c) == a + (b + c),
        forall|b: Text, c: Text, d: Text| #[trigger] (((a + b) + c) + d) == a + ((b + c) + d),
        forall|b: Text, c: Text, d: Text, e: Text| #[trigger] ((((a + b) + c) + d) + e) == a + (((b + c) + d) + e),
        forall|b: Text, c: Text, d: Text, e: Text, f: Text| #[trigger] (((((a + b) + c) + d) + e) + f) == a + ((((b + c) + d) + e) + f),
        forall|b: Text| #[trigger] (Seq::<char>::empty() + b) == b,
        a + Seq::<char>::empty() == a,
{
    lemma_cat_all();
}

pub open spec fn s_of(n: AlgNode) -> SNode { snode(gnode(n)) }

pub open spec fn sa_of(a: Alg) -> SAlg { salg(galg(a)) }

pub proof fn lemma_sa(a: &Alg)
    ensures
        sa_of(*a).len() == a.nodes@.len(),
        forall|i: int| 0 <= i < a.nodes@.len() ==> #[trigger] sa_of(*a)[i] == s_of(a.nodes@[i]),
{
    lemma_galg(a);
    lemma_salg(galg(*a));
}

pub proof fn lemma_group_sq1(a: &Alg)
    requires
        alg_ok(galg(*a)),
    ensures
        galg(*a).len() == a.nodes@.len(),
        forall|i: int| 0 <= i < a.nodes@.len() ==> #[trigger] galg(*a)[i] == gnode(a.nodes@[i]),
        forall|i: int| 0 <= i < a.nodes@.len() ==> node_ok(#[trigger] gnode(a.nodes@[i])),
        sq1_pair(galg(*a)) == s_sq1(sa_of(*a)),
{
    lemma_galg(a);
    lemma_sq1_same(galg(*a));
    assert forall|i: int| 0 <= i < a.nodes@.len() implies node_ok(#[trigger] gnode(a.nodes@[i])) by {
        assert(galg(*a)[i] == gnode(a.nodes@[i]));
        assert(node_ok(galg(*a)[i]));
    }
}

@fn cubing_core/src/alg/amount.rs fmt_amount
%spec
    requires
        neg_ok(amount),
    ensures
        wrote(*old($p0), *final($p0), r, pr_amount($p1 as int)),
%hint start
    proof { lemma_texts(); lemma_cat_all(); }

@fn cubing_core/src/alg/quantum_move.rs <MoveLayer as Display>::fmt
%opt inherent
%spec
    ensures
        wrote(*old($p0), *final($p0), r, dec(self.layer as nat)),

@fn cubing_core/src/alg/quantum_move.rs <MoveRange as Display>::fmt
%opt inherent
%spec
    ensures
        wrote(*old($p0), *final($p0), r, pr_prefix(MovePrefix::Range(*self))),
%hint start
    proof { lemma_texts(); lemma_cat_all(); }

@fn cubing_core/src/alg/quantum_move.rs <MovePrefix as Display>::fmt
%opt inherent
%spec
    ensures
        wrote(*old($p0), *final($p0), r, pr_prefix(*self)),

@fn cubing_core/src/alg/quantum_move.rs <QuantumMove as Display>::fmt
%opt inherent
%spec
    ensures
        wrote(*old($p0), *final($p0), r, pr_quantum(self.family@, self.prefix)),
%hint start
    proof { lemma_cat_all(); }

@raw
pub proof fn lemma_abs1(n: int)
    ensures
        abs(n) == 1 <==> n == 1 || n == -1,
{
}

@fn cubing_core/src/alg/move.rs <Move as Display>::fmt
%attr
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
%opt inherent
%opt call strip_suffix vx_strip_suffix:&
%spec
    requires
        neg_ok(self.amount),
    ensures
        wrote(*old($p0), *final($p0), r, pr_move(smove(*self))),
%hint start
    hide(pr_quantum);
    hide(pr_amount);
    hide(dec);
    hide(ends);
    hide(base);
    hide(abs);
    proof { axiom_string_eq(); lemma_move_texts(); lemma_cat_at3($p0.text()); }
%alt
%attr
#[verifier::spinoff_prover]
#[verifier::rlimit(200)]
%hint start
    hide(pr_quantum);
    hide(pr_amount);
    hide(dec);
    hide(ends);
    hide(base);
    hide(abs);
    proof { axiom_string_eq(); lemma_move_texts(); lemma_cat_at3($p0.text()); lemma_abs1(self.amount as int); }

@fn cubing_core/src/alg/pause.rs <Pause as Display>::fmt
%opt inherent
%spec
    ensures
        wrote(*old($p0), *final($p0), r, seq!['.']),
%hint start
    proof { lemma_texts(); }

@fn cubing_core/src/alg/newline.rs <Newline as Display>::fmt
%opt inherent
%spec
    ensures
        wrote(*old($p0), *final($p0), r, seq!['\n']),
%hint start
    proof { lemma_texts(); }

@fn cubing_core/src/alg/line_comment.rs <LineComment as Display>::fmt
%opt inherent
%spec
    ensures
        wrote(*old($p0), *final($p0), r, seq!['/', '/'] + self.text@),
%hint start
    proof { lemma_texts(); lemma_cat_all(); }

@fn cubing_core/src/alg/alg.rs space_between
%spec
    ensures
        r@ == sep(s_of(*$p0), s_of(*$p1)),
%hint start
    proof { lemma_texts(); }

@fn cubing_core/src/alg/alg.rs <Alg as Display>::fmt
%opt inherent
%spec
    requires
        alg_ok(galg(*self)),
    ensures
        wrote(*old($p0), *final($p0), r, pr_alg(sa_of(*self))),
    decreases
        self, 1nat,
%hint start
    let ghost a = sa_of(*self);
    let ghost v = self.nodes@;
    let ghost t0 = $p0.text();
    let ghost ok0 = $p0.ok();
    proof { lemma_cat_all(); lemma_sa(self); lemma_galg(self); }
%loop 0 it
    invariant
        a == sa_of(*self),
        v == self.nodes@,
        a.len() == v.len(),
        forall|i: int| 0 <= i < v.len() ==> #[trigger] a[i] == s_of(v[i]),
        alg_ok(galg(*self)),
        galg(*self).len() == v.len(),
        forall|i: int| 0 <= i < v.len() ==> #[trigger] galg(*self)[i] == gnode(v[i]),
        it.seq().len() == v.len(),
        forall|i: int| 0 <= i < v.len() ==> *(#[trigger] it.seq()[i]) == v[i],
        $let{None} is Some <==> it.index@ > 0,
        $let{None} is Some ==> *$let{None}->Some_0 == v[it.index@ - 1],
        $p0.text() + pr_from(a, it.index@) == t0 + pr_from(a, 0),
        ok0 ==> $p0.ok(),
        ok0 == old($p0).ok(),
        t0 == old($p0).text(),
%hint loopstart 0
    let ghost tk = $p0.text();
    let ghost kx = it.index@;
    proof {
        lemma_cat_all();
        assert(*$for0 == v[kx]);
        assert(decreases_to!(self => v[kx]));
        assert(a[kx] == s_of(v[kx]));
        if kx > 0 { assert(a[kx - 1] == s_of(v[kx - 1])); }
        assert(node_ok(galg(*self)[kx]));
        assert(galg(*self)[kx] == gnode(v[kx]));
    }
%hint loopend 0
    proof {
        assert(pr_from(a, kx) == (if kx == 0 { Seq::<char>::empty() } else { sep(a[kx - 1], a[kx]) }) + pr_node(a[kx]) + pr_from(a, kx + 1));
        assert($p0.text() == tk + ((if kx == 0 { Seq::<char>::empty() } else { sep(a[kx - 1], a[kx]) }) + pr_node(a[kx])));
    }
%alt
%hint start
    let ghost a = sa_of(*self);
    let ghost v = self.nodes@;
    let ghost t0 = $p0.text();
    let ghost ok0 = $p0.ok();
    proof { lemma_cat_all(); lemma_sa(self); lemma_galg(self); }
%loop 0 it
    invariant
        a == sa_of(*self),
        v == self.nodes@,
        a.len() == v.len(),
        forall|i: int| 0 <= i < v.len() ==> #[trigger] a[i] == s_of(v[i]),
        alg_ok(galg(*self)),
        galg(*self).len() == v.len(),
        forall|i: int| 0 <= i < v.len() ==> #[trigger] galg(*self)[i] == gnode(v[i]),
        it.seq().len() == v.len(),
        forall|j: int| 0 <= j < it.seq().len() ==> #[trigger] it.seq()[j] == j,
        $p0.text() + pr_from(a, it.index@) == t0 + pr_from(a, 0),
        ok0 ==> $p0.ok(),
        ok0 == old($p0).ok(),
        t0 == old($p0).text(),
%hint loopstart 0
    let ghost tk = $p0.text();
    let ghost kx = $for0 as int;
    proof {
        lemma_cat_all();
        assert(decreases_to!(self => v[kx]));
        assert(a[kx] == s_of(v[kx]));
        if kx > 0 { assert(a[kx - 1] == s_of(v[kx - 1])); }
        assert(node_ok(galg(*self)[kx]));
        assert(galg(*self)[kx] == gnode(v[kx]));
    }
%hint loopend 0
    proof {
        assert(pr_from(a, kx) == (if kx == 0 { Seq::<char>::empty() } else { sep(a[kx - 1], a[kx]) }) + pr_node(a[kx]) + pr_from(a, kx + 1));
        assert($p0.text() == tk + ((if kx == 0 { Seq::<char>::empty() } else { sep(a[kx - 1], a[kx]) }) + pr_node(a[kx])));
    }

@fn cubing_core/src/alg/alg.rs Alg::fmt_nested
%spec
    requires
        alg_ok(galg(*self)),
    ensures
        wrote(*old($p0), *final($p0), r, pr_in(sa_of(*self))),
    decreases
        self, 2nat,
%hint start
    proof { lemma_texts(); lemma_cat_at($p0.text()); lemma_sa(self); }

@fn cubing_core/src/alg/grouping.rs <Grouping as Display>::fmt
%opt inherent
%spec
    requires
        neg_ok(self.amount),
        alg_ok(galg(*self.alg)),
    ensures
        wrote(*old($p0), *final($p0), r, pr_node(SNode::Group(sa_of(*self.alg), self.amount as int))),
    decreases
        self, 0nat,
%hint start
    proof {
        lemma_texts();
        lemma_cat_at($p0.text());
        lemma_sa(&self.alg);
        lemma_group_sq1(&self.alg);
    }

@fn cubing_core/src/alg/commutator.rs <Commutator as Display>::fmt
%opt inherent
%spec
    requires
        alg_ok(galg(*self.a)),
        alg_ok(galg(*self.b)),
    ensures
        wrote(*old($p0), *final($p0), r, pr_node(SNode::Comm(sa_of(*self.a), sa_of(*self.b)))),
    decreases
        self, 0nat,
%hint start
    proof { lemma_texts(); lemma_cat_at($p0.text()); }

@fn cubing_core/src/alg/conjugate.rs <Conjugate as Display>::fmt
%opt inherent
%spec
    requires
        alg_ok(galg(*self.a)),
        alg_ok(galg(*self.b)),
    ensures
        wrote(*old($p0), *final($p0), r, pr_node(SNode::Conj(sa_of(*self.a), sa_of(*self.b)))),
    decreases
        self, 0nat,
%hint start
    proof { lemma_texts(); lemma_cat_at($p0.text()); }

@fn cubing_core/src/alg/alg_node.rs <AlgNode as Display>::fmt
%opt inherent
%spec
    requires
        node_ok(gnode(*self)),
    ensures
        wrote(*old($p0), *final($p0), r, pr_node(s_of(*self))),
    decreases
        self, 0nat,

@raw
} // verus!
