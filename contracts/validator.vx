@raw
verus! {

// ---------------------------------------------------------------------------
// Derived-move validation
// ---------------------------------------------------------------------------

/// The elements of a set, in some order (stand-in for by-value iteration over a `HashSet`).
#[verifier::external_body]
pub fn vx_set_seq(s: HashSet<Move>) -> (r: Vec<Move>)
    ensures
        forall|m: Move| s@.contains(m) <==> #[trigger] r@.contains(m),
{
    s.into_iter().collect()
}

impl FromSpecImpl<String> for InvalidDefinitionError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: String) -> InvalidDefinitionError { InvalidDefinitionError { description: d } }
}
impl FromSpecImpl<&str> for InvalidDefinitionError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(d: &str) -> InvalidDefinitionError { arbitrary() }
}
@fn cubing_core/src/kpuzzle/packed/kpuzzle.rs <InvalidDefinitionError as From<String>>::from
@fn cubing_core/src/kpuzzle/packed/kpuzzle.rs <InvalidDefinitionError as From<&str>>::from

@item cubing_core/src/kpuzzle/packed/derived_moves_validator.rs enum DerivedMoveVisitStatus
@item cubing_core/src/kpuzzle/packed/derived_moves_validator.rs struct DerivedMovesValidator

@raw
/// The definition without its derived moves: the nesting of an alg is its number of levels there.
pub open spec fn bare(d: KPuzzleDefinition) -> KPuzzleDefinition {
    KPuzzleDefinition { derived_moves: None, ..d }
}

pub proof fn lemma_bare(d: KPuzzleDefinition)
    ensures
        acyclic(bare(d)),
{
    assert(bare(d).dv() == Map::<Move, Alg>::empty());
    assert forall|m: Move| !#[trigger] selects(bare(d), m) by {}
}

/// A definition that lookup selects for its own key.
pub open spec fn canonical(d: KPuzzleDefinition, m: Move) -> bool {
    lookup(d, m) is Some && lookup(d, m)->0.key == m && neg_ok(m.amount)
}

/// Every selectable derived move of the set expands to existing moves.
pub open spec fn all_good(d: KPuzzleDefinition, s: Set<Move>) -> bool {
    forall|m: Move| #[trigger] s.contains(m) && selects(d, m) ==> good(d, galg(d.dv()[m]))
}

pub open spec fn all_canonical(d: KPuzzleDefinition, s: Set<Move>) -> bool {
    forall|m: Move| #[trigger] s.contains(m) ==> canonical(d, m)
}

/// The keys added are derived moves that expand within fewer than `n` levels.
pub open spec fn fresh(d: KPuzzleDefinition, n: nat, a: Set<Move>, b: Set<Move>) -> bool {
    forall|m: Move| #[trigger] b.contains(m) && !a.contains(m) && selects(d, m) ==> n > 0 && walk(d, true, (n - 1) as nat, galg(d.dv()[m]))
}

pub proof fn lemma_fresh(d: KPuzzleDefinition, n: nat, a: Set<Move>, b: Set<Move>)
    requires
        fresh(d, n, a, b),
    ensures
        fresh(d, n + 1, a, b),
{
    assert forall|m: Move| #[trigger] b.contains(m) && !a.contains(m) && selects(d, m) implies walk(d, true, n, galg(d.dv()[m])) by {
        lemma_walk_mono(d, true, (n - 1) as nat, n, galg(d.dv()[m]));
    }
}

/// The alg behind a key (none for a direct definition).
pub open spec fn key_alg(d: KPuzzleDefinition, m: Move) -> GAlg {
    if lookup(d, m) is Some && lookup(d, m)->0.derived { galg(d.dv()[lookup(d, m)->0.key]) } else { Seq::empty() }
}

pub open spec fn derived_key(d: KPuzzleDefinition, m: Move) -> bool {
    lookup(d, m) is Some && lookup(d, m)->0.derived
}

pub open spec fn key_good(d: KPuzzleDefinition, m: Move) -> bool {
    lookup(d, m) is Some && good(d, key_alg(d, m))
}

pub open spec fn keys(d: KPuzzleDefinition) -> Set<Move> {
    d.mv().dom().union(d.dv().dom())
}

impl<'a> DerivedMovesValidator<'a> {
    pub open spec fn st(&self) -> Map<Move, DerivedMoveVisitStatus> {
        self.derived_move_visit_statuses@
    }

    pub open spec fn done(&self, m: Move) -> bool {
        self.st().contains_key(m) && self.st()[m] is Done
    }

    pub open spec fn going(&self, m: Move) -> bool {
        self.st().contains_key(m) && self.st()[m] is InProgress
    }

    pub open spec fn wf(&self) -> bool {
        &&& def_amounts_ok(*self.def)
        &&& forall|m: Move| #[trigger] self.st().contains_key(m) ==> match self.st()[m] {
            DerivedMoveVisitStatus::InProgress(_) => derived_key(*self.def, m),
            DerivedMoveVisitStatus::Done(_) => key_good(*self.def, m),
        }
    }

    /// Done moves stay done, visits in progress stay in progress.
    pub open spec fn keeps(&self, b: &DerivedMovesValidator<'a>) -> bool {
        forall|m: Move| #[trigger] self.st().contains_key(m) ==> b.st().contains_key(m) && b.st()[m] == self.st()[m]
    }

    /// Moves not visited yet: the termination measure of `visit`.
    pub open spec fn left(&self) -> nat {
        keys(*self.def).difference(self.st().dom()).len()
    }

    /// `m` expands within `n` levels and no visit in progress does.
    pub open spec fn can(&self, m: Move, n: nat) -> bool {
        &&& lookup(*self.def, m) is Some
        &&& walk(*self.def, true, n, key_alg(*self.def, m))
        &&& derived_key(*self.def, m) ==> forall|p: Move| #[trigger] self.going(p) ==> !walk(*self.def, true, n, key_alg(*self.def, p))
    }
}

pub proof fn lemma_canonical_alg(d: KPuzzleDefinition, m: Move)
    requires
        canonical(d, m),
    ensures
        selects(d, m) ==> key_alg(d, m) == galg(d.dv()[m]),
        !selects(d, m) ==> key_alg(d, m) == Seq::<GNode>::empty(),
        keys(d).contains(m),
{
    lemma_lookup_key(d, m);
}

/// The nodes of an alg are good: the alg is.
pub proof fn lemma_good_alg(d: KPuzzleDefinition, s: GAlg)
    requires
        forall|i: int| 0 <= i < s.len() ==> good_node(d, #[trigger] s[i]),
    ensures
        good(d, s),
{
    let n = lemma_good_nodes(d, s, s.len());
    assert(walk(d, true, n, s));
}

/// The parts of a node expand within one level less.
pub open spec fn parts_walk(d: KPuzzleDefinition, n: nat, x: GNode) -> bool {
    match x {
        GNode::Mv(m) => lookup(d, m) is Some && (lookup(d, m)->0.derived ==> n > 0 && walk(d, true, (n - 1) as nat, galg(d.dv()[lookup(d, m)->0.key]))),
        GNode::Group(s, _) => n > 0 && walk(d, true, (n - 1) as nat, s),
        GNode::Comm(a, b) => {
            &&& n > 0
            &&& walk(d, true, (n - 1) as nat, a)
            &&& walk(d, true, (n - 1) as nat, b)
            &&& walk(d, true, (n - 1) as nat, alg_inv(a))
            &&& walk(d, true, (n - 1) as nat, alg_inv(b))
        },
        GNode::Conj(a, b) => {
            &&& n > 0
            &&& walk(d, true, (n - 1) as nat, a)
            &&& walk(d, true, (n - 1) as nat, b)
            &&& walk(d, true, (n - 1) as nat, alg_inv(a))
        },
        _ => true,
    }
}

/// Parts good: the node is.
pub proof fn lemma_good_node(d: KPuzzleDefinition, x: GNode)
    ensures
        match x {
            GNode::Mv(m) => lookup(d, m) is Some && (lookup(d, m)->0.derived ==> good(d, galg(d.dv()[lookup(d, m)->0.key]))) ==> good_node(d, x),
            GNode::Group(s, _) => good(d, s) ==> good_node(d, x),
            GNode::Comm(a, b) => good(d, a) && good(d, b) && good(d, alg_inv(a)) && good(d, alg_inv(b)) ==> good_node(d, x),
            GNode::Conj(a, b) => good(d, a) && good(d, b) && good(d, alg_inv(a)) ==> good_node(d, x),
            _ => good_node(d, x),
        },
{
    match x {
        GNode::Mv(m) => {
            if lookup(d, m) is Some {
                let f = lookup(d, m)->0;
                if f.derived {
                    if good(d, galg(d.dv()[f.key])) {
                        let n = choose|n: nat| #[trigger] walk(d, true, n, galg(d.dv()[f.key]));
                        assert(walk_node(d, true, n + 1, x));
                    }
                } else {
                    assert(walk_node(d, true, 0, x));
                }
            }
        },
        GNode::Group(s, _) => {
            if good(d, s) {
                let n = choose|n: nat| #[trigger] walk(d, true, n, s);
                assert(walk_node(d, true, n + 1, x));
            }
        },
        GNode::Comm(a, b) => {
            if good(d, a) && good(d, b) && good(d, alg_inv(a)) && good(d, alg_inv(b)) {
                let n1 = choose|n: nat| #[trigger] walk(d, true, n, a);
                let n2 = choose|n: nat| #[trigger] walk(d, true, n, b);
                let n3 = choose|n: nat| #[trigger] walk(d, true, n, alg_inv(a));
                let n4 = choose|n: nat| #[trigger] walk(d, true, n, alg_inv(b));
                let n = n1 + n2 + n3 + n4;
                lemma_walk_mono(d, true, n1, n, a);
                lemma_walk_mono(d, true, n2, n, b);
                lemma_walk_mono(d, true, n3, n, alg_inv(a));
                lemma_walk_mono(d, true, n4, n, alg_inv(b));
                assert(walk_node(d, true, n + 1, x));
            }
        },
        GNode::Conj(a, b) => {
            if good(d, a) && good(d, b) && good(d, alg_inv(a)) {
                let n1 = choose|n: nat| #[trigger] walk(d, true, n, a);
                let n2 = choose|n: nat| #[trigger] walk(d, true, n, b);
                let n3 = choose|n: nat| #[trigger] walk(d, true, n, alg_inv(a));
                let n = n1 + n2 + n3;
                lemma_walk_mono(d, true, n1, n, a);
                lemma_walk_mono(d, true, n2, n, b);
                lemma_walk_mono(d, true, n3, n, alg_inv(a));
                assert(walk_node(d, true, n + 1, x));
            }
        },
        _ => { assert(walk_node(d, true, 0, x)); },
    }
}

@fn cubing_core/src/kpuzzle/packed/derived_moves_validator.rs DerivedMovesValidator::ancestor_move_keys_in_node
%spec
    requires
        def_amounts_ok(*self.def),
        node_ok(gnode(*$p0)),
    ensures
        r is Ok ==> old($p1)@.subset_of(final($p1)@),
        r is Ok && all_canonical(*self.def, old($p1)@) ==> all_canonical(*self.def, final($p1)@),
        r is Ok && all_good(*self.def, final($p1)@) ==> good_node(*self.def, gnode(*$p0)),
        forall|n: nat| #[trigger] walk_node(*self.def, true, n, gnode(*$p0)) ==> r is Ok && fresh(*self.def, n, old($p1)@, final($p1)@),
    decreases
        levels_node(bare(*self.def), gnode(*$p0)), 0int,
%hint start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof {
        axiom_move_key();
        lemma_bare(*self.def);
        lemma_levels_node(bare(*self.def), gnode(*$p0));
        lemma_good_node(*self.def, gnode(*$p0));
        if let GNode::Mv(m) = gnode(*$p0) {
            if lookup(*self.def, m) is Some {
                lemma_lookup_key(*self.def, m);
                let key = lookup(*self.def, m)->0.key;
                assert forall|a: Set<Move>| all_good(*self.def, #[trigger] a.insert(key)) && selects(*self.def, key) implies
                    good(*self.def, galg(self.def.dv()[key])) by { assert(a.insert(key).contains(key)); }
            }
        }
        assert forall|a: Set<Move>, b: Set<Move>| #[trigger] a.subset_of(b) && all_good(*self.def, b) implies all_good(*self.def, a) by {
            assert forall|m: Move| #[trigger] a.contains(m) && selects(*self.def, m) implies good(*self.def, galg(self.def.dv()[m])) by { assert(b.contains(m)); }
        }
        assert forall|n: nat| #[trigger] walk_node(*self.def, true, n, gnode(*$p0)) implies parts_walk(*self.def, n, gnode(*$p0)) by {}
        assert forall|n: nat, a: Set<Move>, b: Set<Move>| n > 0 && #[trigger] fresh(*self.def, (n - 1) as nat, a, b) implies fresh(*self.def, n, a, b) by {
            lemma_fresh(*self.def, (n - 1) as nat, a, b);
        }
    }

@fn cubing_core/src/kpuzzle/packed/derived_moves_validator.rs DerivedMovesValidator::ancestor_move_keys_in_alg_recursive
%spec
    requires
        def_amounts_ok(*self.def),
        alg_ok(galg(*$p0)),
    ensures
        r is Ok ==> old($p1)@.subset_of(final($p1)@),
        r is Ok && all_canonical(*self.def, old($p1)@) ==> all_canonical(*self.def, final($p1)@),
        r is Ok && all_good(*self.def, final($p1)@) ==> good(*self.def, galg(*$p0)),
        forall|n: nat| #[trigger] walk(*self.def, true, n, galg(*$p0)) ==> r is Ok && fresh(*self.def, n, old($p1)@, final($p1)@),
    decreases
        levels(bare(*self.def), galg(*$p0)), 1int,
%hint start
    proof {
        lemma_galg($p0);
        lemma_bare(*self.def);
        lemma_levels(bare(*self.def), galg(*$p0));
    }
%loop 0 it
    invariant
        def_amounts_ok(*self.def),
        alg_ok(galg(*$p0)),
        it.seq().len() == galg(*$p0).len(),
        forall|j: int| 0 <= j < galg(*$p0).len() ==> gnode(*#[trigger] it.seq()[j]) == galg(*$p0)[j],
        forall|j: int| 0 <= j < galg(*$p0).len() ==> levels_node(bare(*self.def), #[trigger] galg(*$p0)[j]) <= levels(bare(*self.def), galg(*$p0)),
        old($p1)@.subset_of($p1@),
        all_canonical(*self.def, old($p1)@) ==> all_canonical(*self.def, $p1@),
        forall|j: int| 0 <= j < it.index@ && all_good(*self.def, $p1@) ==> good_node(*self.def, #[trigger] galg(*$p0)[j]),
        forall|n: nat| #[trigger] walk(*self.def, true, n, galg(*$p0)) ==> fresh(*self.def, n, old($p1)@, $p1@),
%hint loopstart 0
    let ghost vx_j = it.index@;
    proof {
        assert(gnode(*it.seq()[vx_j]) == galg(*$p0)[vx_j]);
        assert(node_ok(galg(*$p0)[vx_j]));
        assert forall|n: nat| #[trigger] walk(*self.def, true, n, galg(*$p0)) implies walk_node(*self.def, true, n, galg(*$p0)[vx_j]) by {}
    }
%hint after 0
    proof {
        if all_good(*self.def, $p1@) { lemma_good_alg(*self.def, galg(*$p0)); }
    }

@fn cubing_core/src/kpuzzle/packed/derived_moves_validator.rs DerivedMovesValidator::ancestor_move_keys_in_alg
%spec
    requires
        def_amounts_ok(*self.def),
        alg_ok(galg(*$p0)),
    ensures
        r is Ok ==> all_canonical(*self.def, r->Ok_0@),
        r is Ok && all_good(*self.def, r->Ok_0@) ==> good(*self.def, galg(*$p0)),
        forall|n: nat| #[trigger] walk(*self.def, true, n, galg(*$p0)) ==> r is Ok && fresh(*self.def, n, Set::empty(), r->Ok_0@),
%hint start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { axiom_move_key(); lemma_galg($p0); }
%loop 0 it
    invariant
        def_amounts_ok(*self.def),
        alg_ok(galg(*$p0)),
        it.seq().len() == galg(*$p0).len(),
        forall|j: int| 0 <= j < galg(*$p0).len() ==> gnode(*#[trigger] it.seq()[j]) == galg(*$p0)[j],
        all_canonical(*self.def, $let{HashSet}@),
        forall|j: int| 0 <= j < it.index@ && all_good(*self.def, $let{HashSet}@) ==> good_node(*self.def, #[trigger] galg(*$p0)[j]),
        forall|n: nat| #[trigger] walk(*self.def, true, n, galg(*$p0)) ==> fresh(*self.def, n, Set::empty(), $let{HashSet}@),
%hint loopstart 0
    let ghost vx_j = it.index@;
    proof {
        assert(gnode(*it.seq()[vx_j]) == galg(*$p0)[vx_j]);
        assert(node_ok(galg(*$p0)[vx_j]));
        assert forall|n: nat| #[trigger] walk(*self.def, true, n, galg(*$p0)) implies walk_node(*self.def, true, n, galg(*$p0)[vx_j]) by {}
    }
%hint after 0
    proof {
        if all_good(*self.def, $let{HashSet}@) { lemma_good_alg(*self.def, galg(*$p0)); }
    }
%alt
%hint start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { axiom_move_key(); lemma_galg($p0); }

@raw
/// A move that gets visited is no longer left.
pub proof fn lemma_left<'a>(s0: DerivedMovesValidator<'a>, s: DerivedMovesValidator<'a>, key: Move)
    requires
        s.def == s0.def,
        keys(*s0.def).contains(key),
        !s0.st().contains_key(key),
        s0.st().dom().insert(key).subset_of(s.st().dom()),
    ensures
        s.left() < s0.left(),
{
    let a = keys(*s0.def).difference(s0.st().dom());
    let b = keys(*s0.def).difference(s.st().dom());
    assert(s0.st().dom().insert(key).contains(key));
    assert(a.contains(key));
    assert(!b.contains(key));
    assert forall|m: Move| #[trigger] b.contains(m) implies a.remove(key).contains(m) by {
        if s0.st().dom().contains(m) { assert(s0.st().dom().insert(key).contains(m)); }
    }
    assert(b.subset_of(a.remove(key)));
    vstd::set_lib::lemma_len_subset(b, a.remove(key));
}

/// Marking `key` as in progress.
pub proof fn lemma_visit_start<'a>(s0: DerivedMovesValidator<'a>, s: DerivedMovesValidator<'a>, key: Move)
    requires
        s0.wf(),
        s.def == s0.def,
        !s0.st().contains_key(key),
        s.st() == s0.st().insert(key, DerivedMoveVisitStatus::InProgress(())),
    ensures
        derived_key(*s.def, key) ==> s.wf(),
        forall|m: Move| #[trigger] s.st().contains_key(m) && s.st()[m] is InProgress ==> s0.going(m) || m == key,
        s0.keeps(&s),
        s0.st().dom().insert(key).subset_of(s.st().dom()),
{
}

/// While `key` is being visited, its dependency `m` can be visited with one level less.
pub proof fn lemma_visit_step<'a>(s0: DerivedMovesValidator<'a>, s: DerivedMovesValidator<'a>, key: Move, m: Move, n: nat, ks: Set<Move>)
    requires
        s.def == s0.def,
        canonical(*s.def, m),
        ks.contains(m),
        is_least(*s.def, true, key_alg(*s.def, key), n),
        fresh(*s.def, n, Set::empty(), ks),
        forall|p: Move| #[trigger] s.st().contains_key(p) && s.st()[p] is InProgress ==> s0.going(p) || p == key,
        forall|p: Move| #[trigger] s0.going(p) ==> !walk(*s.def, true, n, key_alg(*s.def, p)),
    ensures
        exists|h: nat| #[trigger] s.can(m, h),
{
    let d = *s.def;
    lemma_canonical_alg(d, m);
    lemma_lookup_key(d, m);
    if selects(d, m) {
        let h = (n - 1) as nat;
        assert forall|p: Move| #[trigger] s.going(p) implies !walk(d, true, h, key_alg(d, p)) by {
            if walk(d, true, h, key_alg(d, p)) && p != key {
                lemma_walk_mono(d, true, h, n, key_alg(d, p));
            }
        }
        assert(s.can(m, h));
    } else {
        assert(!derived_key(d, m));
        assert(s.can(m, 0));
    }
}

@fn cubing_core/src/kpuzzle/packed/derived_moves_validator.rs DerivedMovesValidator::visit
%opt forwrap vx_set_seq
%spec
    requires
        old(self).wf(),
        keys(*old(self).def).contains(*$p0),
        neg_ok($p0.amount),
    ensures
        final(self).def == old(self).def,
        r is Ok ==> final(self).wf(),
        r is Ok ==> final(self).done(*$p0),
        r is Ok ==> old(self).st().dom().subset_of(final(self).st().dom()),
        r is Ok ==> old(self).keeps(final(self)),
        r is Ok ==> forall|m: Move| #[trigger] final(self).st().contains_key(m) && final(self).st()[m] is InProgress ==> old(self).going(m),
        forall|n: nat| #[trigger] old(self).can(*$p0, n) ==> r is Ok,
    decreases
        old(self).left(),
%hint start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost vx_d = *self.def;
    let ghost vx_s = *self;
    let ghost vx_ok = exists|n: nat| #[trigger] vx_s.can(*$p0, n);
    let ghost mut vx_n = 0nat;
    proof {
        axiom_move_key();
        if vx_ok {
            let n = choose|n: nat| #[trigger] vx_s.can(*$p0, n);
            assert(!vx_s.going(*$p0));
            vx_n = lemma_least(vx_d, true, key_alg(vx_d, *$p0), n);
            assert forall|p: Move| #[trigger] vx_s.going(p) && derived_key(vx_d, *$p0) implies !walk(vx_d, true, vx_n, key_alg(vx_d, p)) by {
                if walk(vx_d, true, vx_n, key_alg(vx_d, p)) { lemma_walk_mono(vx_d, true, vx_n, n, key_alg(vx_d, p)); }
            }
        }
        if lookup(vx_d, *$p0) is Some { lemma_lookup_key(vx_d, *$p0); }
        assert(walk(vx_d, true, 0, Seq::<GNode>::empty()));
        assert(good(vx_d, Seq::<GNode>::empty()));
    }
%hint before 0
    let ghost vx_keys = $let{ancestor_move_keys_in_alg}@;
    let ghost vx_i = *self;
    proof { lemma_visit_start(vx_s, vx_i, *$p0); }
%loop 0 it
    invariant
        vstd::std_specs::hash::obeys_key_model::<Move>(),
        self.def == vx_s.def,
        *self.def == vx_d,
        self.wf(),
        all_canonical(vx_d, vx_keys),
        forall|m: Move| #[trigger] vx_keys.contains(m) ==> it.seq().contains(m),
        forall|m: Move| #[trigger] it.seq().contains(m) ==> vx_keys.contains(m),
        vx_s.left() == old(self).left(),
        vx_s.st().dom().insert(*$p0).subset_of(self.st().dom()),
        keys(vx_d).contains(*$p0),
        !vx_s.st().contains_key(*$p0),
        vx_s.keeps(self),
        forall|m: Move| #[trigger] self.st().contains_key(m) && self.st()[m] is InProgress ==> vx_s.going(m) || m == *$p0,
        forall|j: int| 0 <= j < it.index@ ==> self.done(#[trigger] it.seq()[j]),
        vx_ok ==> is_least(vx_d, true, key_alg(vx_d, *$p0), vx_n),
        vx_ok ==> fresh(vx_d, vx_n, Set::empty(), vx_keys),
        derived_key(vx_d, *$p0),
        vx_ok ==> forall|p: Move| #[trigger] vx_s.going(p) ==> !walk(vx_d, true, vx_n, key_alg(vx_d, p)),
        vx_ok <==> exists|n: nat| #[trigger] vx_s.can(*$p0, n),
        vx_s == *old(self),
%hint loopstart 0
    proof {
        let m = it.seq()[it.index@];
        lemma_left(vx_s, *self, *$p0);
        assert(it.seq().contains(m));
        assert(vx_keys.contains(m));
        lemma_canonical_alg(vx_d, m);
        if vx_ok { lemma_visit_step(vx_s, *self, *$p0, m, vx_n, vx_keys); }
    }
%hint after 0
    proof {
        assert forall|m: Move| #[trigger] vx_keys.contains(m) && selects(vx_d, m) implies good(vx_d, galg(vx_d.dv()[m])) by {
            assert(self.done(m));
            lemma_canonical_alg(vx_d, m);
        }
        assert(all_good(vx_d, vx_keys));
    }

@raw
pub proof fn lemma_check_step<'a>(v: DerivedMovesValidator<'a>, m: Move)
    requires
        v.wf(),
        acyclic(*v.def),
        v.def.dv().contains_key(m),
        forall|p: Move| !#[trigger] v.going(p),
    ensures
        exists|h: nat| #[trigger] v.can(m, h),
{
    let d = *v.def;
    lemma_lookup_key(d, m);
    let key = lookup(d, m)->0.key;
    if derived_key(d, m) {
        assert(selects(d, key));
        let n = choose|n: nat| #[trigger] walk(d, true, n, galg(d.dv()[key]));
        assert(v.can(m, n));
    } else {
        assert(v.can(m, 0));
    }
}

pub proof fn lemma_check_done<'a>(v: DerivedMovesValidator<'a>, d: KPuzzleDefinition)
    requires
        v.wf(),
        *v.def == d,
        forall|k: Move| #[trigger] d.dv().contains_key(k) ==> v.done(k),
    ensures
        acyclic(d),
{
    assert forall|k: Move| #[trigger] selects(d, k) implies good(d, galg(d.dv()[k])) by {
        assert(d.dv().contains_key(k));
        assert(key_good(d, k));
    }
}

@fn cubing_core/src/kpuzzle/packed/derived_moves_validator.rs DerivedMovesValidator::check
%spec
    requires
        def_amounts_ok(*$p0),
    ensures
        r is Ok <==> acyclic(*$p0),
%hint start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost vx_d = *$p0;
    proof {
        axiom_move_key();
        if $p0.derived_moves is None {
            lemma_bare(vx_d);
            assert(bare(vx_d) == vx_d);
        }
    }
%loop 0 it
    invariant
        vstd::std_specs::hash::obeys_key_model::<Move>(),
        vx_d == *$p0,
        def_amounts_ok(vx_d),
        *$let{DerivedMovesValidator}.def == vx_d,
        $let{DerivedMovesValidator}.wf(),
        forall|m: Move| !#[trigger] $let{DerivedMovesValidator}.going(m),
        vx_d.dv() == $p0.derived_moves->0@,
        forall|k: Move| #[trigger] vx_d.dv().contains_key(k) ==> exists|j: int| 0 <= j < it.seq().len() && *(#[trigger] it.seq()[j]).0 == k,
        forall|j: int| 0 <= j < it.seq().len() ==> vx_d.dv().contains_key(*(#[trigger] it.seq()[j]).0),
        forall|j: int| 0 <= j < it.index@ ==> $let{DerivedMovesValidator}.done(*(#[trigger] it.seq()[j]).0),
%hint loopstart 0
    proof {
        let m = *it.seq()[it.index@].0;
        assert(vx_d.dv().contains_key(m));
        assert(keys(vx_d).contains(m));
        if acyclic(vx_d) { lemma_check_step($let{DerivedMovesValidator}, m); }
    }
%hint after 0
    proof {
        assert forall|k: Move| #[trigger] vx_d.dv().contains_key(k) implies $let{DerivedMovesValidator}.done(k) by {}
        lemma_check_done($let{DerivedMovesValidator}, vx_d);
    }

@raw
} // verus!
