@raw
verus! {

// ---------------------------------------------------------------------------
// Move lookup
// ---------------------------------------------------------------------------

/// `Move` derives `Hash` and `Eq`.
#[verifier::external]
impl Eq for Move {}
#[verifier::external]
impl std::hash::Hash for Move { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }

pub axiom fn axiom_move_key()
    ensures
        vstd::std_specs::hash::obeys_key_model::<Move>(),
;

pub assume_specification<'a, K, V, S, A: std::alloc::Allocator, Q: ?Sized>[ HashMap::<K, V, S, A>::get_key_value::<Q> ](m: &'a HashMap<K, V, S, A>, k: &Q) -> (r: Option<(&'a K, &'a V)>)
  where K: Eq + std::hash::Hash + std::borrow::Borrow<Q>, Q: std::hash::Hash + Eq, S: std::hash::BuildHasher
  ensures vstd::std_specs::hash::obeys_key_model::<K>() && vstd::std_specs::hash::builds_valid_hashers::<S>() ==> match r {
     Some((k2, v)) => {
        &&& m@.contains_key(*k2) && m@[*k2] == *v
        &&& vstd::std_specs::hash::sets_borrowed_key_to_key(m@.dom(), k, k2)
     },
     None => !vstd::std_specs::hash::contains_borrowed_key(m@, k),
  };

pub type Moves = Map<Move, KTransformationData>;

pub type Derived = Map<Move, Alg>;

impl KPuzzleDefinition {
    pub open spec fn mv(&self) -> Moves {
        self.moves@
    }

    /// Derived move definitions (none: empty).
    pub open spec fn dv(&self) -> Derived {
        match self.derived_moves { Some(d) => d@, None => Map::empty() }
    }
}

pub open spec fn unit_move(m: Move) -> Move {
    Move { quantum: m.quantum, amount: 1 }
}

/// The definition found for a move: its key, the amount relative to the key, derived or direct.
pub ghost struct Found {
    pub key: Move,
    pub amount: int,
    pub derived: bool,
}

/// Resolution order: the unit form, the exact move, its inverse; direct before derived.
pub open spec fn lookup(d: KPuzzleDefinition, m: Move) -> Option<Found> {
    if d.mv().contains_key(unit_move(m)) {
        Some(Found { key: unit_move(m), amount: m.amount as int, derived: false })
    } else if d.dv().contains_key(unit_move(m)) {
        Some(Found { key: unit_move(m), amount: m.amount as int, derived: true })
    } else if d.mv().contains_key(m) {
        Some(Found { key: m, amount: 1, derived: false })
    } else if d.dv().contains_key(m) {
        Some(Found { key: m, amount: 1, derived: true })
    } else if d.mv().contains_key(move_inv(m)) {
        Some(Found { key: move_inv(m), amount: -1, derived: false })
    } else if d.dv().contains_key(move_inv(m)) {
        Some(Found { key: move_inv(m), amount: -1, derived: true })
    } else {
        None
    }
}

/// A move resolves iff one of the definitions exists.
pub proof fn lemma_lookup_total(d: KPuzzleDefinition, m: Move)
    ensures
        lookup(d, m) is Some <==> {
            ||| d.mv().contains_key(unit_move(m)) || d.dv().contains_key(unit_move(m))
            ||| d.mv().contains_key(m) || d.dv().contains_key(m)
            ||| d.mv().contains_key(move_inv(m)) || d.dv().contains_key(move_inv(m))
        },
{
}

/// The key a move resolves to resolves to itself.
pub proof fn lemma_lookup_key(d: KPuzzleDefinition, m: Move)
    requires
        lookup(d, m) is Some,
        neg_ok(m.amount),
    ensures
        ({
            let l = lookup(d, m)->0;
            &&& lookup(d, l.key) == Some(Found { key: l.key, amount: 1, derived: l.derived })
            &&& l.derived ==> d.dv().contains_key(l.key)
            &&& !l.derived ==> d.mv().contains_key(l.key)
            &&& neg_ok(l.key.amount)
        }),
{
    assert(unit_move(unit_move(m)) == unit_move(m));
    assert(unit_move(move_inv(m)) == unit_move(m) || move_inv(m) == m);
}

@item cubing_core/src/kpuzzle/packed/lookup_move.rs enum MoveLookupResultSource
@item cubing_core/src/kpuzzle/packed/lookup_move.rs struct MoveLookupResult

@raw
impl<'a> MoveLookupResult<'a> {
    /// The result is `f`, with the definition stored under its key.
    pub open spec fn is_found(&self, d: KPuzzleDefinition, f: Found) -> bool {
        &&& *self.key_move == f.key
        &&& self.relative_amount == f.amount
        &&& match self.source {
            MoveLookupResultSource::DirectlyDefined(t) => !f.derived && d.mv().contains_key(f.key) && d.mv()[f.key] == *t,
            MoveLookupResultSource::DerivedFromAlg(a) => f.derived && d.dv().contains_key(f.key) && d.dv()[f.key] == *a,
        }
    }
}

@fn cubing_core/src/kpuzzle/packed/lookup_move.rs move_with_amount_1
%spec
    ensures
        r == unit_move(*$p0),

@fn cubing_core/src/kpuzzle/packed/lookup_move.rs lookup_move
%spec
    requires
        neg_ok($p1.amount),
    ensures
        r is Some <==> lookup(*$p0, *$p1) is Some,
        r is Some ==> r->0.is_found(*$p0, lookup(*$p0, *$p1)->0),
%hint start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { axiom_move_key(); }

@raw
} // verus!
