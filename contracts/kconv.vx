@raw
verus! {

// ---------------------------------------------------------------------------
// Conversion from and to (JSON) data
// ---------------------------------------------------------------------------

/// Stand-in for the external crate: decoding is a function of the bytes.
pub mod serde_json {
    use super::*;
    pub uninterp spec fn decode<T>(b: Seq<u8>) -> Option<T>;
    #[verifier::external_body]
    pub struct Error { _e: () }
    impl Error {
        #[verifier::external_body]
        pub fn to_string(&self) -> String { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn from_slice<T>(b: &[u8]) -> (r: Result<T, Error>)
        ensures
            r is Ok <==> decode::<T>(b@) is Some,
            r is Ok ==> r->Ok_0 == decode::<T>(b@)->0,
    { unimplemented!() }
    #[verifier::external]
    impl std::fmt::Debug for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
}

/// `KPuzzleOrbitName` derives `Hash` and `Eq` over its `String`.
#[verifier::external]
impl Eq for KPuzzleOrbitName {}
#[verifier::external]
impl std::hash::Hash for KPuzzleOrbitName { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }

pub axiom fn axiom_name_key()
    ensures
        vstd::std_specs::hash::obeys_key_model::<KPuzzleOrbitName>(),
;

pub type TData = Map<KPuzzleOrbitName, KTransformationOrbitData>;

pub type PData = Map<KPuzzleOrbitName, KPatternOrbitData>;

/// Entry `i` of a transformation's orbit data is acceptable after the entries before it.
pub open spec fn tdata_entry_ok(ob: KPuzzleOrbitInfo, d: KTransformationOrbitData, i: int) -> bool {
    &&& d.permutation@[i] < ob.num_pieces
    &&& d.orientation_delta@[i] < ob.num_orientations
    &&& forall|h: int| 0 <= h < i ==> #[trigger] d.permutation@[h] != d.permutation@[i]
}

pub open spec fn tdata_orbit_ok(ob: KPuzzleOrbitInfo, d: KTransformationOrbitData) -> bool {
    &&& d.permutation@.len() == ob.num_pieces
    &&& d.orientation_delta@.len() == ob.num_pieces
    &&& forall|i: int| 0 <= i < ob.num_pieces ==> #[trigger] tdata_entry_ok(ob, d, i)
}

pub open spec fn tdata_has(m: TData, ob: KPuzzleOrbitInfo) -> bool {
    m.contains_key(ob.name) && tdata_orbit_ok(ob, m[ob.name])
}

/// The data describe a transformation of the puzzle.
pub open spec fn tdata_ok(k: KPuzzle, m: TData) -> bool {
    forall|j: int| 0 <= j < k.orbits().len() ==> tdata_has(m, #[trigger] k.orbits()[j])
}

pub open spec fn tdata_view(k: KPuzzle, m: TData) -> TV {
    Seq::new(k.orbits().len(), |j: int| Seq::new(k.np(j) as nat, |i: int|
        (m[k.orbits()[j].name].permutation@[i] as int, m[k.orbits()[j].name].orientation_delta@[i] as int)))
}

pub open spec fn pdata_mod(d: KPatternOrbitData, i: int) -> int {
    match d.orientation_mod { Some(v) => v@[i] as int, None => 0 }
}

pub open spec fn pdata_entry_ok(ob: KPuzzleOrbitInfo, d: KPatternOrbitData, i: int) -> bool {
    valid_pair(d.orientation@[i] as int, pdata_mod(d, i), ob.no())
}

pub open spec fn pdata_orbit_ok(ob: KPuzzleOrbitInfo, d: KPatternOrbitData) -> bool {
    &&& d.pieces@.len() == ob.num_pieces
    &&& d.orientation@.len() == ob.num_pieces
    &&& d.orientation_mod is Some ==> d.orientation_mod->0@.len() == ob.num_pieces
    &&& forall|i: int| 0 <= i < ob.num_pieces ==> #[trigger] pdata_entry_ok(ob, d, i)
}

pub open spec fn pdata_has(m: PData, ob: KPuzzleOrbitInfo) -> bool {
    m.contains_key(ob.name) && pdata_orbit_ok(ob, m[ob.name])
}

/// The data describe a pattern of the puzzle.
pub open spec fn pdata_ok(k: KPuzzle, m: PData) -> bool {
    forall|j: int| 0 <= j < k.orbits().len() ==> pdata_has(m, #[trigger] k.orbits()[j])
}

pub open spec fn pdata_cell(ob: KPuzzleOrbitInfo, d: KPatternOrbitData, i: int) -> (int, int, int) {
    (d.pieces@[i] as int, d.orientation@[i] as int, norm_mod(pdata_mod(d, i), ob.no()))
}

pub open spec fn pdata_view(k: KPuzzle, m: PData) -> PV {
    Seq::new(k.orbits().len(), |j: int| Seq::new(k.np(j) as nat, |i: int| pdata_cell(k.orbits()[j], m[k.orbits()[j].name], i)))
}

@raw
impl FromSpecImpl<String> for InvalidKPatternDataError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: String) -> InvalidKPatternDataError { InvalidKPatternDataError { description: d } }
}
impl FromSpecImpl<String> for InvalidKTransformationDataError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: String) -> InvalidKTransformationDataError { InvalidKTransformationDataError { description: d } }
}
@fn cubing_core/src/kpuzzle/packed/errors.rs <InvalidKPatternDataError as From<String>>::from
@fn cubing_core/src/kpuzzle/packed/errors.rs <InvalidKTransformationDataError as From<String>>::from

@fn cubing_core/src/kpuzzle/packed/kpuzzle.rs <KPuzzle as From<&KPuzzle>>::from
%spec
    ensures
        r == *$p0,

@raw
impl FromSpecImpl<&KPuzzle> for KPuzzle {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(k: &KPuzzle) -> KPuzzle { *k }
}

/// Cell `(j, i)` of `t` holds the data's entry.
pub open spec fn tcell_is(t: &KTransformation, m: TData, j: int, i: int) -> bool {
    &&& t.packed_orbit_data.pj(j, i) == Some(m[t.k().orbits()[j].name].permutation@[i])
    &&& t.packed_orbit_data.oj(j, i) == Some(m[t.k().orbits()[j].name].orientation_delta@[i])
}

pub proof fn lemma_tdata_done(t: &KTransformation, m: TData)
    requires
        t.packed_orbit_data.wf(),
        tdata_ok(t.k(), m),
        forall|j: int, i: int| #[trigger] t.k().pos(j, i) ==> tcell_is(t, m, j, i),
    ensures
        t.valid(),
        t.view() == tdata_view(t.k(), m),
{
    let k = t.k();
    lemma_shape(k);
    assert forall|j: int, i: int| #[trigger] k.pos(j, i) implies t.cell_ok(j, i) by {
        assert(tcell_is(t, m, j, i));
        assert(tdata_has(m, k.orbits()[j]));
        assert(tdata_entry_ok(k.orbits()[j], m[k.orbits()[j].name], i));
    }
    assert forall|j: int, i: int| #[trigger] k.pos(j, i) implies tdata_view(k, m)[j][i] == (t.p(j, i), t.d(j, i)) by {
        assert(tcell_is(t, m, j, i));
    }
    lemma_t_view_is(t, tdata_view(k, m));
    assert forall|j: int, i1: int, i2: int|
        #[trigger] at(k.shape(), j, i1) && #[trigger] at(k.shape(), j, i2) && t.view()[j][i1].0 == t.view()[j][i2].0 implies i1 == i2 by {
        let d = m[k.orbits()[j].name];
        assert(k.pos(j, i1) && k.pos(j, i2));
        assert(tdata_has(m, k.orbits()[j]));
        assert(tdata_entry_ok(k.orbits()[j], d, i1));
        assert(tdata_entry_ok(k.orbits()[j], d, i2));
        assert(d.permutation@[i1] == d.permutation@[i2]);
    }
}

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformation::try_from_data
%attr
#[verifier::loop_isolation(false)]
%spec
    requires
        <T as IntoSpec<KPuzzle>>::obeys_into_spec(),
        IntoSpec::into_spec($p0).wf(),
    ensures
        r is Ok <==> tdata_ok(IntoSpec::into_spec($p0), $p1@),
        r is Ok ==> r->Ok_0.valid() && r->Ok_0.k() == IntoSpec::into_spec($p0) && r->Ok_0.view() == tdata_view(r->Ok_0.k(), $p1@),
        r is Err ==> r->Err_0 is InvalidKTransformationData,
%hint start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost vx_k = IntoSpec::into_spec($p0);
    proof { axiom_name_key(); }
%loop 0 it
    invariant
        vx_k.wf(),
        vstd::std_specs::hash::obeys_key_model::<KPuzzleOrbitName>(),
        new_ktransformation.packed_orbit_data.wf(),
        new_ktransformation.k() == vx_k,
        it.seq().len() == vx_k.orbits().len(),
        forall|j: int| 0 <= j < vx_k.orbits().len() ==> *#[trigger] it.seq()[j] == vx_k.orbits()[j],
        forall|j: int| 0 <= j < it.index@ ==> tdata_has($p1@, #[trigger] vx_k.orbits()[j]),
        forall|j: int, i: int| j < it.index@ && #[trigger] vx_k.pos(j, i) ==> tcell_is(&new_ktransformation, $p1@, j, i),
%hint loopstart 0
    let ghost vx_j = it.index@;
    proof {
        lemma_orbit(vx_k, vx_j);
        assert(tdata_ok(vx_k, $p1@) ==> tdata_has($p1@, vx_k.orbits()[vx_j]));
    }
%loop 1 it2
    invariant
        tdata_ok(vx_k, $p1@) ==> tdata_orbit_ok(*$for0, *orbit),
        vx_k.wf(),
        new_ktransformation.packed_orbit_data.wf(),
        new_ktransformation.k() == vx_k,
        0 <= vx_j < vx_k.orbits().len(),
        *$for0 == vx_k.orbits()[vx_j],
        vx_k.has(*$for0),
        forall|j2: int| 0 <= j2 < vx_k.orbits().len() && vx_k.np(j2) > 0 && #[trigger] vx_k.orbits()[j2] == *$for0 ==> j2 == vx_j,
        $p1@.contains_key($for0.name),
        *orbit == $p1@[$for0.name],
        orbit.permutation@.len() == $for0.num_pieces,
        orbit.orientation_delta@.len() == $for0.num_pieces,
        it2.seq().len() == $for0.num_pieces,
        forall|i: int| 0 <= i < it2.seq().len() ==> #[trigger] it2.seq()[i] == i,
        forall|i: int| 0 <= i < it2.index@ ==> #[trigger] tdata_entry_ok(*$for0, *orbit, i),
        $for0.num_pieces <= seen@.len(),
        forall|v: int| 0 <= v < seen@.len() ==> (#[trigger] seen@[v] <==> exists|h: int| 0 <= h < it2.index@ && #[trigger] orbit.permutation@[h] == v),
        forall|j: int| 0 <= j < vx_j ==> tdata_has($p1@, #[trigger] vx_k.orbits()[j]),
        forall|j: int, i: int| (j < vx_j || j == vx_j && i < it2.index@) && #[trigger] vx_k.pos(j, i) ==> tcell_is(&new_ktransformation, $p1@, j, i),
%hint loopstart 1
    proof { assert(tdata_orbit_ok(*$for0, *orbit) ==> tdata_entry_ok(*$for0, *orbit, $for1 as int)); }
%hint tail
    proof { lemma_tdata_done(&new_ktransformation, $p1@); }

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformation::try_from_json
%spec
    requires
        <T as IntoSpec<KPuzzle>>::obeys_into_spec(),
        IntoSpec::into_spec($p0).wf(),
    ensures
        r is Ok <==> serde_json::decode::<KTransformationData>($p1@) is Some && tdata_ok(IntoSpec::into_spec($p0), serde_json::decode::<KTransformationData>($p1@)->0@),
        r is Ok ==> r->Ok_0.valid() && r->Ok_0.k() == IntoSpec::into_spec($p0)
            && r->Ok_0.view() == tdata_view(IntoSpec::into_spec($p0), serde_json::decode::<KTransformationData>($p1@)->0@),

@raw
pub open spec fn pcell_is(t: &KPattern, m: PData, j: int, i: int) -> bool {
    t.cell_ok(j, i) && t.cell(j, i) == pdata_cell(t.k().orbits()[j], m[t.k().orbits()[j].name], i)
}

pub proof fn lemma_pdata_done(t: &KPattern, m: PData)
    requires
        t.packed_orbit_data.wf(),
        forall|j: int, i: int| #[trigger] t.k().pos(j, i) ==> pcell_is(t, m, j, i),
    ensures
        t.wf(),
        t.view() == pdata_view(t.k(), m),
{
    let k = t.k();
    lemma_shape(k);
    assert forall|j: int, i: int| #[trigger] k.pos(j, i) implies t.cell_ok(j, i) by {
        assert(pcell_is(t, m, j, i));
    }
    assert forall|j: int, i: int| #[trigger] k.pos(j, i) implies pdata_view(k, m)[j][i] == t.cell(j, i) by {
        assert(pcell_is(t, m, j, i));
    }
    lemma_p_view_is(t, pdata_view(k, m));
}

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::try_from_data
%attr
#[verifier::loop_isolation(false)]
%spec
    requires
        <T as IntoSpec<KPuzzle>>::obeys_into_spec(),
        IntoSpec::into_spec($p0).wf(),
    ensures
        r is Ok <==> pdata_ok(IntoSpec::into_spec($p0), $p1@),
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.k() == IntoSpec::into_spec($p0) && r->Ok_0.view() == pdata_view(r->Ok_0.k(), $p1@),
        r is Err ==> r->Err_0 is InvalidKPatternData,
%hint start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost vx_k = IntoSpec::into_spec($p0);
    proof { axiom_name_key(); }
%loop 0 it
    invariant
        vx_k.wf(),
        vstd::std_specs::hash::obeys_key_model::<KPuzzleOrbitName>(),
        new_kpattern.packed_orbit_data.wf(),
        new_kpattern.k() == vx_k,
        it.seq().len() == vx_k.orbits().len(),
        forall|j: int| 0 <= j < vx_k.orbits().len() ==> *#[trigger] it.seq()[j] == vx_k.orbits()[j],
        forall|j: int| 0 <= j < it.index@ ==> pdata_has($p1@, #[trigger] vx_k.orbits()[j]),
        forall|j: int, i: int| j < it.index@ && #[trigger] vx_k.pos(j, i) ==> pcell_is(&new_kpattern, $p1@, j, i),
%hint loopstart 0
    let ghost vx_j = it.index@;
    proof {
        lemma_orbit(vx_k, vx_j);
        assert(pdata_ok(vx_k, $p1@) ==> pdata_has($p1@, vx_k.orbits()[vx_j]));
    }
%loop 1 it2
    invariant
        pdata_ok(vx_k, $p1@) ==> pdata_orbit_ok(*$for0, *default_orbit),
        vx_k.wf(),
        new_kpattern.packed_orbit_data.wf(),
        new_kpattern.k() == vx_k,
        0 <= vx_j < vx_k.orbits().len(),
        *$for0 == vx_k.orbits()[vx_j],
        vx_k.has(*$for0),
        1 <= $for0.num_orientations <= 107,
        forall|j2: int| 0 <= j2 < vx_k.orbits().len() && vx_k.np(j2) > 0 && #[trigger] vx_k.orbits()[j2] == *$for0 ==> j2 == vx_j,
        $p1@.contains_key($for0.name),
        *default_orbit == $p1@[$for0.name],
        default_orbit.pieces@.len() == $for0.num_pieces,
        default_orbit.orientation@.len() == $for0.num_pieces,
        default_orbit.orientation_mod is Some ==> default_orbit.orientation_mod->0@.len() == $for0.num_pieces,
        it2.seq().len() == $for0.num_pieces,
        forall|i: int| 0 <= i < it2.seq().len() ==> #[trigger] it2.seq()[i] == i,
        forall|i: int| 0 <= i < it2.index@ ==> #[trigger] pdata_entry_ok(*$for0, *default_orbit, i),
        forall|j: int| 0 <= j < vx_j ==> pdata_has($p1@, #[trigger] vx_k.orbits()[j]),
        forall|j: int, i: int| (j < vx_j || j == vx_j && i < it2.index@) && #[trigger] vx_k.pos(j, i) ==> pcell_is(&new_kpattern, $p1@, j, i),
%hint loopstart 1
    proof {
        assert(pdata_orbit_ok(*$for0, *default_orbit) ==> pdata_entry_ok(*$for0, *default_orbit, $for1 as int));
        assert(vx_k.pos(vx_j, $for1 as int));
    }
    let ghost vx_t0 = new_kpattern;
%hint loopend 1
    proof {
        let d = *default_orbit;
        let i = $for1 as int;
        assert(pdata_entry_ok(*$for0, d, i));
        assert(pcell_is(&new_kpattern, $p1@, vx_j, i));
        assert forall|j2: int, i2: int| vx_k.pos(j2, i2) && !(j2 == vx_j && i2 == i) && #[trigger] pcell_is(&vx_t0, $p1@, j2, i2)
            implies pcell_is(&new_kpattern, $p1@, j2, i2) by {
            assert(new_kpattern.packed_orbit_data.pj(j2, i2) == vx_t0.packed_orbit_data.pj(j2, i2));
            assert(new_kpattern.packed_orbit_data.oj(j2, i2) == vx_t0.packed_orbit_data.oj(j2, i2));
        }
    }
%hint tail
    proof { lemma_pdata_done(&new_kpattern, $p1@); }

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::try_from_json
%spec
    requires
        <T as IntoSpec<KPuzzle>>::obeys_into_spec(),
        IntoSpec::into_spec($p0).wf(),
    ensures
        r is Ok <==> serde_json::decode::<KPatternData>($p1@) is Some && pdata_ok(IntoSpec::into_spec($p0), serde_json::decode::<KPatternData>($p1@)->0@),
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.k() == IntoSpec::into_spec($p0)
            && r->Ok_0.view() == pdata_view(IntoSpec::into_spec($p0), serde_json::decode::<KPatternData>($p1@)->0@),

@raw
/// No later orbit has the same name (orbit names are normally distinct).
pub open spec fn last_named(k: KPuzzle, j: int) -> bool {
    forall|j2: int| j < j2 < k.orbits().len() ==> (#[trigger] k.orbits()[j2]).name != k.orbits()[j].name
}

pub open spec fn distinct_names(k: KPuzzle) -> bool {
    forall|j1: int, j2: int| 0 <= j1 < k.orbits().len() && 0 <= j2 < k.orbits().len() && j1 != j2 ==>
        (#[trigger] k.orbits()[j1]).name != (#[trigger] k.orbits()[j2]).name
}

pub open spec fn named(k: KPuzzle, n: KPuzzleOrbitName) -> bool {
    exists|j: int| 0 <= j < k.orbits().len() && (#[trigger] k.orbits()[j]).name == n
}

/// Orbit data `d` lists the entries of orbit `j`.
pub open spec fn tlists(t: &KTransformation, j: int, d: KTransformationOrbitData) -> bool {
    &&& d.permutation@.len() == t.k().np(j)
    &&& d.orientation_delta@.len() == t.k().np(j)
    &&& forall|i: int| 0 <= i < t.k().np(j) ==> #[trigger] d.permutation@[i] == t.p(j, i)
    &&& forall|i: int| 0 <= i < t.k().np(j) ==> #[trigger] d.orientation_delta@[i] == t.d(j, i)
}

pub open spec fn plists(t: &KPattern, j: int, d: KPatternOrbitData) -> bool {
    &&& d.pieces@.len() == t.k().np(j)
    &&& d.orientation@.len() == t.k().np(j)
    &&& d.orientation_mod is Some
    &&& d.orientation_mod->0@.len() == t.k().np(j)
    &&& forall|i: int| 0 <= i < t.k().np(j) ==> #[trigger] d.pieces@[i] == t.piece(j, i)
    &&& forall|i: int| 0 <= i < t.k().np(j) ==> #[trigger] d.orientation@[i] == t.unp(j, i).orientation
    &&& forall|i: int| 0 <= i < t.k().np(j) ==> #[trigger] d.orientation_mod->0@[i] == t.unp(j, i).orientation_mod
}

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformation::to_data
%spec
    requires
        self.wf(),
    ensures
        forall|n: KPuzzleOrbitName| #[trigger] r@.contains_key(n) ==> named(self.k(), n),
        forall|j: int| 0 <= j < self.k().orbits().len() ==> r@.contains_key((#[trigger] self.k().orbits()[j]).name),
        forall|j: int| 0 <= j < self.k().orbits().len() && last_named(self.k(), j) ==> tlists(self, j, r@[(#[trigger] self.k().orbits()[j]).name]),
        distinct_names(self.k()) && self.valid() ==> tdata_ok(self.k(), r@) && tdata_view(self.k(), r@) == self.view(),
%hint start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { axiom_name_key(); }
%loop 0 it
    invariant
        self.wf(),
        vstd::std_specs::hash::obeys_key_model::<KPuzzleOrbitName>(),
        it.seq().len() == self.k().orbits().len(),
        forall|j: int| 0 <= j < self.k().orbits().len() ==> *#[trigger] it.seq()[j] == self.k().orbits()[j],
        forall|n: KPuzzleOrbitName| #[trigger] data@.contains_key(n) ==> named(self.k(), n),
        forall|j: int| 0 <= j < it.index@ ==> data@.contains_key((#[trigger] self.k().orbits()[j]).name),
        forall|j: int| 0 <= j < it.index@ && last_named(self.k(), j) ==> tlists(self, j, data@[(#[trigger] self.k().orbits()[j]).name]),
%hint loopstart 0
    let ghost vx_j = it.index@;
    let ghost vx_d0 = data@;
    proof { lemma_orbit(self.k(), vx_j); }
%loop 1 it2
    invariant
        self.wf(),
        0 <= vx_j < self.k().orbits().len(),
        *$for0 == self.k().orbits()[vx_j],
        self.k().has(*$for0),
        it2.seq().len() == $for0.num_pieces,
        forall|i: int| 0 <= i < it2.seq().len() ==> #[trigger] it2.seq()[i] == i,
        $let{field:permutation or Vec::with_capacity or vec![] or Vec::new()#0}@.len() == it2.index@,
        $let{field:orientation_delta or Vec::with_capacity or vec![] or Vec::new()#1}@.len() == it2.index@,
        forall|i: int| 0 <= i < it2.index@ ==> #[trigger] $let{field:permutation or Vec::with_capacity or vec![] or Vec::new()#0}@[i] == self.p(vx_j, i),
        forall|i: int| 0 <= i < it2.index@ ==> #[trigger] $let{field:orientation_delta or Vec::with_capacity or vec![] or Vec::new()#1}@[i] == self.d(vx_j, i),
%hint loopstart 1
    proof {
        assert(self.k().pos(vx_j, $for1 as int));
        assert(self.cell_ok(vx_j, $for1 as int));
    }
%hint loopend 0
    proof {
        assert(data@ == vx_d0.insert($for0.name, data@[$for0.name]));
        assert forall|j: int| 0 <= j <= vx_j && last_named(self.k(), j) implies tlists(self, j, data@[(#[trigger] self.k().orbits()[j]).name]) by {
            if j < vx_j { assert(self.k().orbits()[vx_j].name != self.k().orbits()[j].name); }
        }
    }
%hint tail
    proof { if distinct_names(self.k()) && self.valid() { lemma_tdata_round(self, data@); } }
%alt
%hint start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { axiom_name_key(); }
%loop 0 it
    invariant
        self.wf(),
        vstd::std_specs::hash::obeys_key_model::<KPuzzleOrbitName>(),
        it.seq().len() == self.k().orbits().len(),
        forall|j: int| 0 <= j < self.k().orbits().len() ==> *#[trigger] it.seq()[j] == self.k().orbits()[j],
        forall|n: KPuzzleOrbitName| #[trigger] data@.contains_key(n) ==> named(self.k(), n),
        forall|j: int| 0 <= j < it.index@ ==> data@.contains_key((#[trigger] self.k().orbits()[j]).name),
        forall|j: int| 0 <= j < it.index@ && last_named(self.k(), j) ==> tlists(self, j, data@[(#[trigger] self.k().orbits()[j]).name]),
%hint loopstart 0
    let ghost vx_j = it.index@;
    let ghost vx_d0 = data@;
    proof { lemma_orbit(self.k(), vx_j); }
%loop 1 it2
    invariant
        self.wf(),
        0 <= vx_j < self.k().orbits().len(),
        *$for0 == self.k().orbits()[vx_j],
        self.k().has(*$for0),
        it2.seq().len() == $for0.num_pieces,
        forall|i: int| 0 <= i < it2.seq().len() ==> #[trigger] it2.seq()[i] == i,
        $let{=Vec::with_capacity(0)#0}@.len() == it2.index@,
        forall|i: int| 0 <= i < it2.index@ ==> #[trigger] $let{=Vec::with_capacity(0)#0}@[i] == self.p(vx_j, i),
%hint loopstart 1
    proof {
        assert(self.k().pos(vx_j, $for1 as int));
        assert(self.cell_ok(vx_j, $for1 as int));
    }
%loop 2 it3
    invariant
        self.wf(),
        0 <= vx_j < self.k().orbits().len(),
        *$for0 == self.k().orbits()[vx_j],
        self.k().has(*$for0),
        it3.seq().len() == $for0.num_pieces,
        forall|i: int| 0 <= i < it3.seq().len() ==> #[trigger] it3.seq()[i] == i,
        $let{=Vec::with_capacity(0)#1}@.len() == it3.index@,
        forall|i: int| 0 <= i < it3.index@ ==> #[trigger] $let{=Vec::with_capacity(0)#1}@[i] == self.d(vx_j, i),
%hint loopstart 2
    proof {
        assert(self.k().pos(vx_j, $for2 as int));
        assert(self.cell_ok(vx_j, $for2 as int));
    }
%hint loopend 0
    proof {
        assert(data@ == vx_d0.insert($for0.name, data@[$for0.name]));
        assert forall|j: int| 0 <= j <= vx_j && last_named(self.k(), j) implies tlists(self, j, data@[(#[trigger] self.k().orbits()[j]).name]) by {
            if j < vx_j { assert(self.k().orbits()[vx_j].name != self.k().orbits()[j].name); }
        }
    }
%hint tail
    proof { if distinct_names(self.k()) && self.valid() { lemma_tdata_round(self, data@); } }

@raw
pub proof fn lemma_tdata_round(t: &KTransformation, m: TData)
    requires
        t.valid(),
        distinct_names(t.k()),
        forall|j: int| 0 <= j < t.k().orbits().len() ==> m.contains_key((#[trigger] t.k().orbits()[j]).name),
        forall|j: int| 0 <= j < t.k().orbits().len() && last_named(t.k(), j) ==> tlists(t, j, m[(#[trigger] t.k().orbits()[j]).name]),
    ensures
        tdata_ok(t.k(), m),
        tdata_view(t.k(), m) == t.view(),
{
    let k = t.k();
    lemma_t_view(t);
    assert forall|j: int| 0 <= j < k.orbits().len() implies tdata_has(m, #[trigger] k.orbits()[j]) && tlists(t, j, m[k.orbits()[j].name]) by {
        assert(last_named(k, j)) by {
            assert forall|j2: int| j < j2 < k.orbits().len() implies (#[trigger] k.orbits()[j2]).name != k.orbits()[j].name by {}
        }
        let d = m[k.orbits()[j].name];
        assert(tlists(t, j, d));
        assert forall|i: int| 0 <= i < k.np(j) implies #[trigger] tdata_entry_ok(k.orbits()[j], d, i) by {
            assert(k.pos(j, i));
            assert(t.cell_ok(j, i));
            assert forall|h: int| 0 <= h < i implies #[trigger] d.permutation@[h] != d.permutation@[i] by {
                assert(k.pos(j, h));
                assert(t.cell_ok(j, h));
                assert(at(k.shape(), j, h) && at(k.shape(), j, i));
                assert(t.view()[j][h].0 != t.view()[j][i].0);
            }
        }
    }
    assert forall|j: int, i: int| #[trigger] at(k.shape(), j, i) implies tdata_view(k, m)[j][i] == t.view()[j][i] by {
        assert(k.pos(j, i));
        let d = m[k.orbits()[j].name];
        assert(tlists(t, j, d));
        assert(d.permutation@[i] == t.p(j, i));
        assert(d.orientation_delta@[i] == t.d(j, i));
    }
    lemma_tv_ext(k.shape(), tdata_view(k, m), t.view());
}

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::to_data
%spec
    requires
        self.wf(),
    ensures
        forall|n: KPuzzleOrbitName| #[trigger] r@.contains_key(n) ==> named(self.k(), n),
        forall|j: int| 0 <= j < self.k().orbits().len() ==> r@.contains_key((#[trigger] self.k().orbits()[j]).name),
        forall|j: int| 0 <= j < self.k().orbits().len() && last_named(self.k(), j) ==> plists(self, j, r@[(#[trigger] self.k().orbits()[j]).name]),
        distinct_names(self.k()) ==> pdata_ok(self.k(), r@) && pdata_view(self.k(), r@) == self.view(),
%hint start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { axiom_name_key(); }
%loop 0 it
    invariant
        self.wf(),
        vstd::std_specs::hash::obeys_key_model::<KPuzzleOrbitName>(),
        it.seq().len() == self.k().orbits().len(),
        forall|j: int| 0 <= j < self.k().orbits().len() ==> *#[trigger] it.seq()[j] == self.k().orbits()[j],
        forall|n: KPuzzleOrbitName| #[trigger] data@.contains_key(n) ==> named(self.k(), n),
        forall|j: int| 0 <= j < it.index@ ==> data@.contains_key((#[trigger] self.k().orbits()[j]).name),
        forall|j: int| 0 <= j < it.index@ && last_named(self.k(), j) ==> plists(self, j, data@[(#[trigger] self.k().orbits()[j]).name]),
%hint loopstart 0
    let ghost vx_j = it.index@;
    let ghost vx_d0 = data@;
    proof { lemma_orbit(self.k(), vx_j); }
%loop 1 it2
    invariant
        self.wf(),
        0 <= vx_j < self.k().orbits().len(),
        *$for0 == self.k().orbits()[vx_j],
        self.k().has(*$for0),
        it2.seq().len() == $for0.num_pieces,
        forall|i: int| 0 <= i < it2.seq().len() ==> #[trigger] it2.seq()[i] == i,
        $let{field:pieces or Vec::with_capacity or vec![] or Vec::new()#0}@.len() == it2.index@,
        $let{field:orientation or Vec::with_capacity or vec![] or Vec::new()#1}@.len() == it2.index@,
        $let{field:orientation_mod or Vec::with_capacity or vec![] or Vec::new()#2}@.len() == it2.index@,
        forall|i: int| 0 <= i < it2.index@ ==> #[trigger] $let{field:pieces or Vec::with_capacity or vec![] or Vec::new()#0}@[i] == self.piece(vx_j, i),
        forall|i: int| 0 <= i < it2.index@ ==> #[trigger] $let{field:orientation or Vec::with_capacity or vec![] or Vec::new()#1}@[i] == self.unp(vx_j, i).orientation,
        forall|i: int| 0 <= i < it2.index@ ==> #[trigger] $let{field:orientation_mod or Vec::with_capacity or vec![] or Vec::new()#2}@[i] == self.unp(vx_j, i).orientation_mod,
%hint loopstart 1
    proof {
        assert(self.k().pos(vx_j, $for1 as int));
        assert(self.cell_ok(vx_j, $for1 as int));
    }
%hint loopend 0
    proof {
        assert(data@ == vx_d0.insert($for0.name, data@[$for0.name]));
        assert forall|j: int| 0 <= j <= vx_j && last_named(self.k(), j) implies plists(self, j, data@[(#[trigger] self.k().orbits()[j]).name]) by {
            if j < vx_j { assert(self.k().orbits()[vx_j].name != self.k().orbits()[j].name); }
        }
    }
%hint tail
    proof { if distinct_names(self.k()) { lemma_pdata_round(self, data@); } }
%alt
%hint start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { axiom_name_key(); }
%loop 0 it
    invariant
        self.wf(),
        vstd::std_specs::hash::obeys_key_model::<KPuzzleOrbitName>(),
        it.seq().len() == self.k().orbits().len(),
        forall|j: int| 0 <= j < self.k().orbits().len() ==> *#[trigger] it.seq()[j] == self.k().orbits()[j],
        forall|n: KPuzzleOrbitName| #[trigger] data@.contains_key(n) ==> named(self.k(), n),
        forall|j: int| 0 <= j < it.index@ ==> data@.contains_key((#[trigger] self.k().orbits()[j]).name),
        forall|j: int| 0 <= j < it.index@ && last_named(self.k(), j) ==> plists(self, j, data@[(#[trigger] self.k().orbits()[j]).name]),
%hint loopstart 0
    let ghost vx_j = it.index@;
    let ghost vx_d0 = data@;
    proof { lemma_orbit(self.k(), vx_j); }
%loop 1 it2
    invariant
        self.wf(),
        0 <= vx_j < self.k().orbits().len(),
        *$for0 == self.k().orbits()[vx_j],
        self.k().has(*$for0),
        it2.seq().len() == $for0.num_pieces,
        forall|i: int| 0 <= i < it2.seq().len() ==> #[trigger] it2.seq()[i] == i,
        $let{=Vec::with_capacity(0)#0}@.len() == it2.index@,
        forall|i: int| 0 <= i < it2.index@ ==> #[trigger] $let{=Vec::with_capacity(0)#0}@[i] == self.piece(vx_j, i),
%hint loopstart 1
    proof {
        assert(self.k().pos(vx_j, $for1 as int));
        assert(self.cell_ok(vx_j, $for1 as int));
    }
%loop 2 it3
    invariant
        self.wf(),
        0 <= vx_j < self.k().orbits().len(),
        *$for0 == self.k().orbits()[vx_j],
        self.k().has(*$for0),
        it3.seq().len() == $for0.num_pieces,
        forall|i: int| 0 <= i < it3.seq().len() ==> #[trigger] it3.seq()[i] == i,
        $let{=Vec::with_capacity(0)#1}@.len() == it3.index@,
        forall|i: int| 0 <= i < it3.index@ ==> #[trigger] $let{=Vec::with_capacity(0)#1}@[i] == self.unp(vx_j, i).orientation,
%hint loopstart 2
    proof {
        assert(self.k().pos(vx_j, $for2 as int));
        assert(self.cell_ok(vx_j, $for2 as int));
    }
%loop 3 it4
    invariant
        self.wf(),
        0 <= vx_j < self.k().orbits().len(),
        *$for0 == self.k().orbits()[vx_j],
        self.k().has(*$for0),
        it4.seq().len() == $for0.num_pieces,
        forall|i: int| 0 <= i < it4.seq().len() ==> #[trigger] it4.seq()[i] == i,
        $let{=Vec::with_capacity(0)#2}@.len() == it4.index@,
        forall|i: int| 0 <= i < it4.index@ ==> #[trigger] $let{=Vec::with_capacity(0)#2}@[i] == self.unp(vx_j, i).orientation_mod,
%hint loopstart 3
    proof {
        assert(self.k().pos(vx_j, $for3 as int));
        assert(self.cell_ok(vx_j, $for3 as int));
    }
%hint loopend 0
    proof {
        assert(data@ == vx_d0.insert($for0.name, data@[$for0.name]));
        assert forall|j: int| 0 <= j <= vx_j && last_named(self.k(), j) implies plists(self, j, data@[(#[trigger] self.k().orbits()[j]).name]) by {
            if j < vx_j { assert(self.k().orbits()[vx_j].name != self.k().orbits()[j].name); }
        }
    }
%hint tail
    proof { if distinct_names(self.k()) { lemma_pdata_round(self, data@); } }

@raw
pub proof fn lemma_pdata_round(t: &KPattern, m: PData)
    requires
        t.wf(),
        distinct_names(t.k()),
        forall|j: int| 0 <= j < t.k().orbits().len() ==> m.contains_key((#[trigger] t.k().orbits()[j]).name),
        forall|j: int| 0 <= j < t.k().orbits().len() && last_named(t.k(), j) ==> plists(t, j, m[(#[trigger] t.k().orbits()[j]).name]),
    ensures
        pdata_ok(t.k(), m),
        pdata_view(t.k(), m) == t.view(),
{
    let k = t.k();
    lemma_p_view(t);
    assert forall|j: int| 0 <= j < k.orbits().len() implies pdata_has(m, #[trigger] k.orbits()[j]) && plists(t, j, m[k.orbits()[j].name]) by {
        assert(last_named(k, j)) by {
            assert forall|j2: int| j < j2 < k.orbits().len() implies (#[trigger] k.orbits()[j2]).name != k.orbits()[j].name by {}
        }
        let d = m[k.orbits()[j].name];
        assert(plists(t, j, d));
        assert forall|i: int| 0 <= i < k.np(j) implies #[trigger] pdata_entry_ok(k.orbits()[j], d, i) by {
            assert(k.pos(j, i));
            assert(t.cell_ok(j, i));
            assert(d.orientation@[i] == t.unp(j, i).orientation);
            assert(d.orientation_mod->0@[i] == t.unp(j, i).orientation_mod);
        }
    }
    assert forall|j: int, i: int| #[trigger] at(k.shape(), j, i) implies pdata_view(k, m)[j][i] == t.view()[j][i] by {
        assert(k.pos(j, i));
        assert(t.cell_ok(j, i));
        let d = m[k.orbits()[j].name];
        assert(plists(t, j, d));
        assert(d.pieces@[i] == t.piece(j, i));
        assert(d.orientation@[i] == t.unp(j, i).orientation);
        assert(d.orientation_mod->0@[i] == t.unp(j, i).orientation_mod);
    }
    lemma_pv_ext(k.shape(), pdata_view(k, m), t.view());
}

@raw
} // verus!
