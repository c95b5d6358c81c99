@raw
verus! {

// ---------------------------------------------------------------------------
// Building a puzzle
// ---------------------------------------------------------------------------

global size_of usize == 8;

pub open spec fn into_ok<T: Into<U>, U>(t: T) -> bool {
    <T as IntoSpec<U>>::obeys_into_spec()
}

pub open spec fn into_of<T: Into<U>, U>(t: T) -> U {
    <T as IntoSpec<U>>::into_spec(t)
}

/// Supported numbers of orientations.
pub open spec fn orbits_ok(d: KPuzzleDefinition) -> bool {
    forall|j: int| 0 <= j < d.orbits@.len() ==> 1 <= (#[trigger] d.orbits@[j]).num_orientations <= 107
}

/// The orbit data is a permutation of the pieces with deltas in range.
pub open spec fn def_tdata_orbit_ok(o: KPuzzleOrbitDefinition, m: TData) -> bool {
    let e = m[o.orbit_name];
    &&& m.contains_key(o.orbit_name)
    &&& e.permutation@.len() == o.num_pieces
    &&& e.orientation_delta@.len() == o.num_pieces
    &&& forall|i: int| 0 <= i < o.num_pieces ==> (#[trigger] e.permutation@[i]) < o.num_pieces
    &&& forall|i: int| 0 <= i < o.num_pieces ==> (#[trigger] e.orientation_delta@[i]) < o.num_orientations
    &&& forall|h: int, i: int| 0 <= h < i < o.num_pieces ==> #[trigger] e.permutation@[h] != #[trigger] e.permutation@[i]
}

pub open spec fn def_tdata_ok(d: KPuzzleDefinition, m: TData) -> bool {
    forall|j: int| 0 <= j < d.orbits@.len() ==> def_tdata_orbit_ok(#[trigger] d.orbits@[j], m)
}

pub open spec fn def_moves_ok(d: KPuzzleDefinition) -> bool {
    forall|m: Move| #[trigger] d.mv().contains_key(m) ==> def_tdata_ok(d, d.mv()[m]@)
}

/// The definitions that make a puzzle.
pub open spec fn def_valid(d: KPuzzleDefinition) -> bool {
    &&& acyclic(d)
    &&& orbits_ok(d)
    &&& def_moves_ok(d)
}

pub proof fn lemma_def_tdata(k: KPuzzle, m: TData)
    requires
        k.wf(),
    ensures
        tdata_ok(k, m) == def_tdata_ok(k.def(), m),
{
    let d = k.def();
    if tdata_ok(k, m) {
        assert forall|j: int| 0 <= j < d.orbits@.len() implies def_tdata_orbit_ok(#[trigger] d.orbits@[j], m) by {
            assert(tdata_has(m, k.orbits()[j]));
            assert(k.orbits()[j].matches(d.orbits@[j]));
            let e = m[k.orbits()[j].name];
            assert forall|i: int| 0 <= i < d.orbits@[j].num_pieces implies (#[trigger] e.permutation@[i]) < d.orbits@[j].num_pieces by {
                assert(tdata_entry_ok(k.orbits()[j], e, i));
            }
            assert forall|i: int| 0 <= i < d.orbits@[j].num_pieces implies (#[trigger] e.orientation_delta@[i]) < d.orbits@[j].num_orientations by {
                assert(tdata_entry_ok(k.orbits()[j], e, i));
            }
            assert forall|h: int, i: int| 0 <= h < i < d.orbits@[j].num_pieces implies #[trigger] e.permutation@[h] != #[trigger] e.permutation@[i] by {
                assert(tdata_entry_ok(k.orbits()[j], e, i));
            }
        }
    }
    if def_tdata_ok(d, m) {
        assert forall|j: int| 0 <= j < k.orbits().len() implies tdata_has(m, #[trigger] k.orbits()[j]) by {
            assert(k.orbits()[j].matches(d.orbits@[j]));
            assert(def_tdata_orbit_ok(d.orbits@[j], m));
        }
    }
}

/// Orbits laid out one after the other in `n` bytes.
pub open spec fn laid_out(os: Seq<KPuzzleOrbitInfo>, n: int) -> bool {
    &&& 0 <= n
    &&& forall|j: int| 0 <= j < os.len() ==> (#[trigger] os[j]).wf(n)
    &&& forall|j: int, k: int| 0 <= j < os.len() && 0 <= k < os.len() && j != k ==> (#[trigger] os[j]).apart_from(#[trigger] os[k])
    &&& forall|b: int| 0 <= b < n ==> #[trigger] os_cover(os, b)
}

pub open spec fn os_cover(os: Seq<KPuzzleOrbitInfo>, b: int) -> bool {
    exists|j: int| 0 <= j < os.len() && (#[trigger] os[j]).covers(b)
}

pub proof fn lemma_laid_out(os: Seq<KPuzzleOrbitInfo>, n: int, ob: KPuzzleOrbitInfo)
    requires
        laid_out(os, n),
        ob.orientation_packer.wf(ob.no()),
        ob.poff() == n,
        ob.ooff() == n + ob.np(),
    ensures
        laid_out(os.push(ob), n + 2 * ob.np()),
{
    let os2 = os.push(ob);
    let n2 = n + 2 * ob.np();
    assert forall|j: int| 0 <= j < os2.len() implies (#[trigger] os2[j]).wf(n2) by {
        if j < os.len() { assert(os2[j] == os[j]); assert(os[j].wf(n)); }
    }
    assert forall|j: int, k: int| 0 <= j < os2.len() && 0 <= k < os2.len() && j != k implies (#[trigger] os2[j]).apart_from(#[trigger] os2[k]) by {
        if j < os.len() { assert(os2[j] == os[j]); assert(os[j].wf(n)); }
        if k < os.len() { assert(os2[k] == os[k]); assert(os[k].wf(n)); }
    }
    assert forall|b: int| 0 <= b < n2 implies #[trigger] os_cover(os2, b) by {
        if b < n {
            assert(os_cover(os, b));
            let j = choose|j: int| 0 <= j < os.len() && (#[trigger] os[j]).covers(b);
            assert(os2[j].covers(b));
        } else {
            assert(os2[os.len() as int].covers(b));
        }
    }
}

@item cubing_core/src/kpuzzle/packed/kpuzzle.rs const MAX_NUM_ORIENTATIONS_INCLUSIVE

@fn cubing_core/src/kpuzzle/packed/kpuzzle.rs KPuzzle::try_new
%attr
#[verifier::loop_isolation(false)]
%spec
    requires
        into_ok::<_, Arc<KPuzzleDefinition>>($p0),
        def_amounts_ok(*into_of::<_, Arc<KPuzzleDefinition>>($p0)),
        into_of::<_, Arc<KPuzzleDefinition>>($p0).orbits@.len() <= 0x100_0000_0000,
    ensures
        r is Ok <==> def_valid(*into_of::<_, Arc<KPuzzleDefinition>>($p0)),
        r is Ok ==> r->Ok_0.ready() && r->Ok_0.def() == *into_of::<_, Arc<KPuzzleDefinition>>($p0),
%hint start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost vx_da = into_of::<_, Arc<KPuzzleDefinition>>($p0);
    proof { axiom_move_key(); }
%loop 0 it
    invariant
        *$let{into} == *vx_da,
        acyclic(*vx_da),
        vx_da.orbits@.len() <= 0x100_0000_0000,
        it.seq().len() == vx_da.orbits@.len(),
        forall|j: int| 0 <= j < vx_da.orbits@.len() ==> *#[trigger] it.seq()[j] == vx_da.orbits@[j],
        $let{vec!}@.len() == it.index@,
        laid_out($let{vec!}@, $let{0} as int),
        $let{0} <= it.index@ * 510,
        forall|j: int| 0 <= j < it.index@ ==> (#[trigger] $let{vec!}@[j]).matches(vx_da.orbits@[j]),
        forall|j: int| 0 <= j < it.index@ ==> 1 <= (#[trigger] vx_da.orbits@[j]).num_orientations <= 107,
%hint loopstart 0
    let ghost vx_j = it.index@;
    let ghost vx_os = $let{vec!}@;
    let ghost vx_n = $let{0} as int;
    proof {
        assert(*it.seq()[vx_j] == vx_da.orbits@[vx_j]);
        assert(orbits_ok(*vx_da) ==> 1 <= vx_da.orbits@[vx_j].num_orientations <= 107);
    }
%hint loopend 0
    proof {
        let ob = $let{vec!}@.last();
        assert($let{vec!}@ =~= vx_os.push(ob));
        lemma_laid_out(vx_os, vx_n, ob);
    }
%closure 0
|vx_e: std::alloc::LayoutError| -> (vx_x: InvalidDefinitionError)
    ensures
        true,
%hint before 1
    proof {
        let k = $let{KPuzzleData};
        assert(k.size() == if $let{0} >= 1 { $let{0} as int } else { 1 });
        assert(laid_out(k.orbits(), k.data.num_bytes as int));
        assert forall|b: int| 0 <= b < k.data.num_bytes implies #[trigger] k.covered(b) by { assert(os_cover(k.orbits(), b)); }
        assert(k.wf());
    }
%loop 1 it
    invariant
        forall|m: Move| #[trigger] vx_da.mv().contains_key(m) ==> exists|j: int| 0 <= j < it.seq().len() && *(#[trigger] it.seq()[j]).0 == m,
        forall|j: int| 0 <= j < it.seq().len() ==> vx_da.mv().contains_key(*(#[trigger] it.seq()[j]).0) && vx_da.mv()[*it.seq()[j].0] == *it.seq()[j].1,
        forall|j: int| 0 <= j < it.index@ ==> tdata_ok($let{KPuzzleData}, (*(#[trigger] it.seq()[j]).1)@),
%hint loopstart 1
    proof {
        let e = it.seq()[it.index@];
        assert(vx_da.mv().contains_key(*e.0));
        lemma_def_tdata($let{KPuzzleData}, (*e.1)@);
    }
%hint after 1
    proof {
        assert forall|m: Move| #[trigger] vx_da.mv().contains_key(m) implies tdata_ok($let{KPuzzleData}, vx_da.mv()[m]@) && def_tdata_ok(*vx_da, vx_da.mv()[m]@) by {
            lemma_def_tdata($let{KPuzzleData}, vx_da.mv()[m]@);
        }
    }

@raw
} // verus!
