@raw
verus! {

// ---------------------------------------------------------------------------
// KPattern: specification
// ---------------------------------------------------------------------------

impl KPattern {
    pub open spec fn k(&self) -> KPuzzle {
        self.packed_orbit_data.kpuzzle
    }

    pub open spec fn piece(&self, j: int, i: int) -> int {
        self.packed_orbit_data.pj(j, i)->0 as int
    }

    pub open spec fn packed(&self, j: int, i: int) -> int {
        self.packed_orbit_data.oj(j, i)->0 as int
    }

    pub open spec fn unp(&self, j: int, i: int) -> OrientationWithMod {
        self.k().orbits()[j].orientation_packer.unp(self.packed(j, i))
    }

    pub open spec fn cell(&self, j: int, i: int) -> (int, int, int) {
        (self.piece(j, i), self.unp(j, i).orientation as int, self.unp(j, i).orientation_mod as int)
    }

    pub open spec fn cell_ok(&self, j: int, i: int) -> bool {
        &&& self.packed_orbit_data.pj(j, i) is Some
        &&& self.packed_orbit_data.oj(j, i) is Some
        &&& self.k().orbits()[j].orientation_packer.is_packed(self.k().no(j), self.packed(j, i))
    }

    /// Memory is owned, every piece is written and every orientation is the packed form of a valid pair.
    pub open spec fn wf(&self) -> bool {
        &&& self.packed_orbit_data.wf()
        &&& forall|j: int, i: int| #[trigger] self.k().pos(j, i) ==> self.cell_ok(j, i)
    }

    pub open spec fn shape(&self) -> Shape {
        self.k().shape()
    }

    pub open spec fn view(&self) -> PV {
        Seq::new(self.k().orbits().len(), |j: int| Seq::new(self.k().np(j) as nat, |i: int| self.cell(j, i)))
    }
}

pub proof fn lemma_p_view(t: &KPattern)
    requires
        t.wf(),
    ensures
        shape_ok(t.shape()),
        t.shape().len() == t.k().orbits().len(),
        pvalid(t.shape(), t.view()),
        forall|j: int, i: int| #[trigger] at(t.shape(), j, i) == t.k().pos(j, i),
        forall|j: int, i: int| #[trigger] t.k().pos(j, i) == at(t.shape(), j, i),
        forall|j: int, i: int| #[trigger] t.k().pos(j, i) ==> t.view()[j][i] == t.cell(j, i),
{
    lemma_shape(t.k());
    assert forall|j: int, i: int| #[trigger] at(t.shape(), j, i) implies stored_pair(t.view()[j][i].1, t.view()[j][i].2, t.shape()[j].1) by {
        assert(t.k().pos(j, i));
        assert(t.cell_ok(j, i));
    }
}

pub proof fn lemma_p_view_is(t: &KPattern, v: PV)
    requires
        t.wf(),
        pshaped(t.shape(), v),
        forall|j: int, i: int| #[trigger] t.k().pos(j, i) ==> v[j][i] == t.cell(j, i),
    ensures
        t.view() == v,
{
    lemma_p_view(t);
    lemma_pv_ext(t.shape(), t.view(), v);
}

pub proof fn lemma_p_same(a: &KPattern, b: &KPattern)
    requires
        a.wf(),
        b.packed_orbit_data.wf(),
        a.k() == b.k(),
        forall|j: int, i: int| a.k().pos(j, i) ==> #[trigger] b.packed_orbit_data.pj(j, i) == a.packed_orbit_data.pj(j, i),
        forall|j: int, i: int| a.k().pos(j, i) ==> #[trigger] b.packed_orbit_data.oj(j, i) == a.packed_orbit_data.oj(j, i),
    ensures
        b.wf(),
        b.view() == a.view(),
{
    lemma_p_view(a);
    assert forall|j: int, i: int| #[trigger] b.k().pos(j, i) implies b.cell_ok(j, i) by {
        assert(a.cell_ok(j, i));
    }
    lemma_p_view_is(b, a.view());
}

} // verus!

@raw
verus! {

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::kpuzzle
%spec
    ensures
        *r == self.k(),

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::packed_orbit_data
%spec
    ensures
        *r == self.packed_orbit_data,

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::get_piece
%spec
    requires
        self.packed_orbit_data.wf(),
        self.k().has(*$p0),
        $p1 < $p0.num_pieces,
        self.packed_orbit_data.pv(*$p0, $p1 as int) is Some,
    ensures
        self.packed_orbit_data.pv(*$p0, $p1 as int) == Some(r),

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::get_piece_unchecked
%spec
    requires
        self.packed_orbit_data.wf(),
        self.k().has(*$p0),
        $p1 < $p0.num_pieces,
        self.packed_orbit_data.pv(*$p0, $p1 as int) is Some,
    ensures
        self.packed_orbit_data.pv(*$p0, $p1 as int) == Some(r),
%hint start
    proof { lemma_has_wf(self.k(), *$p0); }

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::get_packed_orientation_with_mod_unchecked
%spec
    requires
        self.packed_orbit_data.wf(),
        self.k().has(*$p0),
        $p1 < $p0.num_pieces,
        self.packed_orbit_data.ov(*$p0, $p1 as int) is Some,
    ensures
        self.packed_orbit_data.ov(*$p0, $p1 as int) == Some(r),
%hint start
    proof { lemma_has_wf(self.k(), *$p0); }

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::get_orientation_with_mod
%spec
    requires
        self.packed_orbit_data.wf(),
        self.k().has(*$p0),
        $p1 < $p0.num_pieces,
        self.packed_orbit_data.ov(*$p0, $p1 as int) is Some,
    ensures
        *r == $p0.orientation_packer.unp(self.packed_orbit_data.ov(*$p0, $p1 as int)->0 as int),

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::get_orientation_with_mod_unchecked
%spec
    requires
        self.packed_orbit_data.wf(),
        self.k().has(*$p0),
        $p1 < $p0.num_pieces,
        self.packed_orbit_data.ov(*$p0, $p1 as int) is Some,
    ensures
        *r == $p0.orientation_packer.unp(self.packed_orbit_data.ov(*$p0, $p1 as int)->0 as int),

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::set_piece
%spec
    requires
        old(self).packed_orbit_data.wf(),
        old(self).k().has(*$p0),
        $p1 < $p0.num_pieces,
    ensures
        final(self).packed_orbit_data.wf(),
        final(self).packed_orbit_data.set_p(&old(self).packed_orbit_data, *$p0, $p1 as int, $p2),

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::set_piece_unchecked
%spec
    requires
        old(self).packed_orbit_data.wf(),
        old(self).k().has(*$p0),
        $p1 < $p0.num_pieces,
    ensures
        final(self).packed_orbit_data.wf(),
        final(self).packed_orbit_data.set_p(&old(self).packed_orbit_data, *$p0, $p1 as int, $p2),
%hint start
    proof { lemma_has_wf(self.k(), *$p0); }
%hint end
    proof { lemma_set_p(&old(self).packed_orbit_data, &self.packed_orbit_data, *$p0, $p1 as int, $p2); }

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::set_packed_orientation_with_mod_unchecked
%spec
    requires
        old(self).packed_orbit_data.wf(),
        old(self).k().has(*$p0),
        $p1 < $p0.num_pieces,
    ensures
        final(self).packed_orbit_data.wf(),
        final(self).packed_orbit_data.set_o(&old(self).packed_orbit_data, *$p0, $p1 as int, $p2),
%hint start
    proof { lemma_has_wf(self.k(), *$p0); }
%hint end
    proof { lemma_set_o(&old(self).packed_orbit_data, &self.packed_orbit_data, *$p0, $p1 as int, $p2); }

@raw
/// The orientation byte now holds the packed form of `(o, m)`.
pub open spec fn set_pair(a: &KPattern, b: &KPattern, ob: KPuzzleOrbitInfo, i: int, o: int, m: int) -> bool {
    exists|v: u8| #[trigger] b.packed_orbit_data.set_o(&a.packed_orbit_data, ob, i, v)
        && ob.orientation_packer.is_packed(ob.no(), v as int)
        && ob.orientation_packer.unp(v as int).orientation == o
        && ob.orientation_packer.unp(v as int).orientation_mod == norm_mod(m, ob.no())
}

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::set_orientation_with_mod
%spec
    requires
        old(self).packed_orbit_data.wf(),
        old(self).k().has(*$p0),
        $p1 < $p0.num_pieces,
        valid_pair($p2.orientation as int, $p2.orientation_mod as int, $p0.no()),
    ensures
        final(self).packed_orbit_data.wf(),
        set_pair(old(self), final(self), *$p0, $p1 as int, $p2.orientation as int, $p2.orientation_mod as int),

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::set_orientation_with_mod_unchecked
%spec
    requires
        old(self).packed_orbit_data.wf(),
        old(self).k().has(*$p0),
        $p1 < $p0.num_pieces,
        valid_pair($p2.orientation as int, $p2.orientation_mod as int, $p0.no()),
    ensures
        final(self).packed_orbit_data.wf(),
        set_pair(old(self), final(self), *$p0, $p1 as int, $p2.orientation as int, $p2.orientation_mod as int),
%hint start
    proof { lemma_has_wf(self.k(), *$p0); }
%hint end
    proof {
        let v = self.packed_orbit_data.mem()[$p0.ooff() + $p1]->0;
        lemma_set_o(&old(self).packed_orbit_data, &self.packed_orbit_data, *$p0, $p1 as int, v);
    }

@raw
/// Cell `(j, i)` of `into` is the cell of `a` named by `t`, turned.
pub open spec fn act_cell(a: &KPattern, t: &KTransformation, into: &KPattern, j: int, i: int) -> bool {
    &&& into.packed_orbit_data.pj(j, i) == a.packed_orbit_data.pj(j, t.p(j, i))
    &&& into.packed_orbit_data.oj(j, i) is Some
    &&& into.cell_ok(j, i)
    &&& into.cell(j, i).1 == (a.cell(j, t.p(j, i)).1 + t.d(j, i)) % eff(a.cell(j, t.p(j, i)).2, a.k().no(j))
    &&& into.cell(j, i).2 == a.cell(j, t.p(j, i)).2
}

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::apply_transformation_into
%opt params 2
%spec
    requires
        self.wf(),
        $p0.wf(),
        old($p1).packed_orbit_data.wf(),
        self.k() == $p0.k(),
        self.k() == old($p1).k(),
    ensures
        final($p1).wf(),
        final($p1).packed_orbit_data.same_storage(&old($p1).packed_orbit_data),
        final($p1).view() == pact(self.shape(), self.view(), $p0.view()),
%loop 0 it
    invariant
        self.wf(),
        $p0.wf(),
        self.k() == $p0.k(),
        $p1.packed_orbit_data.wf(),
        $p1.packed_orbit_data.same_storage(&old($p1).packed_orbit_data),
        self.k() == $p1.k(),
        it.seq().len() == self.k().orbits().len(),
        forall|j: int| 0 <= j < self.k().orbits().len() ==> *#[trigger] it.seq()[j] == self.k().orbits()[j],
        forall|j: int, i: int| j < it.index@ && #[trigger] self.k().pos(j, i) ==> act_cell(self, $p0, $p1, j, i),
%hint loopstart 0
    let ghost vx_j = it.index@;
    proof { lemma_orbit(self.k(), vx_j); }
%loop 1 it2
    invariant
        self.wf(),
        $p0.wf(),
        self.k() == $p0.k(),
        $p1.packed_orbit_data.wf(),
        $p1.packed_orbit_data.same_storage(&old($p1).packed_orbit_data),
        self.k() == $p1.k(),
        0 <= vx_j < self.k().orbits().len(),
        *$for0 == self.k().orbits()[vx_j],
        self.k().has(*$for0),
        1 <= $for0.num_orientations <= 107,
        $for0.orientation_packer.wf($for0.no()),
        forall|j2: int| 0 <= j2 < self.k().orbits().len() && self.k().np(j2) > 0 && #[trigger] self.k().orbits()[j2] == *$for0 ==> j2 == vx_j,
        it2.seq().len() == $for0.num_pieces,
        forall|i: int| 0 <= i < it2.seq().len() ==> #[trigger] it2.seq()[i] == i,
        forall|j: int, i: int| (j < vx_j || j == vx_j && i < it2.index@) && #[trigger] self.k().pos(j, i) ==> act_cell(self, $p0, $p1, j, i),
%hint loopstart 1
    proof {
        assert(self.k().pos(vx_j, $for1 as int));
        assert($p0.cell_ok(vx_j, $for1 as int));
        assert(self.k().pos(vx_j, $p0.p(vx_j, $for1 as int)));
        assert(self.cell_ok(vx_j, $p0.p(vx_j, $for1 as int)));
    }
%hint end
    proof {
        lemma_act_done(self, $p0, $p1);
    }
%alt
%loop 0 it
    invariant
        self.wf(),
        $p0.wf(),
        self.k() == $p0.k(),
        $p1.packed_orbit_data.wf(),
        $p1.packed_orbit_data.same_storage(&old($p1).packed_orbit_data),
        self.k() == $p1.k(),
        it.seq().len() == self.k().orbits().len(),
        forall|j: int| 0 <= j < self.k().orbits().len() ==> *#[trigger] it.seq()[j] == self.k().orbits()[j],
        forall|j: int, i: int| j < it.index@ && #[trigger] self.k().pos(j, i) ==> act_cell(self, $p0, $p1, j, i),
%hint loopstart 0
    let ghost vx_j = it.index@;
    proof { lemma_orbit(self.k(), vx_j); }
%loop 1 it2
    invariant
        self.wf(),
        $p0.wf(),
        self.k() == $p0.k(),
        $p1.packed_orbit_data.wf(),
        $p1.packed_orbit_data.same_storage(&old($p1).packed_orbit_data),
        self.k() == $p1.k(),
        0 <= vx_j < self.k().orbits().len(),
        *$for0 == self.k().orbits()[vx_j],
        self.k().has(*$for0),
        1 <= $for0.num_orientations <= 107,
        $for0.orientation_packer.wf($for0.no()),
        forall|j2: int| 0 <= j2 < self.k().orbits().len() && self.k().np(j2) > 0 && #[trigger] self.k().orbits()[j2] == *$for0 ==> j2 == vx_j,
        it2.seq().len() == $for0.num_pieces,
        forall|i: int| 0 <= i < it2.seq().len() ==> #[trigger] it2.seq()[i] == i,
        forall|j: int, i: int| j < vx_j && #[trigger] self.k().pos(j, i) ==> act_cell(self, $p0, $p1, j, i),
        forall|j: int, i: int| j == vx_j && i < it2.index@ && #[trigger] self.k().pos(j, i) ==> $p1.packed_orbit_data.pj(j, i) == self.packed_orbit_data.pj(j, $p0.p(j, i)),
%hint loopstart 1
    proof {
        assert(self.k().pos(vx_j, $for1 as int));
        assert($p0.cell_ok(vx_j, $for1 as int));
        assert(self.k().pos(vx_j, $p0.p(vx_j, $for1 as int)));
        assert(self.cell_ok(vx_j, $p0.p(vx_j, $for1 as int)));
    }
%loop 2 it3
    invariant
        self.wf(),
        $p0.wf(),
        self.k() == $p0.k(),
        $p1.packed_orbit_data.wf(),
        $p1.packed_orbit_data.same_storage(&old($p1).packed_orbit_data),
        self.k() == $p1.k(),
        0 <= vx_j < self.k().orbits().len(),
        *$for0 == self.k().orbits()[vx_j],
        self.k().has(*$for0),
        1 <= $for0.num_orientations <= 107,
        $for0.orientation_packer.wf($for0.no()),
        forall|j2: int| 0 <= j2 < self.k().orbits().len() && self.k().np(j2) > 0 && #[trigger] self.k().orbits()[j2] == *$for0 ==> j2 == vx_j,
        it3.seq().len() == $for0.num_pieces,
        forall|i: int| 0 <= i < it3.seq().len() ==> #[trigger] it3.seq()[i] == i,
        forall|j: int, i: int| (j < vx_j || j == vx_j && i < it3.index@) && #[trigger] self.k().pos(j, i) ==> act_cell(self, $p0, $p1, j, i),
        forall|j: int, i: int| j == vx_j && #[trigger] self.k().pos(j, i) ==> $p1.packed_orbit_data.pj(j, i) == self.packed_orbit_data.pj(j, $p0.p(j, i)),
%hint loopstart 2
    proof {
        assert(self.k().pos(vx_j, $for2 as int));
        assert($p0.cell_ok(vx_j, $for2 as int));
        assert(self.k().pos(vx_j, $p0.p(vx_j, $for2 as int)));
        assert(self.cell_ok(vx_j, $p0.p(vx_j, $for2 as int)));
    }
%hint end
    proof {
        lemma_act_done(self, $p0, $p1);
    }

@raw
pub proof fn lemma_act_done(a: &KPattern, t: &KTransformation, into: &KPattern)
    requires
        a.wf(),
        t.wf(),
        into.packed_orbit_data.wf(),
        a.k() == t.k(),
        a.k() == into.k(),
        forall|j: int, i: int| #[trigger] a.k().pos(j, i) ==> act_cell(a, t, into, j, i),
    ensures
        into.wf(),
        into.view() == pact(a.shape(), a.view(), t.view()),
{
    lemma_p_view(a);
    lemma_t_view(t);
    assert forall|j: int, i: int| #[trigger] a.k().pos(j, i) implies into.cell_ok(j, i) && pact(a.shape(), a.view(), t.view())[j][i] == into.cell(j, i) by {
        assert(act_cell(a, t, into, j, i));
        assert(t.cell_ok(j, i));
        assert(a.k().pos(j, t.p(j, i)));
        assert(a.cell_ok(j, t.p(j, i)));
        assert(at(a.shape(), j, i));
    }
    lemma_p_view_is(into, pact(a.shape(), a.view(), t.view()));
}

@raw
/// `Into` is reflexive (`impl<T> From<T> for T`, without a specification in vstd).
pub axiom fn axiom_into_self(k: KPuzzle)
    ensures
        <KPuzzle as IntoSpec<KPuzzle>>::obeys_into_spec(),
        <KPuzzle as IntoSpec<KPuzzle>>::into_spec(k) == k,
;

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::new_unitialized
%spec
    requires
        <T as IntoSpec<KPuzzle>>::obeys_into_spec(),
        IntoSpec::into_spec($p0).wf(),
    ensures
        r.packed_orbit_data.wf(),
        r.k() == IntoSpec::into_spec($p0),

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::apply_transformation
%spec
    requires
        self.wf(),
        $p0.wf(),
        self.k() == $p0.k(),
    ensures
        r.wf(),
        r.k() == self.k(),
        r.view() == pact(self.shape(), self.view(), $p0.view()),
%hint start
    proof { axiom_into_self(self.k()); }

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::byte_slice
%spec
    requires
        self.packed_orbit_data.wf(),
        self.packed_orbit_data.init(),
    ensures
        r@ == self.packed_orbit_data.bytes_seq(),

@raw
} // verus!
