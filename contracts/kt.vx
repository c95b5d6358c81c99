@raw
verus! {

// ---------------------------------------------------------------------------
// KTransformation: specification
// ---------------------------------------------------------------------------

impl KPuzzle {
    pub open spec fn shape(&self) -> Shape {
        Seq::new(self.orbits().len(), |j: int| (self.np(j), self.no(j)))
    }
}

/// Positions of the puzzle are positions of its shape.
pub proof fn lemma_shape(k: KPuzzle)
    requires
        k.wf(),
    ensures
        shape_ok(k.shape()),
        k.shape().len() == k.orbits().len(),
        forall|j: int, i: int| #[trigger] at(k.shape(), j, i) == k.pos(j, i),
        forall|j: int, i: int| #[trigger] k.pos(j, i) == at(k.shape(), j, i),
{
    assert forall|j: int| 0 <= j < k.shape().len() implies (#[trigger] k.shape()[j]).0 >= 0 && k.shape()[j].1 >= 1 by {
        assert(k.orbits()[j].wf(k.data.num_bytes as int));
    }
}

impl KTransformation {
    pub open spec fn k(&self) -> KPuzzle {
        self.packed_orbit_data.kpuzzle
    }

    pub open spec fn p(&self, j: int, i: int) -> int {
        self.packed_orbit_data.pj(j, i)->0 as int
    }

    pub open spec fn d(&self, j: int, i: int) -> int {
        self.packed_orbit_data.oj(j, i)->0 as int
    }

    pub open spec fn cell_ok(&self, j: int, i: int) -> bool {
        &&& self.packed_orbit_data.pj(j, i) is Some
        &&& self.packed_orbit_data.oj(j, i) is Some
        &&& self.p(j, i) < self.k().np(j)
        &&& self.d(j, i) < self.k().no(j)
    }

    /// Memory is owned and every entry is in range.
    pub open spec fn wf(&self) -> bool {
        &&& self.packed_orbit_data.wf()
        &&& forall|j: int, i: int| #[trigger] self.k().pos(j, i) ==> self.cell_ok(j, i)
    }

    pub open spec fn shape(&self) -> Shape {
        self.k().shape()
    }

    pub open spec fn view(&self) -> TV {
        Seq::new(self.k().orbits().len(), |j: int| Seq::new(self.k().np(j) as nat, |i: int| (self.p(j, i), self.d(j, i))))
    }

    pub open spec fn is_perm(&self) -> bool {
        tperm(self.shape(), self.view())
    }

    /// A transformation of a puzzle.
    pub open spec fn valid(&self) -> bool {
        self.wf() && self.is_perm()
    }
}

pub proof fn lemma_t_view(t: &KTransformation)
    requires
        t.wf(),
    ensures
        shape_ok(t.shape()),
        t.shape().len() == t.k().orbits().len(),
        tvalid(t.shape(), t.view()),
        forall|j: int, i: int| #[trigger] at(t.shape(), j, i) == t.k().pos(j, i),
        forall|j: int, i: int| #[trigger] t.k().pos(j, i) == at(t.shape(), j, i),
        forall|j: int, i: int| #[trigger] t.k().pos(j, i) ==> t.view()[j][i] == (t.p(j, i), t.d(j, i)),
{
    lemma_shape(t.k());
    assert forall|j: int, i: int| #[trigger] at(t.shape(), j, i) implies 0 <= t.view()[j][i].0 < t.shape()[j].0 && 0 <= t.view()[j][i].1
        < t.shape()[j].1 by {
        assert(t.k().pos(j, i));
        assert(t.cell_ok(j, i));
    }
}

/// A transformation whose cells are those of `v` has view `v`.
pub proof fn lemma_t_view_is(t: &KTransformation, v: TV)
    requires
        t.wf(),
        tshaped(t.shape(), v),
        forall|j: int, i: int| #[trigger] t.k().pos(j, i) ==> v[j][i] == (t.p(j, i), t.d(j, i)),
    ensures
        t.view() == v,
{
    lemma_t_view(t);
    lemma_tv_ext(t.shape(), t.view(), v);
}

pub proof fn lemma_t_same(a: &KTransformation, b: &KTransformation)
    requires
        a.wf(),
        b.packed_orbit_data.wf(),
        a.k() == b.k(),
        forall|j: int, i: int| a.k().pos(j, i) ==> #[trigger] b.packed_orbit_data.pj(j, i) == a.packed_orbit_data.pj(j, i),
        forall|j: int, i: int| a.k().pos(j, i) ==> #[trigger] b.packed_orbit_data.oj(j, i) == a.packed_orbit_data.oj(j, i),
    ensures
        b.wf(),
        b.view() == a.view(),
{
    lemma_t_view(a);
    assert forall|j: int, i: int| #[trigger] b.k().pos(j, i) implies b.cell_ok(j, i) by {
        assert(a.cell_ok(j, i));
    }
    lemma_t_view_is(b, a.view());
}

/// Wiring for orbit references obtained from iteration
pub proof fn lemma_orbit(k: KPuzzle, j: int)
    requires
        k.wf(),
        0 <= j < k.orbits().len(),
    ensures
        k.has(k.orbits()[j]),
        k.orbits()[j].wf(k.data.num_bytes as int),
        k.data.num_bytes <= k.size(),
        1 <= k.no(j) <= 107,
        forall|j2: int| 0 <= j2 < k.orbits().len() && k.np(j2) > 0 && #[trigger] k.orbits()[j2] == k.orbits()[j] ==> j2 == j,
{
    assert forall|j2: int| 0 <= j2 < k.orbits().len() && k.np(j2) > 0 && #[trigger] k.orbits()[j2] == k.orbits()[j] implies j2 == j by {
        if j2 != j { assert(k.orbits()[j].apart_from(k.orbits()[j2])); }
    }
}

} // verus!

@raw
verus! {

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformation::new_uninitialized
%spec
    requires
        $p0.wf(),
    ensures
        r.packed_orbit_data.wf(),
        r.k() == $p0,

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformation::kpuzzle
%spec
    ensures
        *r == self.k(),

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformation::packed_orbit_data
%spec
    ensures
        *r == self.packed_orbit_data,

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformation::get_permutation_idx
%spec
    requires
        self.packed_orbit_data.wf(),
        self.k().has(*$p0),
        $p1 < $p0.num_pieces,
        self.packed_orbit_data.pv(*$p0, $p1 as int) is Some,
    ensures
        self.packed_orbit_data.pv(*$p0, $p1 as int) == Some(r),

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformation::get_permutation_idx_unchecked
%spec
    requires
        self.packed_orbit_data.wf(),
        self.k().has(*$p0),
        $p1 < $p0.num_pieces,
        self.packed_orbit_data.pv(*$p0, $p1 as int) is Some,
    ensures
        self.packed_orbit_data.pv(*$p0, $p1 as int) == Some(r),
%hint start
    proof { lemma_has_wf(self.k(), *$p0); }

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformation::get_orientation_delta
%spec
    requires
        self.packed_orbit_data.wf(),
        self.k().has(*$p0),
        $p1 < $p0.num_pieces,
        self.packed_orbit_data.ov(*$p0, $p1 as int) is Some,
    ensures
        self.packed_orbit_data.ov(*$p0, $p1 as int) == Some(r),

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformation::get_orientation_delta_unchecked
%spec
    requires
        self.packed_orbit_data.wf(),
        self.k().has(*$p0),
        $p1 < $p0.num_pieces,
        self.packed_orbit_data.ov(*$p0, $p1 as int) is Some,
    ensures
        self.packed_orbit_data.ov(*$p0, $p1 as int) == Some(r),
%hint start
    proof { lemma_has_wf(self.k(), *$p0); }

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformation::set_permutation_idx
%spec
    requires
        old(self).packed_orbit_data.wf(),
        old(self).k().has(*$p0),
        $p1 < $p0.num_pieces,
        $p2 < $p0.num_pieces,
    ensures
        final(self).packed_orbit_data.wf(),
        final(self).packed_orbit_data.set_p(&old(self).packed_orbit_data, *$p0, $p1 as int, $p2),

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformation::set_permutation_idx_unchecked
%spec
    requires
        old(self).packed_orbit_data.wf(),
        old(self).k().has(*$p0),
        $p1 < $p0.num_pieces,
    ensures
        final(self).packed_orbit_data.wf(),
        final(self).packed_orbit_data.set_p(&old(self).packed_orbit_data, *$p0, $p1 as int, $p2),
%hint start
    proof { lemma_has_wf(self.k(), *$p0); }
%hint end
    proof { lemma_set_p(&old(self).packed_orbit_data, &self.packed_orbit_data, *$p0, $p1 as int, $p2); }

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformation::set_orientation_delta
%spec
    requires
        old(self).packed_orbit_data.wf(),
        old(self).k().has(*$p0),
        $p1 < $p0.num_pieces,
        $p2 < $p0.num_orientations,
    ensures
        final(self).packed_orbit_data.wf(),
        final(self).packed_orbit_data.set_o(&old(self).packed_orbit_data, *$p0, $p1 as int, $p2),

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformation::set_orientation_delta_unchecked
%spec
    requires
        old(self).packed_orbit_data.wf(),
        old(self).k().has(*$p0),
        $p1 < $p0.num_pieces,
    ensures
        final(self).packed_orbit_data.wf(),
        final(self).packed_orbit_data.set_o(&old(self).packed_orbit_data, *$p0, $p1 as int, $p2),
%hint start
    proof { lemma_has_wf(self.k(), *$p0); }
%hint end
    proof { lemma_set_o(&old(self).packed_orbit_data, &self.packed_orbit_data, *$p0, $p1 as int, $p2); }

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformation::byte_slice
%spec
    requires
        self.packed_orbit_data.wf(),
        self.packed_orbit_data.init(),
    ensures
        r@ == self.packed_orbit_data.bytes_seq(),

@fn cubing_core/src/kpuzzle/packed/kpuzzle.rs identity_transformation
%spec
    requires
        $p0.wf(),
    ensures
        r.valid(),
        r.k() == *$p0,
        r.view() == tid($p0.shape()),
%loop 0 it
    invariant
        $p0.wf(),
        packed_orbit_data.wf(),
        packed_orbit_data.kpuzzle == *$p0,
        it.seq().len() == $p0.orbits().len(),
        forall|j: int| 0 <= j < $p0.orbits().len() ==> *#[trigger] it.seq()[j] == $p0.orbits()[j],
        forall|j: int, i: int| j < it.index@ && $p0.pos(j, i) ==> #[trigger] packed_orbit_data.pj(j, i) == Some(i as u8),
        forall|j: int, i: int| j < it.index@ && $p0.pos(j, i) ==> #[trigger] packed_orbit_data.oj(j, i) == Some(0u8),
%hint loopstart 0
    let ghost vx_j = it.index@;
    proof { lemma_orbit(*$p0, vx_j); }
%loop 1 it2
    invariant
        $p0.wf(),
        packed_orbit_data.wf(),
        packed_orbit_data.kpuzzle == *$p0,
        0 <= vx_j < $p0.orbits().len(),
        *$for0 == $p0.orbits()[vx_j],
        $p0.has(*$for0),
        forall|j2: int| 0 <= j2 < $p0.orbits().len() && $p0.np(j2) > 0 && #[trigger] $p0.orbits()[j2] == *$for0 ==> j2 == vx_j,
        num_pieces == $for0.num_pieces,
        it2.seq().len() == num_pieces,
        forall|i: int| 0 <= i < it2.seq().len() ==> #[trigger] it2.seq()[i] == i,
        forall|j: int, i: int| (j < vx_j || j == vx_j && i < it2.index@) && $p0.pos(j, i) ==> #[trigger] packed_orbit_data.pj(j, i) == Some(i as u8),
        forall|j: int, i: int| (j < vx_j || j == vx_j && i < it2.index@) && $p0.pos(j, i) ==> #[trigger] packed_orbit_data.oj(j, i) == Some(0u8),
%hint tail
    proof {
        lemma_shape(*$p0);
        lemma_tid($p0.shape());
        lemma_t_view_is(&vx_r, tid($p0.shape()));
    }
%alt
%loop 0 it
    invariant
        $p0.wf(),
        packed_orbit_data.wf(),
        packed_orbit_data.kpuzzle == *$p0,
        it.seq().len() == $p0.orbits().len(),
        forall|j: int| 0 <= j < $p0.orbits().len() ==> *#[trigger] it.seq()[j] == $p0.orbits()[j],
        forall|j: int, i: int| j < it.index@ && $p0.pos(j, i) ==> #[trigger] packed_orbit_data.pj(j, i) == Some(i as u8),
        forall|j: int, i: int| j < it.index@ && $p0.pos(j, i) ==> #[trigger] packed_orbit_data.oj(j, i) == Some(0u8),
%hint loopstart 0
    let ghost vx_j = it.index@;
    proof { lemma_orbit(*$p0, vx_j); }
%loop 1 it2
    invariant
        $p0.wf(),
        packed_orbit_data.wf(),
        packed_orbit_data.kpuzzle == *$p0,
        0 <= vx_j < $p0.orbits().len(),
        *$for0 == $p0.orbits()[vx_j],
        $p0.has(*$for0),
        forall|j2: int| 0 <= j2 < $p0.orbits().len() && $p0.np(j2) > 0 && #[trigger] $p0.orbits()[j2] == *$for0 ==> j2 == vx_j,
        num_pieces == $for0.num_pieces,
        it2.seq().len() == num_pieces,
        forall|i: int| 0 <= i < it2.seq().len() ==> #[trigger] it2.seq()[i] == i,
        forall|j: int, i: int| (j < vx_j || j == vx_j && i < it2.index@) && $p0.pos(j, i) ==> #[trigger] packed_orbit_data.pj(j, i) == Some(i as u8),
        forall|j: int, i: int| j < vx_j && $p0.pos(j, i) ==> #[trigger] packed_orbit_data.oj(j, i) == Some(0u8),
%loop 2 it3
    invariant
        $p0.wf(),
        packed_orbit_data.wf(),
        packed_orbit_data.kpuzzle == *$p0,
        0 <= vx_j < $p0.orbits().len(),
        *$for0 == $p0.orbits()[vx_j],
        $p0.has(*$for0),
        forall|j2: int| 0 <= j2 < $p0.orbits().len() && $p0.np(j2) > 0 && #[trigger] $p0.orbits()[j2] == *$for0 ==> j2 == vx_j,
        num_pieces == $for0.num_pieces,
        it3.seq().len() == num_pieces,
        forall|i: int| 0 <= i < it3.seq().len() ==> #[trigger] it3.seq()[i] == i,
        forall|j: int, i: int| j <= vx_j && $p0.pos(j, i) ==> #[trigger] packed_orbit_data.pj(j, i) == Some(i as u8),
        forall|j: int, i: int| (j < vx_j || j == vx_j && i < it3.index@) && $p0.pos(j, i) ==> #[trigger] packed_orbit_data.oj(j, i) == Some(0u8),
%hint tail
    proof {
        lemma_shape(*$p0);
        lemma_tid($p0.shape());
        lemma_t_view_is(&vx_r, tid($p0.shape()));
    }

@fn cubing_core/src/kpuzzle/packed/kpuzzle.rs KPuzzle::identity_transformation
%spec
    requires
        self.wf(),
    ensures
        r.valid(),
        r.k() == *self,
        r.view() == tid(self.shape()),

@raw
/// Cell `(j, i)` of `into` is the composition of `a` and `b`.
pub open spec fn comp_cell(a: &KTransformation, b: &KTransformation, into: &KTransformation, j: int, i: int) -> bool {
    &&& into.packed_orbit_data.pj(j, i) == a.packed_orbit_data.pj(j, b.p(j, i))
    &&& into.packed_orbit_data.oj(j, i) is Some
    &&& into.d(j, i) == (a.d(j, b.p(j, i)) + b.d(j, i)) % a.k().no(j)
}

/// Cell `(j, a.p(j, i))` of `into` is the inverse of cell `(j, i)` of `a`.
pub open spec fn inv_cell(a: &KTransformation, into: &KTransformation, j: int, i: int) -> bool {
    into.p(j, a.p(j, i)) == i && into.d(j, a.p(j, i)) == (a.k().no(j) - a.d(j, i)) % a.k().no(j)
}

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformation::apply_transformation_into
%opt params 2
%spec
    requires
        self.wf(),
        $p0.wf(),
        old($p1).packed_orbit_data.wf(),
        self.k() == $p0.k(),
        self.k() == old($p1).k(),
    ensures
        final($p1).wf(),
        final($p1).packed_orbit_data.same_storage(&old($p1).packed_orbit_data),
        final($p1).view() == tcomp(self.shape(), self.view(), $p0.view()),
        self.is_perm() && $p0.is_perm() ==> final($p1).is_perm(),
%loop 0 it
    invariant
        self.wf(),
        $p0.wf(),
        self.k() == $p0.k(),
        $p1.packed_orbit_data.wf(),
        $p1.packed_orbit_data.same_storage(&old($p1).packed_orbit_data),
        self.k() == $p1.k(),
        it.seq().len() == self.k().orbits().len(),
        forall|j: int| 0 <= j < self.k().orbits().len() ==> *#[trigger] it.seq()[j] == self.k().orbits()[j],
        forall|j: int, i: int| j < it.index@ && #[trigger] self.k().pos(j, i) ==> comp_cell(self, $p0, $p1, j, i),
%hint loopstart 0
    let ghost vx_j = it.index@;
    proof { lemma_orbit(self.k(), vx_j); }
%loop 1 it2
    invariant
        self.wf(),
        $p0.wf(),
        self.k() == $p0.k(),
        $p1.packed_orbit_data.wf(),
        $p1.packed_orbit_data.same_storage(&old($p1).packed_orbit_data),
        self.k() == $p1.k(),
        0 <= vx_j < self.k().orbits().len(),
        *$for0 == self.k().orbits()[vx_j],
        self.k().has(*$for0),
        1 <= $for0.num_orientations <= 107,
        forall|j2: int| 0 <= j2 < self.k().orbits().len() && self.k().np(j2) > 0 && #[trigger] self.k().orbits()[j2] == *$for0 ==> j2 == vx_j,
        it2.seq().len() == $for0.num_pieces,
        forall|i: int| 0 <= i < it2.seq().len() ==> #[trigger] it2.seq()[i] == i,
        forall|j: int, i: int| (j < vx_j || j == vx_j && i < it2.index@) && #[trigger] self.k().pos(j, i) ==> comp_cell(self, $p0, $p1, j, i),
%hint loopstart 1
    proof {
        assert(self.k().pos(vx_j, $for1 as int));
        assert($p0.cell_ok(vx_j, $for1 as int));
        assert(self.k().pos(vx_j, $p0.p(vx_j, $for1 as int)));
        assert(self.cell_ok(vx_j, $p0.p(vx_j, $for1 as int)));
        let (vx_m, vx_x, vx_y) = (self.k().no(vx_j), self.d(vx_j, $p0.p(vx_j, $for1 as int)), $p0.d(vx_j, $for1 as int));
        assert((vx_x + vx_y) % vx_m == if vx_x + vx_y >= vx_m { vx_x + vx_y - vx_m } else { vx_x + vx_y }) by (nonlinear_arith) requires 0 <= vx_x < vx_m, 0 <= vx_y < vx_m;
    }
%hint end
    proof {
        lemma_comp_done(self, $p0, $p1);
    }
%alt
%loop 0 it
    invariant
        self.wf(),
        $p0.wf(),
        self.k() == $p0.k(),
        $p1.packed_orbit_data.wf(),
        $p1.packed_orbit_data.same_storage(&old($p1).packed_orbit_data),
        self.k() == $p1.k(),
        it.seq().len() == self.k().orbits().len(),
        forall|j: int| 0 <= j < self.k().orbits().len() ==> *#[trigger] it.seq()[j] == self.k().orbits()[j],
        forall|j: int, i: int| j < it.index@ && #[trigger] self.k().pos(j, i) ==> comp_cell(self, $p0, $p1, j, i),
%hint loopstart 0
    let ghost vx_j = it.index@;
    proof { lemma_orbit(self.k(), vx_j); }
%loop 1 it2
    invariant
        self.wf(),
        $p0.wf(),
        self.k() == $p0.k(),
        $p1.packed_orbit_data.wf(),
        $p1.packed_orbit_data.same_storage(&old($p1).packed_orbit_data),
        self.k() == $p1.k(),
        0 <= vx_j < self.k().orbits().len(),
        *$for0 == self.k().orbits()[vx_j],
        self.k().has(*$for0),
        1 <= $for0.num_orientations <= 107,
        forall|j2: int| 0 <= j2 < self.k().orbits().len() && self.k().np(j2) > 0 && #[trigger] self.k().orbits()[j2] == *$for0 ==> j2 == vx_j,
        it2.seq().len() == $for0.num_pieces,
        forall|i: int| 0 <= i < it2.seq().len() ==> #[trigger] it2.seq()[i] == i,
        forall|j: int, i: int| j < vx_j && #[trigger] self.k().pos(j, i) ==> comp_cell(self, $p0, $p1, j, i),
        forall|j: int, i: int| j == vx_j && i < it2.index@ && #[trigger] self.k().pos(j, i) ==> $p1.packed_orbit_data.pj(j, i) == self.packed_orbit_data.pj(j, $p0.p(j, i)),
%hint loopstart 1
    proof {
        assert(self.k().pos(vx_j, $for1 as int));
        assert($p0.cell_ok(vx_j, $for1 as int));
        assert(self.k().pos(vx_j, $p0.p(vx_j, $for1 as int)));
        assert(self.cell_ok(vx_j, $p0.p(vx_j, $for1 as int)));
        let (vx_m, vx_x, vx_y) = (self.k().no(vx_j), self.d(vx_j, $p0.p(vx_j, $for1 as int)), $p0.d(vx_j, $for1 as int));
        assert((vx_x + vx_y) % vx_m == if vx_x + vx_y >= vx_m { vx_x + vx_y - vx_m } else { vx_x + vx_y }) by (nonlinear_arith) requires 0 <= vx_x < vx_m, 0 <= vx_y < vx_m;
    }
%loop 2 it3
    invariant
        self.wf(),
        $p0.wf(),
        self.k() == $p0.k(),
        $p1.packed_orbit_data.wf(),
        $p1.packed_orbit_data.same_storage(&old($p1).packed_orbit_data),
        self.k() == $p1.k(),
        0 <= vx_j < self.k().orbits().len(),
        *$for0 == self.k().orbits()[vx_j],
        self.k().has(*$for0),
        1 <= $for0.num_orientations <= 107,
        forall|j2: int| 0 <= j2 < self.k().orbits().len() && self.k().np(j2) > 0 && #[trigger] self.k().orbits()[j2] == *$for0 ==> j2 == vx_j,
        it3.seq().len() == $for0.num_pieces,
        forall|i: int| 0 <= i < it3.seq().len() ==> #[trigger] it3.seq()[i] == i,
        forall|j: int, i: int| (j < vx_j || j == vx_j && i < it3.index@) && #[trigger] self.k().pos(j, i) ==> comp_cell(self, $p0, $p1, j, i),
        forall|j: int, i: int| j == vx_j && #[trigger] self.k().pos(j, i) ==> $p1.packed_orbit_data.pj(j, i) == self.packed_orbit_data.pj(j, $p0.p(j, i)),
%hint loopstart 2
    proof {
        assert(self.k().pos(vx_j, $for2 as int));
        assert($p0.cell_ok(vx_j, $for2 as int));
        assert(self.k().pos(vx_j, $p0.p(vx_j, $for2 as int)));
        assert(self.cell_ok(vx_j, $p0.p(vx_j, $for2 as int)));
        let (vx_m, vx_x, vx_y) = (self.k().no(vx_j), self.d(vx_j, $p0.p(vx_j, $for2 as int)), $p0.d(vx_j, $for2 as int));
        assert((vx_x + vx_y) % vx_m == if vx_x + vx_y >= vx_m { vx_x + vx_y - vx_m } else { vx_x + vx_y }) by (nonlinear_arith) requires 0 <= vx_x < vx_m, 0 <= vx_y < vx_m;
    }
%hint end
    proof {
        lemma_comp_done(self, $p0, $p1);
    }

@raw
pub proof fn lemma_comp_done(a: &KTransformation, b: &KTransformation, into: &KTransformation)
    requires
        a.wf(),
        b.wf(),
        into.packed_orbit_data.wf(),
        a.k() == b.k(),
        a.k() == into.k(),
        forall|j: int, i: int| #[trigger] a.k().pos(j, i) ==> comp_cell(a, b, into, j, i),
    ensures
        into.wf(),
        into.view() == tcomp(a.shape(), a.view(), b.view()),
        a.is_perm() && b.is_perm() ==> into.is_perm(),
{
    lemma_t_view(a);
    lemma_t_view(b);
    lemma_tcomp(a.shape(), a.view(), b.view());
    assert forall|j: int, i: int| #[trigger] a.k().pos(j, i) implies into.cell_ok(j, i) && tcomp(a.shape(), a.view(), b.view())[j][i] == (into.p(j, i), into.d(j, i)) by {
        assert(comp_cell(a, b, into, j, i));
        assert(b.cell_ok(j, i));
        assert(a.k().pos(j, b.p(j, i)));
        assert(a.cell_ok(j, b.p(j, i)));
        lemma_orbit(a.k(), j);
        lemma_mod_range(a.d(j, b.p(j, i)) + b.d(j, i), a.k().no(j));
        assert(at(a.shape(), j, i));
    }
    lemma_t_view_is(into, tcomp(a.shape(), a.view(), b.view()));
}

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformation::apply_transformation
%spec
    requires
        self.wf(),
        $p0.wf(),
        self.k() == $p0.k(),
    ensures
        r.wf(),
        r.k() == self.k(),
        r.view() == tcomp(self.shape(), self.view(), $p0.view()),
        self.is_perm() && $p0.is_perm() ==> r.is_perm(),

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformation::invert
%spec
    requires
        self.wf(),
    ensures
        r.wf(),
        r.k() == self.k(),
        self.is_perm() ==> {
            &&& r.valid()
            &&& r.view() == tinv(self.shape(), self.view())
            &&& tcomp(self.shape(), self.view(), r.view()) == tid(self.shape())
            &&& tcomp(self.shape(), r.view(), self.view()) == tid(self.shape())
        },
%hint before 0
    let ghost vx_s = self.shape();
    proof { lemma_t_view(self); }
%loop 0 it
    invariant
        self.wf(),
        $let{self.clone()#0}.wf(),
        $let{self.clone()#0}.k() == self.k(),
        it.seq().len() == self.k().orbits().len(),
        forall|j: int| 0 <= j < self.k().orbits().len() ==> *#[trigger] it.seq()[j] == self.k().orbits()[j],
        forall|j: int, i: int| self.is_perm() && j < it.index@ && #[trigger] self.k().pos(j, i) ==> inv_cell(self, &$let{self.clone()#0}, j, i),
%hint loopstart 0
    let ghost vx_j = it.index@;
    proof { lemma_orbit(self.k(), vx_j); }
%loop 1 it2
    invariant
        self.wf(),
        $let{self.clone()#0}.wf(),
        $let{self.clone()#0}.k() == self.k(),
        0 <= vx_j < self.k().orbits().len(),
        *$for0 == self.k().orbits()[vx_j],
        self.k().has(*$for0),
        1 <= $for0.num_orientations <= 107,
        num_orientations == $for0.num_orientations,
        forall|j2: int| 0 <= j2 < self.k().orbits().len() && self.k().np(j2) > 0 && #[trigger] self.k().orbits()[j2] == *$for0 ==> j2 == vx_j,
        it2.seq().len() == $for0.num_pieces,
        forall|i: int| 0 <= i < it2.seq().len() ==> #[trigger] it2.seq()[i] == i,
        forall|j: int, i: int| self.is_perm() && (j < vx_j || j == vx_j && i < it2.index@) && #[trigger] self.k().pos(j, i) ==> inv_cell(self, &$let{self.clone()#0}, j, i),
%hint loopstart 1
    let ghost vx_t0 = $let{self.clone()#0};
    proof {
        assert(self.k().pos(vx_j, $for1 as int));
        assert(self.cell_ok(vx_j, $for1 as int));
        assert(self.k().pos(vx_j, self.p(vx_j, $for1 as int)));
        lemma_mod_range(self.k().no(vx_j) - self.d(vx_j, $for1 as int), self.k().no(vx_j));
        let (vx_m, vx_d) = (self.k().no(vx_j), self.d(vx_j, $for1 as int));
        assert((vx_m - vx_d) % vx_m == if vx_d == 0 { 0 } else { vx_m - vx_d }) by (nonlinear_arith) requires 0 <= vx_d < vx_m;
    }
%hint loopend 1
    proof {
        let vx_t1 = $let{self.clone()#0};
        lemma_inv_step(self, &vx_t0, &vx_t1, vx_j, $for1 as int);
    }
%hint tail
    proof {
        if self.is_perm() { lemma_inv_done(self, &vx_r); }
    }

@raw
pub proof fn lemma_inv_step(a: &KTransformation, t0: &KTransformation, t1: &KTransformation, j: int, i: int)
    requires
        a.wf(),
        t0.wf(),
        a.k() == t0.k(),
        a.k() == t1.k(),
        t1.packed_orbit_data.wf(),
        a.k().pos(j, i),
        inv_cell(a, t1, j, i),
        t1.cell_ok(j, a.p(j, i)),
        forall|j2: int, i2: int| #[trigger] a.k().pos(j2, i2) && !(j2 == j && i2 == a.p(j, i)) ==>
            t1.packed_orbit_data.pj(j2, i2) == t0.packed_orbit_data.pj(j2, i2) && t1.packed_orbit_data.oj(j2, i2) == t0.packed_orbit_data.oj(j2, i2),
    ensures
        t1.wf(),
        forall|j2: int, i2: int| a.is_perm() && #[trigger] a.k().pos(j2, i2) && inv_cell(a, t0, j2, i2) ==> inv_cell(a, t1, j2, i2),
{
    assert forall|j2: int, i2: int| #[trigger] t1.k().pos(j2, i2) implies t1.cell_ok(j2, i2) by {
        assert(t0.cell_ok(j2, i2));
    }
    lemma_t_view(a);
    assert forall|j2: int, i2: int| a.is_perm() && #[trigger] a.k().pos(j2, i2) && inv_cell(a, t0, j2, i2) implies inv_cell(a, t1, j2, i2) by {
        assert(a.cell_ok(j2, i2));
        assert(a.k().pos(j2, a.p(j2, i2)));
        if j2 == j && a.p(j2, i2) == a.p(j, i) {
            assert(at(a.shape(), j, i) && at(a.shape(), j, i2));
            assert(i2 == i);
        }
    }
}

pub proof fn lemma_inv_done(a: &KTransformation, b: &KTransformation)
    requires
        a.valid(),
        b.wf(),
        a.k() == b.k(),
        forall|j: int, i: int| #[trigger] a.k().pos(j, i) ==> inv_cell(a, b, j, i),
    ensures
        b.valid(),
        b.view() == tinv(a.shape(), a.view()),
        tcomp(a.shape(), a.view(), b.view()) == tid(a.shape()),
        tcomp(a.shape(), b.view(), a.view()) == tid(a.shape()),
{
    lemma_t_view(a);
    lemma_t_view(b);
    let s = a.shape();
    assert forall|j: int, i: int| #[trigger] at(s, j, i) implies b.view()[j][a.view()[j][i].0] == (i, (s[j].1 - a.view()[j][i].1) % s[j].1) by {
        assert(a.k().pos(j, i));
        assert(inv_cell(a, b, j, i));
        assert(a.cell_ok(j, i));
        assert(a.k().pos(j, a.p(j, i)));
    }
    lemma_tinv(s, a.view(), b.view());
}

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformation::self_multiply
%spec
    requires
        self.wf(),
        $p0 > i32::MIN,
    ensures
        r.wf(),
        r.k() == self.k(),
        self.is_perm() ==> r.valid() && r.view() == zpow(self.shape(), self.view(), $p0 as int),
    decreases
        (if $p0 < 0 { -$p0 } else { $p0 as int }),
        (if $p0 < 0 { 1int } else { 0int }),
%hint start
    proof {
        lemma_t_view(self);
        if self.is_perm() { lemma_multiply(self.shape(), self.view(), $p0 as int); lemma_powers(self.shape(), self.view()); }
    }

@raw
/// The powers of one transformation, in whatever order they are combined.
pub proof fn lemma_powers(s: Shape, t: TV)
    requires
        tvalid(s, t),
        tperm(s, t),
    ensures
        t == zpow(s, t, 1),
        tid(s) == zpow(s, t, 0),
        tinv(s, t) == zpow(s, t, -1),
        forall|m: int, n: int| #![trigger tcomp(s, zpow(s, t, m), zpow(s, t, n))] tcomp(s, zpow(s, t, m), zpow(s, t, n)) == zpow(s, t, m + n),
        forall|m: int| #![trigger tinv(s, zpow(s, t, m))] tinv(s, zpow(s, t, m)) == zpow(s, t, -m),
        forall|m: int| #![trigger zpow(s, tinv(s, t), m)] zpow(s, tinv(s, t), m) == zpow(s, t, -m),
{
    let u = tinv(s, t);
    lemma_tpow_one(s, t);
    lemma_tinv_exists(s, t);
    lemma_tpow_one(s, u);
    lemma_tinv_involutive(s, t);
    assert forall|m: int, n: int| #![trigger tcomp(s, zpow(s, t, m), zpow(s, t, n))] tcomp(s, zpow(s, t, m), zpow(s, t, n)) == zpow(s, t, m + n) by {
        lemma_zpow_add(s, t, m, n);
    }
    assert forall|m: int| #![trigger tinv(s, zpow(s, t, m))] tinv(s, zpow(s, t, m)) == zpow(s, t, -m) by {
        if m >= 0 { lemma_tpow_inv(s, t, m as nat); } else { lemma_tpow_inv(s, u, (-m) as nat); }
    }
    assert forall|m: int| #![trigger zpow(s, tinv(s, t), m)] zpow(s, tinv(s, t), m) == zpow(s, t, -m) by {
        assert(zpow(s, t, -m) == tpow(s, t, 0) || m != 0);
    }
}

/// The identities the repeated-squaring computation relies on.
pub proof fn lemma_multiply(s: Shape, t: TV, n: int)
    requires
        tvalid(s, t),
        tperm(s, t),
    ensures
        zpow(s, t, 0) == tid(s),
        zpow(s, t, 1) == t,
        n < 0 ==> zpow(s, t, n) == zpow(s, tinv(s, t), -n),
        n == 2 ==> zpow(s, t, n) == tcomp(s, t, t),
        n == 3 ==> zpow(s, t, n) == tcomp(s, t, tcomp(s, t, t)),
        n > 1 && n % 2 == 0 ==> zpow(s, t, n) == tcomp(s, zpow(s, t, n / 2), zpow(s, t, n / 2)),
        n > 1 && n % 2 == 1 ==> zpow(s, t, n) == tcomp(s, t, tcomp(s, zpow(s, t, n / 2), zpow(s, t, n / 2))),
{
    lemma_tpow_one(s, t);
    if n < 0 {
        lemma_tinv_exists(s, t);
    }
    if n == 2 {
        lemma_zpow_add(s, t, 1, 1);
    }
    if n == 3 {
        lemma_zpow_add(s, t, 1, 1);
        lemma_zpow_add(s, t, 1, 2);
    }
    if n > 1 {
        let h = n / 2;
        lemma_zpow_add(s, t, h, h);
        lemma_zpow_add(s, t, 1, 2 * h);
        lemma_zpow_valid(s, t, h);
    }
}
} // verus!
