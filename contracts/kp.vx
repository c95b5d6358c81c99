@raw
verus! {

// ---------------------------------------------------------------------------
// Puzzle layout: specification
// ---------------------------------------------------------------------------

pub open spec fn apart(a: int, na: int, b: int, nb: int) -> bool {
    a + na <= b || b + nb <= a
}

impl KPuzzleOrbitInfo {
    pub open spec fn np(&self) -> int {
        self.num_pieces as int
    }

    pub open spec fn no(&self) -> int {
        self.num_orientations as int
    }

    pub open spec fn poff(&self) -> int {
        self.pieces_or_permutations_offset as int
    }

    pub open spec fn ooff(&self) -> int {
        self.orientations_offset as int
    }

    /// The orbit's two regions lie in `n` bytes and do not overlap.
    pub open spec fn wf(&self, n: int) -> bool {
        &&& self.orientation_packer.wf(self.no())
        &&& 0 <= self.poff() && self.poff() + self.np() <= n
        &&& 0 <= self.ooff() && self.ooff() + self.np() <= n
        &&& apart(self.poff(), self.np(), self.ooff(), self.np())
    }

    pub open spec fn apart_from(&self, b: KPuzzleOrbitInfo) -> bool {
        &&& apart(self.poff(), self.np(), b.poff(), b.np())
        &&& apart(self.poff(), self.np(), b.ooff(), b.np())
        &&& apart(self.ooff(), self.np(), b.poff(), b.np())
        &&& apart(self.ooff(), self.np(), b.ooff(), b.np())
    }

    /// Byte `k` belongs to this orbit.
    pub open spec fn covers(&self, k: int) -> bool {
        self.poff() <= k < self.poff() + self.np() || self.ooff() <= k < self.ooff() + self.np()
    }

    pub open spec fn matches(&self, d: KPuzzleOrbitDefinition) -> bool {
        self.name == d.orbit_name && self.num_pieces == d.num_pieces && self.num_orientations == d.num_orientations
    }
}

impl KPuzzle {
    pub open spec fn orbits(&self) -> Seq<KPuzzleOrbitInfo> {
        self.data.ordered_orbit_info@
    }

    pub open spec fn has(&self, ob: KPuzzleOrbitInfo) -> bool {
        self.orbits().contains(ob)
    }

    pub open spec fn size(&self) -> nat {
        layout_size(self.data.layout)
    }

    pub open spec fn def(&self) -> KPuzzleDefinition {
        *self.data.definition
    }

    /// Layout of the packed bytes.
    pub open spec fn wf(&self) -> bool {
        &&& 0 < self.size()
        &&& self.data.num_bytes <= self.size()
        &&& forall|j: int| 0 <= j < self.orbits().len() ==> (#[trigger] self.orbits()[j]).wf(self.data.num_bytes as int)
        &&& forall|j: int, k: int| 0 <= j < self.orbits().len() && 0 <= k < self.orbits().len() && j != k ==>
            (#[trigger] self.orbits()[j]).apart_from(#[trigger] self.orbits()[k])
        &&& forall|b: int| 0 <= b < self.data.num_bytes ==> #[trigger] self.covered(b)
        &&& self.orbits().len() == self.def().orbits@.len()
        &&& forall|j: int| 0 <= j < self.orbits().len() ==> (#[trigger] self.orbits()[j]).matches(self.def().orbits@[j])
    }

    pub open spec fn covered(&self, b: int) -> bool {
        exists|j: int| 0 <= j < self.orbits().len() && (#[trigger] self.orbits()[j]).covers(b)
    }

    /// `i` is a position of orbit `j`
    pub open spec fn pos(&self, j: int, i: int) -> bool {
        0 <= j < self.orbits().len() && 0 <= i < self.orbits()[j].np()
    }

    pub open spec fn np(&self, j: int) -> int {
        self.orbits()[j].np()
    }

    pub open spec fn no(&self, j: int) -> int {
        self.orbits()[j].no()
    }
}

impl PackedOrbitData {
    /// The value owns a live allocation of its puzzle's layout.
    pub open spec fn wf(&self) -> bool {
        &&& self.kpuzzle.wf()
        &&& self.perm@.live()
        &&& self.perm@.base() == self.bytes
        &&& self.perm@.mem().len() == self.kpuzzle.size()
        &&& self.bytes@.addr + self.kpuzzle.size() <= usize::MAX
    }

    #[verifier::inline]
    pub open spec fn mem(&self) -> Seq<Option<u8>> {
        self.perm@.mem()
    }

    /// Piece or permutation byte of an orbit
    pub open spec fn pv(&self, ob: KPuzzleOrbitInfo, i: int) -> Option<u8> {
        self.mem()[ob.poff() + i]
    }

    /// Orientation byte of an orbit
    pub open spec fn ov(&self, ob: KPuzzleOrbitInfo, i: int) -> Option<u8> {
        self.mem()[ob.ooff() + i]
    }

    pub open spec fn pj(&self, j: int, i: int) -> Option<u8> {
        self.pv(self.kpuzzle.orbits()[j], i)
    }

    pub open spec fn oj(&self, j: int, i: int) -> Option<u8> {
        self.ov(self.kpuzzle.orbits()[j], i)
    }

    /// Every byte has been written.
    pub open spec fn init(&self) -> bool {
        &&& forall|j: int, i: int| self.kpuzzle.pos(j, i) ==> (#[trigger] self.pj(j, i)) is Some
        &&& forall|j: int, i: int| self.kpuzzle.pos(j, i) ==> (#[trigger] self.oj(j, i)) is Some
    }

    /// Same puzzle and contents
    pub open spec fn same_bytes(&self, b: &PackedOrbitData) -> bool {
        self.kpuzzle == b.kpuzzle && forall|k: int| 0 <= k < self.kpuzzle.data.num_bytes ==> #[trigger] self.mem()[k] == b.mem()[k]
    }

    /// Same storage and puzzle (contents may differ).
    pub open spec fn same_storage(&self, b: &PackedOrbitData) -> bool {
        self.kpuzzle == b.kpuzzle && self.bytes == b.bytes
    }

    /// Only the piece byte `(ob, i)` changed, to `v`.
    pub open spec fn set_p(&self, old: &PackedOrbitData, ob: KPuzzleOrbitInfo, i: int, v: u8) -> bool {
        &&& self.same_storage(old)
        &&& self.mem() == old.mem().update(ob.poff() + i, Some(v))
        &&& forall|j2: int, i2: int| self.kpuzzle.pos(j2, i2) ==>
            #[trigger] self.pj(j2, i2) == if self.kpuzzle.orbits()[j2] == ob && i2 == i { Some(v) } else { old.pj(j2, i2) }
        &&& forall|j2: int, i2: int| self.kpuzzle.pos(j2, i2) ==> #[trigger] self.oj(j2, i2) == old.oj(j2, i2)
    }

    /// Only the orientation byte `(ob, i)` changed, to `v`.
    pub open spec fn set_o(&self, old: &PackedOrbitData, ob: KPuzzleOrbitInfo, i: int, v: u8) -> bool {
        &&& self.same_storage(old)
        &&& self.mem() == old.mem().update(ob.ooff() + i, Some(v))
        &&& forall|j2: int, i2: int| self.kpuzzle.pos(j2, i2) ==>
            #[trigger] self.oj(j2, i2) == if self.kpuzzle.orbits()[j2] == ob && i2 == i { Some(v) } else { old.oj(j2, i2) }
        &&& forall|j2: int, i2: int| self.kpuzzle.pos(j2, i2) ==> #[trigger] self.pj(j2, i2) == old.pj(j2, i2)
    }
}

impl PackedOrbitData {
    pub open spec fn bytes_seq(&self) -> Seq<u8> {
        Seq::new(self.kpuzzle.data.num_bytes as nat, |k: int| self.mem()[k]->0)
    }
}

pub proof fn lemma_has_wf(k: KPuzzle, ob: KPuzzleOrbitInfo)
    requires
        k.wf(),
        k.has(ob),
    ensures
        ob.wf(k.data.num_bytes as int),
        k.data.num_bytes <= k.size(),
{
    let j = choose|j: int| 0 <= j < k.orbits().len() && k.orbits()[j] == ob;
    assert(k.orbits()[j].wf(k.data.num_bytes as int));
}

/// Different (orbit, field, position) never share a byte.
pub proof fn lemma_set_p(a: &PackedOrbitData, b: &PackedOrbitData, ob: KPuzzleOrbitInfo, i: int, v: u8)
    requires
        a.wf(),
        a.kpuzzle.has(ob),
        0 <= i < ob.np(),
        b.same_storage(a),
        b.mem() == a.mem().update(ob.poff() + i, Some(v)),
    ensures
        b.set_p(a, ob, i, v),
{
    let k = a.kpuzzle;
    let j = choose|j: int| 0 <= j < k.orbits().len() && k.orbits()[j] == ob;
    assert(k.orbits()[j].wf(k.data.num_bytes as int));
    assert forall|j2: int, i2: int| k.pos(j2, i2) implies #[trigger] b.pj(j2, i2) == if k.orbits()[j2] == ob && i2 == i {
        Some(v)
    } else {
        a.pj(j2, i2)
    } by {
        assert(k.orbits()[j2].wf(k.data.num_bytes as int));
        if j2 != j { assert(k.orbits()[j].apart_from(k.orbits()[j2])); }
    }
    assert forall|j2: int, i2: int| k.pos(j2, i2) implies #[trigger] b.oj(j2, i2) == a.oj(j2, i2) by {
        assert(k.orbits()[j2].wf(k.data.num_bytes as int));
        if j2 != j { assert(k.orbits()[j].apart_from(k.orbits()[j2])); }
    }
}

pub proof fn lemma_set_o(a: &PackedOrbitData, b: &PackedOrbitData, ob: KPuzzleOrbitInfo, i: int, v: u8)
    requires
        a.wf(),
        a.kpuzzle.has(ob),
        0 <= i < ob.np(),
        b.same_storage(a),
        b.mem() == a.mem().update(ob.ooff() + i, Some(v)),
    ensures
        b.set_o(a, ob, i, v),
{
    let k = a.kpuzzle;
    let j = choose|j: int| 0 <= j < k.orbits().len() && k.orbits()[j] == ob;
    assert(k.orbits()[j].wf(k.data.num_bytes as int));
    assert forall|j2: int, i2: int| k.pos(j2, i2) implies #[trigger] b.oj(j2, i2) == if k.orbits()[j2] == ob && i2 == i {
        Some(v)
    } else {
        a.oj(j2, i2)
    } by {
        assert(k.orbits()[j2].wf(k.data.num_bytes as int));
        if j2 != j { assert(k.orbits()[j].apart_from(k.orbits()[j2])); }
    }
    assert forall|j2: int, i2: int| k.pos(j2, i2) implies #[trigger] b.pj(j2, i2) == a.pj(j2, i2) by {
        assert(k.orbits()[j2].wf(k.data.num_bytes as int));
        if j2 != j { assert(k.orbits()[j].apart_from(k.orbits()[j2])); }
    }
}

} // verus!

@raw
verus! {

pub open spec fn orbit_refs<'a>(k: KPuzzle) -> Seq<&'a KPuzzleOrbitInfo> {
    Seq::new(k.orbits().len(), |j: int| &k.orbits()[j])
}

@fn cubing_core/src/kpuzzle/packed/kpuzzle.rs KPuzzle::orbit_info_iter
%spec
    ensures
        IteratorSpec::remaining(&r) =~= orbit_refs(*self),
        IteratorSpec::remaining(&r).len() == self.orbits().len(),
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::decrease(&r) is Some,
        forall|j: int| 0 <= j < self.orbits().len() ==> *#[trigger] IteratorSpec::remaining(&r)[j] == self.orbits()[j],

@fn cubing_core/src/kpuzzle/packed/kpuzzle.rs KPuzzle::definition
%spec
    ensures
        *r == self.def(),

@fn cubing_core/src/kpuzzle/packed/packed_orbit_data.rs PackedOrbitData::kpuzzle
%spec
    ensures
        *r == self.kpuzzle,

@fn cubing_core/src/kpuzzle/packed/packed_orbit_data.rs PackedOrbitData::new_with_uninitialized_bytes
%opt ghostlit PackedOrbitData perm: vx_perm
%spec
    requires
        $p0.wf(),
    ensures
        r.wf(),
        r.kpuzzle == $p0,

@fn cubing_core/src/kpuzzle/packed/packed_orbit_data.rs PackedOrbitData::bytes_offset
%spec
    requires
        self.wf(),
        $p0 + $p1 <= self.kpuzzle.size(),
    ensures
        ptr_index(self.bytes, r, $p0 + $p1),

@fn cubing_core/src/kpuzzle/packed/packed_orbit_data.rs PackedOrbitData::get_raw_piece_or_permutation_value
%spec
    requires
        self.wf(),
        self.kpuzzle.has(*$p0),
        $p1 < $p0.num_pieces,
        self.pv(*$p0, $p1 as int) is Some,
    ensures
        self.pv(*$p0, $p1 as int) == Some(r),
%hint start
    proof { lemma_has_wf(self.kpuzzle, *$p0); }

@fn cubing_core/src/kpuzzle/packed/packed_orbit_data.rs PackedOrbitData::get_raw_orientation_value
%spec
    requires
        self.wf(),
        self.kpuzzle.has(*$p0),
        $p1 < $p0.num_pieces,
        self.ov(*$p0, $p1 as int) is Some,
    ensures
        self.ov(*$p0, $p1 as int) == Some(r),
%hint start
    proof { lemma_has_wf(self.kpuzzle, *$p0); }

@fn cubing_core/src/kpuzzle/packed/packed_orbit_data.rs PackedOrbitData::set_raw_piece_or_permutation_value
%spec
    requires
        old(self).wf(),
        old(self).kpuzzle.has(*$p0),
        $p1 < $p0.num_pieces,
    ensures
        final(self).wf(),
        final(self).set_p(old(self), *$p0, $p1 as int, $p2),
%hint start
    proof { lemma_has_wf(self.kpuzzle, *$p0); }
%hint end
    proof { lemma_set_p(old(self), self, *$p0, $p1 as int, $p2); }

@fn cubing_core/src/kpuzzle/packed/packed_orbit_data.rs PackedOrbitData::set_raw_orientation_value
%spec
    requires
        old(self).wf(),
        old(self).kpuzzle.has(*$p0),
        $p1 < $p0.num_pieces,
    ensures
        final(self).wf(),
        final(self).set_o(old(self), *$p0, $p1 as int, $p2),
%hint start
    proof { lemma_has_wf(self.kpuzzle, *$p0); }
%hint end
    proof { lemma_set_o(old(self), self, *$p0, $p1 as int, $p2); }

@fn cubing_core/src/kpuzzle/packed/packed_orbit_data.rs PackedOrbitData::byte_slice
%spec
    requires
        self.wf(),
        self.init(),
    ensures
        r@ == self.bytes_seq(),
%hint start
    proof { lemma_init_bytes(self); }
%hint tail
    proof { assert(vx_r@ =~= self.bytes_seq()); }

@fn cubing_core/src/kpuzzle/packed/packed_orbit_data.rs PackedOrbitData::byte_slice_offset
%spec
    requires
        self.wf(),
        $p0 + $p1 <= self.kpuzzle.data.num_bytes,
        forall|b: int| $p0 <= b < $p0 + $p1 ==> (#[trigger] self.mem()[b]) is Some,
    ensures
        r@.len() == $p1,
        forall|b: int| $p0 <= b < $p0 + $p1 ==> #[trigger] self.mem()[b] == Some(r@[b - $p0]),

@fn cubing_core/src/kpuzzle/packed/packed_orbit_data.rs <PackedOrbitData as Drop>::drop
%opt inherent
%spec
    requires
        old(self).wf(),
    ensures
        // the allocation is given back, whatever its size
        !final(self).perm@.live(),

@fn cubing_core/src/kpuzzle/packed/packed_orbit_data.rs <PackedOrbitData as Clone>::clone
%opt inherent
%spec
    requires
        self.wf(),
        self.init(),
    ensures
        r.wf(),
        r.init(),
        r.kpuzzle == self.kpuzzle,
        r.same_bytes(self),
        forall|j: int, i: int| self.kpuzzle.pos(j, i) ==> #[trigger] r.pj(j, i) == self.pj(j, i),
        forall|j: int, i: int| self.kpuzzle.pos(j, i) ==> #[trigger] r.oj(j, i) == self.oj(j, i),
%hint tail
    proof {
        lemma_same_bytes(self, &vx_r);
    }

@fn? cubing_core/src/kpuzzle/packed/packed_orbit_data.rs <PackedOrbitData as Clone>::clone_from
%opt inherent
%spec
    requires
        old(self).wf(),
        $p0.wf(),
        $p0.init(),
    ensures
        final(self).wf(),
        final(self).init(),
        final(self).kpuzzle == $p0.kpuzzle,
        final(self).same_bytes($p0),
        forall|j: int, i: int| $p0.kpuzzle.pos(j, i) ==> #[trigger] final(self).pj(j, i) == $p0.pj(j, i),
        forall|j: int, i: int| $p0.kpuzzle.pos(j, i) ==> #[trigger] final(self).oj(j, i) == $p0.oj(j, i),

@raw

/// All bytes of an initialised value can be read as one slice.
pub proof fn lemma_init_bytes(d: &PackedOrbitData)
    requires
        d.wf(),
        d.init(),
    ensures
        forall|k: int| 0 <= k < d.kpuzzle.data.num_bytes ==> (#[trigger] d.mem()[k]) is Some,
{
    assert forall|k: int| 0 <= k < d.kpuzzle.data.num_bytes implies (#[trigger] d.mem()[k]) is Some by {
        assert(d.kpuzzle.covered(k));
        let j = choose|j: int| 0 <= j < d.kpuzzle.orbits().len() && (#[trigger] d.kpuzzle.orbits()[j]).covers(k);
        let ob = d.kpuzzle.orbits()[j];
        if ob.poff() <= k < ob.poff() + ob.np() {
            assert(d.pj(j, k - ob.poff()) is Some);
        } else {
            assert(d.oj(j, k - ob.ooff()) is Some);
        }
    }
}

pub proof fn lemma_same_bytes(a: &PackedOrbitData, b: &PackedOrbitData)
    requires
        a.kpuzzle.wf(),
        a.kpuzzle == b.kpuzzle,
        forall|k: int| 0 <= k < a.kpuzzle.data.num_bytes ==> #[trigger] b.mem()[k] == a.mem()[k],
    ensures
        forall|j: int, i: int| a.kpuzzle.pos(j, i) ==> #[trigger] b.pj(j, i) == a.pj(j, i),
        forall|j: int, i: int| a.kpuzzle.pos(j, i) ==> #[trigger] b.oj(j, i) == a.oj(j, i),
{
    assert forall|j: int, i: int| a.kpuzzle.pos(j, i) implies #[trigger] b.pj(j, i) == a.pj(j, i) by {
        assert(a.kpuzzle.orbits()[j].wf(a.kpuzzle.data.num_bytes as int));
    }
    assert forall|j: int, i: int| a.kpuzzle.pos(j, i) implies #[trigger] b.oj(j, i) == a.oj(j, i) by {
        assert(a.kpuzzle.orbits()[j].wf(a.kpuzzle.data.num_bytes as int));
    }
}

} // verus!
