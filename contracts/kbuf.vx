@raw
verus! {

// ---------------------------------------------------------------------------
// Equality, hashing, cloning and buffers
// ---------------------------------------------------------------------------

/// `==` on byte slices compares contents.
pub axiom fn axiom_slice_eq()
    ensures
        <[u8] as PartialEqSpec<[u8]>>::obeys_eq_spec(),
        forall|a: &[u8], b: &[u8]| #[trigger] <[u8] as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@),
;

#[verifier::external_trait_specification]
pub trait ExHasher {
    type ExternalTraitSpecificationFor: std::hash::Hasher;
}

/// State of a hasher after hashing the bytes `s`.
pub uninterp spec fn hash_bytes<H>(h: H, s: Seq<u8>) -> H;

#[verifier::external_body]
pub fn vx_hash<H: std::hash::Hasher>(x: &[u8], state: &mut H)
    ensures
        *final(state) == hash_bytes(*old(state), x@),
{
    unimplemented!()
}

pub proof fn lemma_p_wf_init(p: &KPattern)
    requires
        p.wf(),
    ensures
        p.packed_orbit_data.init(),
{
    assert forall|j: int, i: int| p.k().pos(j, i) implies (#[trigger] p.packed_orbit_data.pj(j, i)) is Some by {
        assert(p.cell_ok(j, i));
    }
    assert forall|j: int, i: int| p.k().pos(j, i) implies (#[trigger] p.packed_orbit_data.oj(j, i)) is Some by {
        assert(p.cell_ok(j, i));
    }
}

pub proof fn lemma_t_wf_init(p: &KTransformation)
    requires
        p.wf(),
    ensures
        p.packed_orbit_data.init(),
{
    assert forall|j: int, i: int| p.k().pos(j, i) implies (#[trigger] p.packed_orbit_data.pj(j, i)) is Some by {
        assert(p.cell_ok(j, i));
    }
    assert forall|j: int, i: int| p.k().pos(j, i) implies (#[trigger] p.packed_orbit_data.oj(j, i)) is Some by {
        assert(p.cell_ok(j, i));
    }
}

/// Every byte belongs to a position, so equal cells mean equal bytes.
pub proof fn lemma_bytes_cells(a: &PackedOrbitData, b: &PackedOrbitData)
    requires
        a.wf(),
        b.wf(),
        a.init(),
        b.init(),
        a.kpuzzle == b.kpuzzle,
    ensures
        (a.bytes_seq() == b.bytes_seq()) ==> (forall|j: int, i: int| #[trigger] a.kpuzzle.pos(j, i) ==> a.pj(j, i) == b.pj(j, i) && a.oj(j, i) == b.oj(j, i)),
        (forall|j: int, i: int| #[trigger] a.kpuzzle.pos(j, i) ==> a.pj(j, i) == b.pj(j, i) && a.oj(j, i) == b.oj(j, i)) ==> (a.bytes_seq() == b.bytes_seq()),
{
    let k = a.kpuzzle;
    lemma_init_bytes(a);
    lemma_init_bytes(b);
    if a.bytes_seq() == b.bytes_seq() {
        assert forall|j: int, i: int| #[trigger] k.pos(j, i) implies a.pj(j, i) == b.pj(j, i) && a.oj(j, i) == b.oj(j, i) by {
            let ob = k.orbits()[j];
            assert(ob.wf(k.data.num_bytes as int));
            assert(a.bytes_seq()[ob.poff() + i] == b.bytes_seq()[ob.poff() + i]);
            assert(a.bytes_seq()[ob.ooff() + i] == b.bytes_seq()[ob.ooff() + i]);
            assert(a.mem()[ob.poff() + i] is Some && b.mem()[ob.poff() + i] is Some);
            assert(a.mem()[ob.ooff() + i] is Some && b.mem()[ob.ooff() + i] is Some);
        }
    }
    if forall|j: int, i: int| #[trigger] k.pos(j, i) ==> a.pj(j, i) == b.pj(j, i) && a.oj(j, i) == b.oj(j, i) {
        assert forall|n: int| 0 <= n < k.data.num_bytes implies a.bytes_seq()[n] == b.bytes_seq()[n] by {
            assert(k.covered(n));
            let j = choose|j: int| 0 <= j < k.orbits().len() && (#[trigger] k.orbits()[j]).covers(n);
            let ob = k.orbits()[j];
            if ob.poff() <= n < ob.poff() + ob.np() {
                assert(k.pos(j, n - ob.poff()));
            } else {
                assert(k.pos(j, n - ob.ooff()));
            }
        }
        assert(a.bytes_seq() =~= b.bytes_seq());
    }
}

pub proof fn lemma_t_eq(a: &KTransformation, b: &KTransformation)
    requires
        a.wf(),
        b.wf(),
        a.k() == b.k(),
    ensures
        (a.packed_orbit_data.bytes_seq() == b.packed_orbit_data.bytes_seq()) == (a.view() == b.view()),
{
    let k = a.k();
    lemma_t_wf_init(a);
    lemma_t_wf_init(b);
    lemma_t_view(a);
    lemma_t_view(b);
    lemma_bytes_cells(&a.packed_orbit_data, &b.packed_orbit_data);
    if a.packed_orbit_data.bytes_seq() == b.packed_orbit_data.bytes_seq() {
        assert forall|j: int, i: int| #[trigger] at(a.shape(), j, i) implies a.view()[j][i] == b.view()[j][i] by {
            assert(k.pos(j, i));
        }
        lemma_tv_ext(a.shape(), a.view(), b.view());
    }
    if a.view() == b.view() {
        assert forall|j: int, i: int| #[trigger] k.pos(j, i) implies a.packed_orbit_data.pj(j, i) == b.packed_orbit_data.pj(j, i) && a.packed_orbit_data.oj(j, i) == b.packed_orbit_data.oj(j, i) by {
            assert(a.cell_ok(j, i));
            assert(b.cell_ok(j, i));
            assert(a.view()[j][i] == b.view()[j][i]);
        }
    }
}

pub proof fn lemma_p_eq(a: &KPattern, b: &KPattern)
    requires
        a.wf(),
        b.wf(),
        a.k() == b.k(),
    ensures
        (a.packed_orbit_data.bytes_seq() == b.packed_orbit_data.bytes_seq()) == (a.view() == b.view()),
{
    let k = a.k();
    lemma_p_wf_init(a);
    lemma_p_wf_init(b);
    lemma_p_view(a);
    lemma_p_view(b);
    lemma_bytes_cells(&a.packed_orbit_data, &b.packed_orbit_data);
    if a.packed_orbit_data.bytes_seq() == b.packed_orbit_data.bytes_seq() {
        assert forall|j: int, i: int| #[trigger] at(a.shape(), j, i) implies a.view()[j][i] == b.view()[j][i] by {
            assert(k.pos(j, i));
        }
        lemma_pv_ext(a.shape(), a.view(), b.view());
    }
    if a.view() == b.view() {
        assert forall|j: int, i: int| #[trigger] k.pos(j, i) implies a.packed_orbit_data.pj(j, i) == b.packed_orbit_data.pj(j, i) && a.packed_orbit_data.oj(j, i) == b.packed_orbit_data.oj(j, i) by {
            assert(a.cell_ok(j, i));
            assert(b.cell_ok(j, i));
            assert(a.view()[j][i] == b.view()[j][i]);
            let ob = k.orbits()[j];
            assert(ob.wf(k.data.num_bytes as int));
            assert(ob.orientation_packer.is_packed(ob.no(), a.packed(j, i)));
            assert(ob.orientation_packer.is_packed(ob.no(), b.packed(j, i)));
        }
    }
}

@fn cubing_core/src/kpuzzle/packed/packed_orbit_data.rs <PackedOrbitData as PartialEq>::eq
%opt inherent
%spec
    requires
        self.wf(),
        $p0.wf(),
        self.init(),
        $p0.init(),
    ensures
        r == (self.bytes_seq() == $p0.bytes_seq()),
%hint start
    proof { axiom_slice_eq(); }

@fn? cubing_core/src/kpuzzle/packed/packed_orbit_data.rs <PackedOrbitData as PartialEq>::ne
%opt inherent
%opt eqcall
%spec
    requires
        self.wf(),
        $p0.wf(),
        self.init(),
        $p0.init(),
    ensures
        r == (self.bytes_seq() != $p0.bytes_seq()),
%hint start
    proof { axiom_slice_eq(); }

@fn cubing_core/src/kpuzzle/packed/packed_orbit_data.rs <PackedOrbitData as Hash>::hash
%opt inherent
%opt call hash vx_hash
%spec
    requires
        self.wf(),
        self.init(),
    ensures
        *final($p0) == hash_bytes(*old($p0), self.bytes_seq()),

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs <KTransformation as PartialEq<KTransformation>>::eq
%opt inherent
%spec
    requires
        self.wf(),
        $p0.wf(),
    ensures
        r == (self.packed_orbit_data.bytes_seq() == $p0.packed_orbit_data.bytes_seq()),
        self.k() == $p0.k() ==> r == (self.view() == $p0.view()),
%hint start
    proof {
        axiom_slice_eq();
        lemma_t_wf_init(self);
        lemma_t_wf_init($p0);
        if self.k() == $p0.k() { lemma_t_eq(self, $p0); }
    }

@fn? cubing_core/src/kpuzzle/packed/ktransformation.rs <KTransformation as PartialEq<KTransformation>>::ne
%opt inherent
%opt eqcall
%spec
    requires
        self.wf(),
        $p0.wf(),
    ensures
        self.k() == $p0.k() ==> r == (self.view() != $p0.view()),
%hint start
    proof {
        axiom_slice_eq();
        lemma_t_wf_init(self);
        lemma_t_wf_init($p0);
        if self.k() == $p0.k() { lemma_t_eq(self, $p0); }
    }

@fn cubing_core/src/kpuzzle/packed/kpattern.rs <KPattern as From<&KPattern>>::from
%opt inherent
%opt rename from_pattern
%spec
    requires
        $p0.wf(),
    ensures
        r.wf(),
        r.k() == $p0.k(),
        r.view() == $p0.view(),

@when KPatternBuffer a b a_is_current
@raw
impl KPatternBuffer {
    pub open spec fn wf(&self) -> bool {
        &&& self.a.packed_orbit_data.wf()
        &&& self.b.packed_orbit_data.wf()
        &&& self.a.k() == self.b.k()
        &&& if self.a_is_current { self.a.wf() } else { self.b.wf() }
    }

    pub open spec fn k(&self) -> KPuzzle {
        self.a.k()
    }

    pub open spec fn view(&self) -> PV {
        if self.a_is_current { self.a.view() } else { self.b.view() }
    }
}

@fn cubing_core/src/kpuzzle/packed/kpattern.rs <KPatternBuffer as From<KPattern>>::from
%opt inherent
%opt rename from_pattern
%spec
    requires
        $p0.wf(),
    ensures
        r.wf(),
        r.k() == $p0.k(),
        r.view() == $p0.view(),

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPatternBuffer::current
%spec
    requires
        self.wf(),
    ensures
        r.wf(),
        r.k() == self.k(),
        r.view() == self.view(),

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPatternBuffer::apply_transformation
%spec
    requires
        old(self).wf(),
        $p0.wf(),
        old(self).k() == $p0.k(),
    ensures
        final(self).wf(),
        final(self).k() == old(self).k(),
        final(self).view() == pact(old(self).k().shape(), old(self).view(), $p0.view()),

@fn cubing_core/src/kpuzzle/packed/kpattern.rs <KPatternBuffer as PartialEq>::eq
%opt inherent
%opt eqcall
%spec
    requires
        self.wf(),
        $p0.wf(),
        self.k() == $p0.k(),
    ensures
        r == (self.view() == $p0.view()),

@endwhen
@when KTransformationBuffer a b a_is_current
@raw
impl KTransformationBuffer {
    pub open spec fn wf(&self) -> bool {
        &&& self.a.packed_orbit_data.wf()
        &&& self.b.packed_orbit_data.wf()
        &&& self.a.k() == self.b.k()
        &&& if self.a_is_current { self.a.wf() } else { self.b.wf() }
    }

    pub open spec fn k(&self) -> KPuzzle {
        self.a.k()
    }

    pub open spec fn view(&self) -> TV {
        if self.a_is_current { self.a.view() } else { self.b.view() }
    }
}

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs <KTransformationBuffer as From<KTransformation>>::from
%opt inherent
%opt rename from_transformation
%spec
    requires
        $p0.wf(),
    ensures
        r.wf(),
        r.k() == $p0.k(),
        r.view() == $p0.view(),

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformationBuffer::current
%spec
    requires
        self.wf(),
    ensures
        r.wf(),
        r.k() == self.k(),
        r.view() == self.view(),

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformationBuffer::apply_transformation
%spec
    requires
        old(self).wf(),
        $p0.wf(),
        old(self).k() == $p0.k(),
    ensures
        final(self).wf(),
        final(self).k() == old(self).k(),
        final(self).view() == tcomp(old(self).k().shape(), old(self).view(), $p0.view()),

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs <KTransformationBuffer as PartialEq>::eq
%opt inherent
%opt eqcall
%spec
    requires
        self.wf(),
        $p0.wf(),
        self.k() == $p0.k(),
    ensures
        r == (self.view() == $p0.view()),

@endwhen
@raw
} // verus!
