@raw
verus! {

// ---------------------------------------------------------------------------
// Orientation packing: specification
// ---------------------------------------------------------------------------

/// `d` divides `n` (d > 0)
pub open spec fn divides(d: int, n: int) -> bool {
    d > 0 && n % d == 0
}

/// The effective modulus of a piece.
pub open spec fn eff(m: int, n: int) -> int {
    if m == 0 { n } else { m }
}

/// A pair as stored: `m == n` is stored as `m == 0`.
pub open spec fn stored_pair(o: int, m: int, n: int) -> bool {
    (m == 0 || (divides(m, n) && m < n)) && 0 <= o < eff(m, n)
}

/// A pair as accepted.
pub open spec fn valid_pair(o: int, m: int, n: int) -> bool {
    (m == 0 || divides(m, n)) && 0 <= o < eff(m, n)
}

pub open spec fn norm_mod(m: int, n: int) -> int {
    if m == n { 0 } else { m }
}

pub proof fn lemma_divisor_le(d: int, n: int)
    requires
        divides(d, n),
        n >= 1,
    ensures
        d <= n,
{
    if d > n {
        assert(n % d == n) by (nonlinear_arith)
            requires
                0 <= n < d,
        ;
    }
}

impl OrientationPacker {
    pub open spec fn unp(&self, v: int) -> OrientationWithMod {
        self.unpacking_table@[v]
    }

    /// `v` is the packed form of some pair
    pub open spec fn is_packed(&self, n: int, v: int) -> bool {
        0 <= v < 256 && stored_pair(self.unp(v).orientation as int, self.unp(v).orientation_mod as int, n)
    }

    pub open spec fn base(&self, m: int) -> int {
        self.packing_table@[m] as int
    }

    pub open spec fn wf(&self, n: int) -> bool {
        &&& 1 <= n <= 107
        &&& forall|v: int| #[trigger] self.is_packed(n, v) ==>
            self.base(self.unp(v).orientation_mod as int) + self.unp(v).orientation == v
        &&& forall|o: int, m: int| #[trigger] valid_pair(o, m, n) ==> {
            let v = self.base(m) + o;
            &&& v < 256
            &&& self.unp(v).orientation == o
            &&& self.unp(v).orientation_mod == norm_mod(m, n)
        }
        &&& forall|d: int, v: int| 0 <= d < n && #[trigger] self.is_packed(n, v) ==> {
            let u = self.unp(v);
            (#[trigger] self.transformation_lookup@[d]@[v]) as int
                == self.base(u.orientation_mod as int) + (u.orientation + d) % eff(u.orientation_mod as int, n)
        }
    }
}

} // verus!

@fn cubing_core/src/kpuzzle/packed/orientation_packer.rs OrientationWithMod::new_using_default_orientation_mod
%spec
    ensures
        r.orientation == $p0,
        r.orientation_mod == 0,

@fn cubing_core/src/kpuzzle/packed/orientation_packer.rs OrientationPacker::transform
%ret r
%spec
    requires
        exists|n: int| self.wf(n) && #[trigger] self.is_packed(n, $p0 as int) && $p1 < n,
    ensures
        forall|n: int| #![trigger self.wf(n)] self.wf(n) && self.is_packed(n, $p0 as int) && $p1 < n ==> {
            let u = self.unp($p0 as int);
            &&& self.is_packed(n, r as int)
            &&& self.unp(r as int).orientation == (u.orientation + $p1) % eff(u.orientation_mod as int, n)
            &&& self.unp(r as int).orientation_mod == u.orientation_mod
        },
%hint start
    proof {
        assert forall|n: int| #![trigger self.wf(n)] self.wf(n) && self.is_packed(n, $p0 as int) && $p1 < n implies {
            let u = self.unp($p0 as int);
            let r = self.transformation_lookup@[$p1 as int]@[$p0 as int];
            &&& self.is_packed(n, r as int)
            &&& self.unp(r as int).orientation == (u.orientation + $p1) % eff(u.orientation_mod as int, n)
            &&& self.unp(r as int).orientation_mod == u.orientation_mod
        } by {
            let u = self.unp($p0 as int);
            let m = u.orientation_mod as int;
            let e = eff(m, n);
            let o2 = (u.orientation + $p1) % e;
            assert(0 <= o2 < e) by (nonlinear_arith) requires e > 0, o2 == (u.orientation + $p1) % e;
            assert(valid_pair(o2, m, n));
        }
    }

@fn cubing_core/src/kpuzzle/packed/orientation_packer.rs OrientationPacker::unpack
%spec
    ensures
        *r == self.unp(*$p0 as int),

@fn cubing_core/src/kpuzzle/packed/orientation_packer.rs OrientationPacker::pack
%spec
    requires
        exists|n: int| self.wf(n) && #[trigger] valid_pair($p0.orientation as int, $p0.orientation_mod as int, n),
    ensures
        forall|n: int| #![trigger self.wf(n)]
            self.wf(n) && valid_pair($p0.orientation as int, $p0.orientation_mod as int, n) ==> {
            &&& self.is_packed(n, r as int)
            &&& self.unp(r as int).orientation == $p0.orientation
            &&& self.unp(r as int).orientation_mod == norm_mod($p0.orientation_mod as int, n)
        },
%hint start
    proof {
        let n = choose|n: int| self.wf(n) && #[trigger] valid_pair($p0.orientation as int, $p0.orientation_mod as int, n);
        assert(self.base($p0.orientation_mod as int) + $p0.orientation < 256);
        assert forall|n: int| #![trigger self.wf(n)]
            self.wf(n) && valid_pair($p0.orientation as int, $p0.orientation_mod as int, n) implies
            norm_mod($p0.orientation_mod as int, n) <= n by {
            let m = $p0.orientation_mod as int;
            if m != 0 { lemma_divisor_le(m, n); }
        }
    }

@raw
/// Number of packed values used by one modulus.
pub open spec fn mod_size(n: int, m: int) -> int {
    if m == 0 { n } else if m < n && n % m == 0 { m } else { 0 }
}

/// Number of packed values used by the moduli below `k`.
pub open spec fn mod_total(n: int, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { mod_total(n, k - 1) + mod_size(n, k - 1) }
}

pub proof fn lemma_mod_total_mono(n: int, j: int, k: int)
    requires
        n >= 1,
        0 <= j <= k,
    ensures
        0 <= mod_total(n, j) <= mod_total(n, k),
    decreases k,
{
    if j < k {
        lemma_mod_total_mono(n, j, k - 1);
    } else if k > 0 {
        lemma_mod_total_mono(n, k - 1, k - 1);
    }
}

pub open spec fn all_totals_fit(n: int) -> bool
    decreases n,
{
    n <= 0 || (mod_total(n, 256) <= 255 && all_totals_fit(n - 1))
}

pub proof fn lemma_total_fits_rec(n: int, k: int)
    requires
        1 <= n <= k,
        all_totals_fit(k),
    ensures
        mod_total(n, 256) <= 255,
    decreases k,
{
    if n < k {
        lemma_total_fits_rec(n, k - 1);
    }
}

/// The packed values for every supported number of orientations fit in a byte.
pub proof fn lemma_total_fits(n: int)
    requires
        1 <= n <= 107,
    ensures
        mod_total(n, 256) <= 255,
{
    assert(all_totals_fit(107)) by (compute_only);
    lemma_total_fits_rec(n, 107);
}

/// Progress of the tables: every modulus below `k` is done, and `extra` values of modulus `k`.
pub open spec fn tables_ok(unp: Seq<OrientationWithMod>, pk: Seq<u8>, n: int, k: int, sofar: int) -> bool {
    &&& unp.len() == 256
    &&& pk.len() == 256
    &&& 0 <= sofar <= 255
    &&& forall|m: int| 0 <= m < k && (m == 0 || (m < n && n % m == 0)) ==> #[trigger] pk[m] == mod_total(n, m)
    &&& (k > n ==> pk[n] == 0)
    &&& forall|v: int| 0 <= v < sofar ==> {
        let u = #[trigger] unp[v];
        stored_pair(u.orientation as int, u.orientation_mod as int, n) && mod_total(n, u.orientation_mod as int)
            + u.orientation == v
    }
    &&& forall|v: int| sofar <= v < 256 ==> (#[trigger] unp[v]).orientation_mod == 253
    &&& forall|m: int, o: int| 0 <= m < k && #[trigger] stored_pair(o, m, n) ==> {
        let v = mod_total(n, m) + o;
        0 <= v < sofar && unp[v].orientation == o && unp[v].orientation_mod == m
    }
}

@raw
/// One more value of modulus `m`, which has `o` values so far.
pub open spec fn inner_ok(unp: Seq<OrientationWithMod>, pk: Seq<u8>, n: int, m: int, o: int, sofar: int) -> bool {
    &&& unp.len() == 256
    &&& pk.len() == 256
    &&& 0 <= sofar <= 255
    &&& m < n
    &&& (m == 0 || n % m == 0)
    &&& 0 <= o <= eff(m, n)
    &&& sofar == mod_total(n, m) + o
    &&& forall|m2: int| 0 <= m2 <= m && (m2 == 0 || (m2 < n && n % m2 == 0)) ==> #[trigger] pk[m2] == mod_total(n, m2)
    &&& forall|v: int| 0 <= v < sofar ==> {
        let u = #[trigger] unp[v];
        stored_pair(u.orientation as int, u.orientation_mod as int, n) && mod_total(n, u.orientation_mod as int)
            + u.orientation == v
    }
    &&& forall|v: int| sofar <= v < 256 ==> (#[trigger] unp[v]).orientation_mod == 253
    &&& forall|m2: int, o2: int| 0 <= m2 <= m && (m2 < m || o2 < o) && #[trigger] stored_pair(o2, m2, n) ==> {
        let v = mod_total(n, m2) + o2;
        0 <= v < sofar && unp[v].orientation == o2 && unp[v].orientation_mod == m2
    }
}

pub open spec fn lookup_entry(v: int, unp: Seq<OrientationWithMod>, pk: Seq<u8>, n: int, d: int) -> int {
    pk[unp[v].orientation_mod as int] as int + (unp[v].orientation + d) % eff(unp[v].orientation_mod as int, n)
}

pub proof fn lemma_entry_fits(unp: Seq<OrientationWithMod>, pk: Seq<u8>, n: int, sofar: int, v: int, d: int)
    requires
        1 <= n <= 107,
        tables_ok(unp, pk, n, 256, sofar),
        0 <= v < sofar,
        0 <= d < n,
    ensures
        0 <= lookup_entry(v, unp, pk, n, d) < sofar,
        eff(unp[v].orientation_mod as int, n) > 0,
        unp[v].orientation + d < 256,
{
    let m = unp[v].orientation_mod as int;
    let e = eff(m, n);
    let o2 = (unp[v].orientation + d) % e;
    assert(0 <= o2 < e) by (nonlinear_arith)
        requires
            e > 0,
            o2 == (unp[v].orientation + d) % e,
    ;
    assert(stored_pair(unp[v].orientation as int, m, n));
    if m != 0 {
        lemma_divisor_le(m, n);
    }
    assert(stored_pair(o2, m, n));
    assert(pk[m] == mod_total(n, m));
}

@fn cubing_core/src/kpuzzle/packed/orientation_packer.rs OrientationPacker::new
%attr
#[verifier::rlimit(200)]
%opt params 1
%spec
    requires
        1 <= $p0 <= 107,
    ensures
        r.wf($p0 as int),
%hint start
    proof {
        lemma_total_fits($p0 as int);
    }
%loop 0 it
    invariant
        1 <= $p0 <= 107,
        it.index@ <= 256,
        forall|j: int| 0 <= j < it.seq().len() ==> #[trigger] it.seq()[j] == j,
        it.seq().len() == 256,
        mod_total($p0 as int, 256) <= 255,
        num_packed_values_sofar == mod_total($p0 as int, it.index@),
        tables_ok(unpacking_table@, packing_table@, $p0 as int, it.index@, num_packed_values_sofar as int),
%hint loopstart 0
    let ghost vx_m = $for0 as int;
    let ghost vx_n = $p0 as int;
    proof {
        assert(vx_m == it.index@);
        lemma_mod_total_mono(vx_n, vx_m + 1, 256);
        lemma_mod_total_mono(vx_n, 0, vx_m);
        reveal_with_fuel(mod_total, 2);
        assert(mod_total(vx_n, vx_m + 1) == mod_total(vx_n, vx_m) + mod_size(vx_n, vx_m));
        if vx_m > vx_n {
            assert(vx_n % vx_m == vx_n) by (nonlinear_arith) requires 0 < vx_n < vx_m;
        }
        assert(vx_n % vx_n == 0) by (nonlinear_arith) requires vx_n > 0;
    }
%hint before 1
    proof {
        assert(vx_m < vx_n);
    }
%loop 1 it2
    invariant
        1 <= $p0 <= 107,
        vx_n == $p0,
        vx_m == $for0,
        factor == eff(vx_m, vx_n),
        mod_total(vx_n, 256) <= 255,
        mod_total(vx_n, vx_m) + factor <= 255,
        it2.seq().len() == factor,
        forall|j: int| 0 <= j < it2.seq().len() ==> #[trigger] it2.seq()[j] == j,
        inner_ok(unpacking_table@, packing_table@, vx_n, vx_m, it2.index@, num_packed_values_sofar as int),
%hint loopend 0
    proof {
        assert(tables_ok(unpacking_table@, packing_table@, vx_n, vx_m + 1, num_packed_values_sofar as int));
    }
%hint before 2
    let ghost vx_n = $p0 as int;
%loop 2 it3
    invariant
        1 <= $p0 <= 107,
        vx_n == $p0,
        tables_ok(unpacking_table@, packing_table@, vx_n, 256, num_packed_values_sofar as int),
        it3.seq().len() == vx_n,
        forall|j: int| 0 <= j < it3.seq().len() ==> #[trigger] it3.seq()[j] == j,
        forall|d: int, v: int| 0 <= d < it3.index@ && 0 <= v < num_packed_values_sofar ==>
            (#[trigger] transformation_lookup@[d]@[v]) == lookup_entry(v, unpacking_table@, packing_table@, vx_n, d),
%loop 3 it4
    invariant
        1 <= $p0 <= 107,
        vx_n == $p0,
        it3.index@ == $for2,
        $for2 < $p0,
        tables_ok(unpacking_table@, packing_table@, vx_n, 256, num_packed_values_sofar as int),
        it4.seq().len() == num_packed_values_sofar,
        forall|j: int| 0 <= j < it4.seq().len() ==> #[trigger] it4.seq()[j] == j,
        forall|d: int, v: int| 0 <= d < it3.index@ && 0 <= v < num_packed_values_sofar ==>
            (#[trigger] transformation_lookup@[d]@[v]) == lookup_entry(v, unpacking_table@, packing_table@, vx_n, d),
        forall|v: int| 0 <= v < it4.index@ ==>
            (#[trigger] transformation_lookup@[it3.index@]@[v]) == lookup_entry(v, unpacking_table@, packing_table@, vx_n, it3.index@),
%hint loopstart 3
    proof {
        lemma_entry_fits(unpacking_table@, packing_table@, vx_n, num_packed_values_sofar as int, $for3 as int, $for2 as int);
    }
%hint tail
    proof {
        let sofar = num_packed_values_sofar as int;
        assert forall|v: int| #[trigger] vx_r.is_packed(vx_n, v) implies v < sofar by {}
        assert forall|o: int, m: int| #[trigger] valid_pair(o, m, vx_n) implies {
            let v = vx_r.base(m) + o;
            &&& v < 256
            &&& vx_r.unp(v).orientation == o
            &&& vx_r.unp(v).orientation_mod == norm_mod(m, vx_n)
        } by {
            if m != 0 { lemma_divisor_le(m, vx_n); }
            assert(stored_pair(o, norm_mod(m, vx_n), vx_n));
            assert(mod_total(vx_n, 0) == 0);
        }
        assert forall|d: int, v: int| 0 <= d < vx_n && #[trigger] vx_r.is_packed(vx_n, v) implies {
            let u = vx_r.unp(v);
            (#[trigger] vx_r.transformation_lookup@[d]@[v]) as int
                == vx_r.base(u.orientation_mod as int) + (u.orientation + d) % eff(u.orientation_mod as int, vx_n)
        } by {
            assert(v < sofar);
        }
    }
%alt
%hint start
    proof {
        lemma_total_fits($p0 as int);
    }
%loop 0 it
    invariant
        1 <= $p0 <= 107,
        it.index@ <= 256,
        forall|j: int| 0 <= j < it.seq().len() ==> #[trigger] it.seq()[j] == j,
        it.seq().len() == 256,
        mod_total($p0 as int, 256) <= 255,
        num_packed_values_sofar == mod_total($p0 as int, it.index@),
        tables_ok(unpacking_table@, packing_table@, $p0 as int, it.index@, num_packed_values_sofar as int),
%hint loopstart 0
    let ghost vx_m = $for0 as int;
    let ghost vx_n = $p0 as int;
    proof {
        assert(vx_m == it.index@);
        lemma_mod_total_mono(vx_n, vx_m + 1, 256);
        lemma_mod_total_mono(vx_n, 0, vx_m);
        reveal_with_fuel(mod_total, 2);
        assert(mod_total(vx_n, vx_m + 1) == mod_total(vx_n, vx_m) + mod_size(vx_n, vx_m));
        if vx_m > vx_n {
            assert(vx_n % vx_m == vx_n) by (nonlinear_arith) requires 0 < vx_n < vx_m;
        }
        assert(vx_n % vx_n == 0) by (nonlinear_arith) requires vx_n > 0;
    }
%hint before 1
    proof {
        assert(vx_m < vx_n);
    }
%loop 1 it2
    invariant
        1 <= $p0 <= 107,
        vx_n == $p0,
        vx_m == $for0,
        factor == eff(vx_m, vx_n),
        mod_total(vx_n, 256) <= 255,
        mod_total(vx_n, vx_m) + factor <= 255,
        it2.seq().len() == factor,
        forall|j: int| 0 <= j < it2.seq().len() ==> #[trigger] it2.seq()[j] == j,
        inner_ok(unpacking_table@, packing_table@, vx_n, vx_m, it2.index@, num_packed_values_sofar as int),
%hint loopend 0
    proof {
        assert(tables_ok(unpacking_table@, packing_table@, vx_n, vx_m + 1, num_packed_values_sofar as int));
    }
%hint before 2
    let ghost vx_n = $p0 as int;
%loop 2 it3
    invariant
        1 <= $p0 <= 107,
        vx_n == $p0,
        tables_ok(unpacking_table@, packing_table@, vx_n, 256, num_packed_values_sofar as int),
        it3.seq().len() == num_packed_values_sofar,
        forall|j: int| 0 <= j < it3.seq().len() ==> #[trigger] it3.seq()[j] == j,
        forall|d: int, v: int| 0 <= d < vx_n && 0 <= v < it3.index@ ==>
            (#[trigger] transformation_lookup@[d]@[v]) == lookup_entry(v, unpacking_table@, packing_table@, vx_n, d),
%loop 3 it4
    invariant
        1 <= $p0 <= 107,
        vx_n == $p0,
        it3.index@ == $for2,
        $for2 < num_packed_values_sofar,
        tables_ok(unpacking_table@, packing_table@, vx_n, 256, num_packed_values_sofar as int),
        *orientation_with_mod == unpacking_table@[$for2 as int],
        it4.seq().len() == vx_n,
        forall|j: int| 0 <= j < it4.seq().len() ==> #[trigger] it4.seq()[j] == j,
        forall|d: int, v: int| 0 <= d < vx_n && 0 <= v < it3.index@ ==>
            (#[trigger] transformation_lookup@[d]@[v]) == lookup_entry(v, unpacking_table@, packing_table@, vx_n, d),
        forall|d: int| 0 <= d < it4.index@ ==>
            (#[trigger] transformation_lookup@[d]@[it3.index@]) == lookup_entry(it3.index@, unpacking_table@, packing_table@, vx_n, d),
%hint loopstart 3
    proof {
        lemma_entry_fits(unpacking_table@, packing_table@, vx_n, num_packed_values_sofar as int, $for2 as int, $for3 as int);
    }
%hint tail
    proof {
        let sofar = num_packed_values_sofar as int;
        assert forall|v: int| #[trigger] vx_r.is_packed(vx_n, v) implies v < sofar by {}
        assert forall|o: int, m: int| #[trigger] valid_pair(o, m, vx_n) implies {
            let v = vx_r.base(m) + o;
            &&& v < 256
            &&& vx_r.unp(v).orientation == o
            &&& vx_r.unp(v).orientation_mod == norm_mod(m, vx_n)
        } by {
            if m != 0 { lemma_divisor_le(m, vx_n); }
            assert(stored_pair(o, norm_mod(m, vx_n), vx_n));
            assert(mod_total(vx_n, 0) == 0);
        }
        assert forall|d: int, v: int| 0 <= d < vx_n && #[trigger] vx_r.is_packed(vx_n, v) implies {
            let u = vx_r.unp(v);
            (#[trigger] vx_r.transformation_lookup@[d]@[v]) as int
                == vx_r.base(u.orientation_mod as int) + (u.orientation + d) % eff(u.orientation_mod as int, vx_n)
        } by {
            assert(v < sofar);
        }
    }
