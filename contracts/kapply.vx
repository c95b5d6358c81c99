@raw
verus! {

// ---------------------------------------------------------------------------
// Applying algs and moves to patterns; the default pattern
// ---------------------------------------------------------------------------

/// `p` with the evaluation of `s` applied to it.
pub open spec fn applied(p: &KPattern, s: Seq<GNode>, q: &KPattern) -> bool {
    exists|t: TV| #[trigger] evals_to(p.k(), s, t) && q.view() == pact(p.k().shape(), p.view(), t)
}

pub open spec fn applied_node(p: &KPattern, n: GNode, q: &KPattern) -> bool {
    exists|t: TV| #[trigger] evals_to_node(p.k(), n, t) && q.view() == pact(p.k().shape(), p.view(), t)
}

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::apply_alg
%spec
    requires
        self.wf(),
        self.k().ready(),
        alg_ok(galg(*$p0)),
    ensures
        r is Ok <==> good(self.k().def(), galg(*$p0)),
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.k() == self.k() && applied(self, galg(*$p0), &r->Ok_0),

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::apply_move
%spec
    requires
        self.wf(),
        self.k().ready(),
        neg_ok($p0.amount),
    ensures
        r is Ok <==> good_node(self.k().def(), GNode::Mv(*$p0)),
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.k() == self.k() && applied_node(self, GNode::Mv(*$p0), &r->Ok_0),

@fn cubing_core/src/kpuzzle/packed/kpuzzle.rs KPuzzle::default_pattern
%spec
    requires
        self.wf(),
        pdata_ok(*self, self.def().default_pattern@),
    ensures
        r.wf(),
        r.k() == *self,
        r.view() == pdata_view(*self, self.def().default_pattern@),

@raw


@fn cubing_core/src/kpuzzle/packed/kpuzzle.rs KPuzzle::lookup_orbit
%spec
    requires
        self.wf(),
    ensures
        r is Some ==> self.has(*r->0) && r->0.name == *$p0,
        r is None ==> forall|j: int| 0 <= j < self.orbits().len() ==> (#[trigger] self.orbits()[j]).name != *$p0,
%opt sub &orbit.name == orbit_name => orbit.name == *orbit_name
%hint tail
    proof {
        assert forall|j: int| 0 <= j < self.orbits().len() && vx_r is None implies (#[trigger] self.orbits()[j]).name != *$p0 by {
            assert(*orbit_refs(*self)[j] == self.orbits()[j]);
        }
    }
%closure 0
|$c0_0: &&KPuzzleOrbitInfo| -> (vx_b: bool)
    ensures
        vx_b == ($c0_0.name == *$p0),
%alt
%loop 0 it
    invariant
        self.wf(),
        it.seq().len() == self.orbits().len(),
        forall|j: int| 0 <= j < self.orbits().len() ==> *#[trigger] it.seq()[j] == self.orbits()[j],
        forall|j: int| 0 <= j < it.index@ ==> (#[trigger] self.orbits()[j]).name != *$p0,
%hint loopstart 0
    proof { lemma_orbit(*self, it.index@); }

@fn cubing_core/src/kpuzzle/packed/kpuzzle.rs <KPuzzle as TryFrom<KPuzzleDefinition>>::try_from
%opt inherent
%opt sub Self::Error => InvalidDefinitionError
%spec
    requires
        def_amounts_ok($p0),
        $p0.orbits@.len() <= 0x100_0000_0000,
    ensures
        r is Ok <==> def_valid($p0),
        r is Ok ==> r->Ok_0.ready() && r->Ok_0.def() == $p0,
%hint start
    proof { axiom_arc_from::<KPuzzleDefinition>(); }

@raw
/// Moves and algs in a decoded definition come from their notation (C19), whose amounts can be
/// negated (C18); a definition has fewer than 2^40 orbits.
pub axiom fn axiom_decoded_def(b: Seq<u8>)
    ensures
        serde_json::decode::<KPuzzleDefinition>(b) is Some ==> {
            let d = serde_json::decode::<KPuzzleDefinition>(b)->0;
            def_amounts_ok(d) && d.orbits@.len() <= 0x100_0000_0000
        },
;

@fn cubing_core/src/kpuzzle/packed/kpuzzle.rs KPuzzle::try_from_json
%spec
    ensures
        r is Ok <==> serde_json::decode::<KPuzzleDefinition>($p0@) is Some && def_valid(serde_json::decode::<KPuzzleDefinition>($p0@)->0),
        r is Ok ==> r->Ok_0.ready() && r->Ok_0.def() == serde_json::decode::<KPuzzleDefinition>($p0@)->0,
%hint start
    proof {
        axiom_arc_from::<KPuzzleDefinition>();
        axiom_decoded_def($p0@);
    }

@fn cubing_core/src/kpuzzle/packed/ktransformation.rs KTransformation::packed_orbit_data_mut
%spec
    ensures
        *r == old(self).packed_orbit_data,
        final(self).packed_orbit_data == *final(r),

@fn cubing_core/src/kpuzzle/packed/kpattern.rs KPattern::packed_orbit_data_mut
%spec
    ensures
        *r == old(self).packed_orbit_data,
        final(self).packed_orbit_data == *final(r),

@raw
} // verus!
