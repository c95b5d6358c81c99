@include full.vx
@include builtintheory.vx
@include ../build/gen/builtin.vx
@raw
verus! {

// ---------------------------------------------------------------------------
// The built-in puzzles
// ---------------------------------------------------------------------------

/// The bytes of a file of the source tree (path relative to the file that includes it).
pub uninterp spec fn file_bytes(path: Seq<char>) -> Seq<u8>;

/// `include_bytes!`
#[verifier::external_body]
pub fn vx_file(path: &str) -> (r: &'static [u8])
    ensures
        r@ == file_bytes(path@),
{
    unimplemented!()
}

/// What the files hold (read on every run; the real crate's decoding is compared with it in the search).
pub axiom fn axiom_file_3x3x3()
    ensures
        serde_json::decode::<KPuzzleDefinition>(file_bytes("./3x3x3.kpuzzle.json"@)) is Some,
        is_file3x3x3(serde_json::decode::<KPuzzleDefinition>(file_bytes("./3x3x3.kpuzzle.json"@))->0),
;

pub axiom fn axiom_file_2x2x2()
    ensures
        serde_json::decode::<KPuzzleDefinition>(file_bytes("./2x2x2.kpuzzle.json"@)) is Some,
        is_file2x2x2(serde_json::decode::<KPuzzleDefinition>(file_bytes("./2x2x2.kpuzzle.json"@))->0),
;

pub open spec fn is_3x3x3(k: KPuzzle) -> bool {
    &&& k.ready()
    &&& is_file3x3x3(k.def())
}

pub open spec fn is_2x2x2(k: KPuzzle) -> bool {
    &&& k.ready()
    &&& is_file2x2x2(k.def())
}

/// Stand-ins for the `OnceLock` statics: a value of the cell is one that an initializer made.
pub struct Cell3x3x3 { }
pub struct Cell2x2x2 { }

impl Cell3x3x3 {
    #[verifier::external_body]
    pub fn get_or_init<F: FnOnce() -> KPuzzle>(&self, f: F) -> (r: &'static KPuzzle)
        requires
            f.requires(()),
            forall|k: KPuzzle| #[trigger] f.ensures((), k) ==> is_3x3x3(k),
        ensures
            is_3x3x3(*r),
    {
        unimplemented!()
    }
}

impl Cell2x2x2 {
    #[verifier::external_body]
    pub fn get_or_init<F: FnOnce() -> KPuzzle>(&self, f: F) -> (r: &'static KPuzzle)
        requires
            f.requires(()),
            forall|k: KPuzzle| #[trigger] f.ensures((), k) ==> is_2x2x2(k),
        ensures
            is_2x2x2(*r),
    {
        unimplemented!()
    }
}

pub const cube3x3x3_kpuzzle_cell: Cell3x3x3 = Cell3x3x3 { };
pub const cube2x2x2_kpuzzle_cell: Cell2x2x2 = Cell2x2x2 { };

@fn cubing_core/src/puzzles/lib.rs cube3x3x3_kpuzzle
%opt call try_into KPuzzle::try_from
%spec
    ensures
        is_3x3x3(*r),
        pdata_ok(*r, r.def().default_pattern@),
%hint start
    proof {
        axiom_file_3x3x3();
        axiom_decoded_def(file_bytes("./3x3x3.kpuzzle.json"@));
        lemma_3x3x3_builds(serde_json::decode::<KPuzzleDefinition>(file_bytes("./3x3x3.kpuzzle.json"@))->0);
        assert forall|k: KPuzzle| is_3x3x3(k) implies pdata_ok(k, #[trigger] k.def().default_pattern@) by { lemma_3x3x3_pattern(k); }
    }
%closure 0
|| -> (vx_k: KPuzzle)
    requires
        ({
            let d = serde_json::decode::<KPuzzleDefinition>(file_bytes("./3x3x3.kpuzzle.json"@));
            d is Some && is_file3x3x3(d->0) && def_valid(d->0) && def_amounts_ok(d->0) && d->0.orbits@.len() <= 0x100_0000_0000
        }),
    ensures
        is_3x3x3(vx_k),

@fn cubing_core/src/puzzles/lib.rs cube2x2x2_kpuzzle
%opt call try_into KPuzzle::try_from
%spec
    ensures
        is_2x2x2(*r),
        pdata_ok(*r, r.def().default_pattern@),
%hint start
    proof {
        axiom_file_2x2x2();
        axiom_decoded_def(file_bytes("./2x2x2.kpuzzle.json"@));
        lemma_2x2x2_builds(serde_json::decode::<KPuzzleDefinition>(file_bytes("./2x2x2.kpuzzle.json"@))->0);
        assert forall|k: KPuzzle| is_2x2x2(k) implies pdata_ok(k, #[trigger] k.def().default_pattern@) by { lemma_2x2x2_pattern(k); }
    }
%closure 0
|| -> (vx_k: KPuzzle)
    requires
        ({
            let d = serde_json::decode::<KPuzzleDefinition>(file_bytes("./2x2x2.kpuzzle.json"@));
            d is Some && is_file2x2x2(d->0) && def_valid(d->0) && def_amounts_ok(d->0) && d->0.orbits@.len() <= 0x100_0000_0000
        }),
    ensures
        is_2x2x2(vx_k),

@raw
} // verus!
