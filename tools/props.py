"""Which contract unit and which functions decide each property."""
PACKER = ["OrientationPacker::*", "OrientationWithMod::*"]
STORE = ["PackedOrbitData::new_with_uninitialized_bytes", "PackedOrbitData::bytes_offset", "KPuzzle::orbit_info_iter",
         "PackedOrbitData::kpuzzle", "<KPuzzle as Clone>::clone", "<PackedOrbitData as Drop>::drop"]
TGET = ["KTransformation::get_*", "KTransformation::kpuzzle"]
TSET = ["KTransformation::set_*", "KTransformation::new_uninitialized"]
PGET = ["KPattern::get_*", "KPattern::kpuzzle"]
PSET = ["KPattern::set_*", "KPattern::new_unitialized"]
TAPPLY = ["KTransformation::apply_transformation*"]
PAPPLY = ["KPattern::apply_transformation*"]
IDENT = ["identity_transformation", "KPuzzle::identity_transformation", "PackedOrbitData::set_raw_*"]
ARITH = ["u8/i32/usize arithmetic is checked by Verus (no overflow allowed), not treated as mathematical"]

CLONE = ["<PackedOrbitData as Clone>::clone*", "<KTransformation as Clone>::clone", "<KPattern as Clone>::clone"]
EQ = ["<PackedOrbitData as PartialEq>::*", "<KTransformation as PartialEq*", "<KPattern as PartialEq>::eq", "PackedOrbitData::byte_slice",
      "<KPattern as Hash>::hash", "<PackedOrbitData as Hash>::hash"]
BUF = ["KPatternBuffer::*", "<KPatternBuffer as *", "KTransformationBuffer::*", "<KTransformationBuffer as *", "<KPattern as From<&KPattern>>::from"]
NAME = ["<KPuzzleOrbitName as Clone>::clone", "<KPuzzleOrbitName as PartialEq>::eq"]
TDATA = NAME + ["<KTransformationOrbitData as Clone>::clone", "KTransformation::try_from_*", "KTransformation::to_data", "<InvalidKTransformationDataError as From<String>>::from", "<KPuzzle as From<&KPuzzle>>::from"]
PDATA = NAME + ["<KPatternOrbitData as Clone>::clone", "KPattern::try_from_*", "KPattern::to_data", "<InvalidKPatternDataError as From<String>>::from", "<KPuzzle as From<&KPuzzle>>::from"]
DISTINCT = ["orbit names of one puzzle are distinct (assumed for the read-back half of C09 only)"]

INV = ["Move::invert", "AlgNode::invert", "Alg::invert", "Grouping::*", "Commutator::invert", "Conjugate::invert", "Pause::invert", "Newline::invert",
       "LineComment::invert", "U_SQ_quantum", "D_SQ_quantum", "<AlgNode as From<*"]
CLONES = ["<%s as Clone>::clone" % t for t in "Move MovePrefix MoveLayer MoveRange QuantumMove Pause Newline LineComment Grouping Commutator Conjugate Alg AlgNode".split()]
MOVE_EQ = ["<%s as PartialEq>::eq" % t for t in "Move QuantumMove MovePrefix MoveLayer MoveRange".split()]
INV = INV + CLONES + MOVE_EQ
AMOUNTS = ["move and group amounts are greater than i32::MIN (parsing can produce no other; only public fields can)"]
KEYS = ["derived Hash/Eq of HashMap keys agree with equality (key model of vstd)"]
LOOKUP = ["lookup_move", "move_with_amount_1", "Move::invert", "<Move as Clone>::clone"] + MOVE_EQ
EVAL = ["transformation_from_*", "KPuzzle::transformation_from_*", "<InvalidMoveError as From<String>>::from"]

PRINT = ["* as Display>::fmt", "fmt_amount", "space_between", "Alg::fmt_nested", "Grouping::square1_tuple", "U_SQ_quantum", "D_SQ_quantum"]
PARSE = ["parse_*", "from_*", "is_*", "decimal_signed", "<Move* as From<*", "<AlgNode as From<*", "PochmannStringSuffix::*", "ClockSuffix::*", "LineComment::*",
         "* as FromStr>::from_str", "* as TryFrom<&str>>::try_from", "<AlgParseError as From<&str>>::from"]
SERDE = ["* as Visitor>::visit_*", "* as Serialize>::serialize", "* as Deserialize>::deserialize"]
NOM = ["nom 7 combinators mean what their documentation says (the extractor unfolds them into the statements they stand for; the character classes, numbers and loops of the grammar stay code under contract)",
       "write!/format!/to_string write their pieces in order; u32/i32 print as decimal digits and FromStr of u32/i32 reads digits that fit",
       "a parse that would exhaust memory or the stack is out of scope"]
JSON = ["the serde data format hands the string it reads to visit_str and writes the string given to serialize_str"]

PROPS = {
    "C01": dict(unit="core", functions=PACKER + STORE + TGET + PGET + PSET + PAPPLY,
                lemmas=["lemma_act_done", "lemma_pact", "lemma_has_wf", "lemma_set_p", "lemma_set_o"], assumptions=ARITH),
    "C02": dict(unit="core", functions=PACKER + STORE + TGET + TSET + PGET + PSET + TAPPLY + PAPPLY + IDENT,
                lemmas=["lemma_comp_done", "lemma_tcomp_assoc", "lemma_tid_neutral", "lemma_pact_comp", "lemma_pact_id"], assumptions=ARITH),
    "C03": dict(unit="core", functions=PACKER + STORE + TGET + TSET + PGET + PSET + TAPPLY + PAPPLY + IDENT + CLONE + ["KTransformation::invert"],
                lemmas=["lemma_inv_step", "lemma_inv_done", "lemma_tinv", "lemma_tinv_exists", "lemma_tinv_unique", "lemma_pact_inv"], assumptions=ARITH),
    "C04": dict(unit="full", functions=["KTransformation::self_multiply", "KTransformation::invert", "KTransformation::apply_transformation*"] + EVAL + LOOKUP + IDENT + CLONE,
                lemmas=["lemma_zpow_add", "lemma_multiply", "lemma_evals_node", "lemma_evals_unique"], assumptions=ARITH + AMOUNTS + KEYS),
    "C05": dict(unit="full", functions=EVAL + LOOKUP + INV + TAPPLY + PAPPLY + IDENT + ["KTransformation::self_multiply", "KTransformation::invert", "KPattern::apply_*", "KTransformation::try_from_data"],
                lemmas=["lemma_evals_unique", "lemma_evals_node", "lemma_evals_done", "lemma_walk_mono"], assumptions=ARITH + AMOUNTS + KEYS),
    "C06": dict(unit="full", functions=LOOKUP + ["KPuzzle::transformation_from_*", "KTransformation::self_multiply", "KTransformation::try_from_data", "<Move as Clone>::clone"],
                lemmas=["lemma_lookup_key"], assumptions=AMOUNTS + KEYS),
    "C07": dict(unit="full", functions=["DerivedMovesValidator::*", "KPuzzle::try_new", "KPuzzle::try_from_json", "<KPuzzle as TryFrom*", "<InvalidDefinitionError as *"] + EVAL + LOOKUP + INV,
                lemmas=["lemma_no_cycle", "lemma_acyclic", "lemma_levels", "lemma_levels_node"], assumptions=AMOUNTS + KEYS + ["fewer than 2^40 orbits"]),
    "C08": dict(unit="full", functions=PACKER + ["KPuzzle::try_new", "KPattern::get_orientation_with_mod*", "KPattern::set_orientation_with_mod*", "KPattern::*packed_orientation*"],
                lemmas=[], assumptions=ARITH + ["fewer than 2^40 orbits"]),
    "C09": dict(unit="core", functions=PACKER + STORE + TGET + TSET + PGET + PSET + TDATA + PDATA,
                lemmas=["lemma_tdata_done", "lemma_pdata_done", "lemma_tdata_round", "lemma_pdata_round"], assumptions=ARITH + DISTINCT),
    "C10": dict(unit="full", functions=STORE + TGET + TSET + PGET + PSET + TAPPLY + PAPPLY + IDENT + CLONE + EQ + BUF + TDATA + PDATA
                + ["PackedOrbitData::*", "KTransformation::invert", "KTransformation::self_multiply", "KPattern::byte_slice", "KTransformation::byte_slice", "KPuzzle::try_new",
                   "KPattern::packed_orbit_data*", "KTransformation::packed_orbit_data*", "KPattern::apply_*"],
                lemmas=["lemma_has_wf", "lemma_set_p", "lemma_set_o", "lemma_laid_out", "lemma_bytes_cells", "lemma_same_bytes"], assumptions=ARITH + ["fewer than 2^40 orbits"]),
    "C11": dict(unit="algs", functions=INV, lemmas=["lemma_alg_inv_inv", "lemma_node_inv_inv"], assumptions=AMOUNTS),
    "C12": dict(unit="syntax", functions=PRINT + PARSE + INV,
                lemmas=["lemma_parse_print_parse", "lemma_move_parse_print", "lemma_quantum_parse_print", "lemma_inverse_print_parse", "lemma_print_parse", "lemma_snode_inj"],
                assumptions=NOM),
    "C13": dict(unit="syntax", functions=PRINT, lemmas=["lemma_wf_ok", "lemma_inv_wf"], assumptions=AMOUNTS + NOM[1:2]),
    "C17": dict(unit="macros", functions=["cubing_macros::*"] + PARSE + MOVE_EQ, lemmas=[],
                assumptions=NOM + ["quote! emits the code written in it, #x the literal denoting x's value; emitted code is read as the expression it is, evaluated where the paths std::sync::Arc, String, Some, None and cubing::alg mean what they usually do",
                                   "macro input that is no string literal is rejected by syn"]),
    "C18": dict(unit="syntax", functions=PARSE, lemmas=["lemma_not_crowded", "lemma_items_end", "lemma_node_progress", "lemma_wf_ok"], assumptions=NOM),
    "C19": dict(unit="syntax", functions=SERDE + PARSE + PRINT + MOVE_EQ, lemmas=[], assumptions=AMOUNTS + NOM + JSON),
    "C14": dict(unit="core", functions=PACKER + STORE + TGET + TSET + PGET + PSET + TAPPLY + PAPPLY + CLONE + EQ + BUF,
                lemmas=["lemma_t_eq", "lemma_p_eq", "lemma_act_done", "lemma_comp_done"], assumptions=ARITH),
    "C15": dict(unit="core", functions=STORE + TSET + PSET + CLONE + EQ + ["KPattern::byte_slice", "KTransformation::byte_slice"],
                lemmas=["lemma_t_eq", "lemma_p_eq", "lemma_bytes_cells", "lemma_same_bytes"], assumptions=ARITH),
    "C16": dict(unit="algs", functions=["AlgBuilder::*", "<AlgBuilder as Default>::default", "<AlgFragment as From<*", "<AlgNode as From<*", "<Alg as Clone>::clone", "<AlgNode as Clone>::clone",
                                              "QuantumMove::new", "MoveLayer::new", "MoveRange::new", "<Move* as From<*", "<Option<MovePrefix> as From<*"], lemmas=[], assumptions=[]),
}
PROPS["C20"] = dict(
    unit="builtin",
    functions=["cube3x3x3_kpuzzle", "cube2x2x2_kpuzzle", "KPuzzle::try_new", "KPuzzle::try_from_json", "<KPuzzle as TryFrom*", "KPuzzle::default_pattern", "DerivedMovesValidator::*",
               "KTransformation::self_multiply", "KTransformation::try_from_data", "KPattern::try_from_data"] + EVAL + LOOKUP + INV + TAPPLY + PAPPLY + IDENT,
    lemmas=["lemma_3x3x3_builds", "lemma_2x2x2_builds", "lemma_3x3x3_pattern", "lemma_2x2x2_pattern", "lemma_*_means_* (one per move)", "lemma_*_order_* (one per move)",
            "lemma_*_relation_* (one per relation of tools/relations.json)"],
    assumptions=ARITH + KEYS + ["include_bytes! yields the named file, and serde_json decodes it to what it says (the generator reads the same files with an independent JSON reader on every run; the search compares the real crate's decoding with them)",
                                "OnceLock::get_or_init returns a value made by the given initializer"])
NA = {}
