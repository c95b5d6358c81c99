import json
K='cubing_core/src/kpuzzle/packed/'
A='cubing_core/src/alg/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=[],obs=[]):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
p('C01','Applying a transformation moves and turns every piece exactly as defined',
 "Applying a transformation to a pattern of the same puzzle gives, at every position of every orbit, the piece that was at the position named by the transformation's permutation, with its orientation increased by the orientation delta and reduced modulo that piece's own orientation modulus (which travels with the piece; the orbit's number of orientations when none is set). Neither input changes, and nothing outside the result is written.",
 ['inputs','configurations'],'every valid puzzle definition (any number of orbits, pieces, 1..107 orientations), every valid pattern (any orientation moduli) and every valid transformation',
 'Tests apply R to one 3x3x3 cross pattern and two moves to one 12-orientation orbit; they reach no other piece counts, moduli, orbit layouts or deltas.',
 [K+'kpattern.rs',K+'orientation_packer.rs',K+'packed_orbit_data.rs'],
 [('apply_transformation / apply_transformation_into',K+'kpattern.rs'),('OrientationPacker::transform',K+'orientation_packer.rs')],
 [('packed bytes','per orbit: num_pieces piece bytes then num_pieces packed (orientation, modulus) bytes',K+'packed_orbit_data.rs')],
 ['KPattern::apply_transformation','KPattern::apply_transformation_into','KPattern::get_piece','KPattern::get_orientation_with_mod'])
p('C02','Transformations compose as group elements and act on patterns',
 "Composing transformations of one puzzle gives the transformation whose effect is the first followed by the second: permutations compose and orientation deltas add modulo the orbit's number of orientations. Composition is associative, the identity transformation is neutral on both sides, and applying a composition to any pattern gives the same pattern as applying its parts one after the other.",
 ['inputs','configurations'],'all puzzles, all triples of valid transformations, all valid patterns',
 'Tests compose a handful of 3x3x3 moves; associativity and the action law quantify over all triples, orbit shapes and moduli.',
 [K+'ktransformation.rs',K+'kpuzzle.rs',K+'kpattern.rs'],
 [('KTransformation::apply_transformation / _into',K+'ktransformation.rs'),('identity_transformation',K+'kpuzzle.rs'),('KPattern::apply_transformation',K+'kpattern.rs')],
 [],['KTransformation::apply_transformation','KPuzzle::identity_transformation'])
p('C03','Inverting a transformation undoes it from both sides',
 "For every valid transformation, composing it with its inverse in either order gives the identity transformation, and the inverse is again a valid transformation of the same puzzle. Hence applying a transformation and then its inverse returns every pattern unchanged.",
 ['inputs','configurations'],'all puzzles and all valid transformations',
 'No test inverts a transformation with a non-trivial orientation in an orbit of more than one orientation; the law quantifies over all permutations and deltas.',
 [K+'ktransformation.rs'],[('KTransformation::invert',K+'ktransformation.rs')],[],['KTransformation::invert'])
p('C04','Repeating a move or group n times equals applying it n times',
 "A move or group with amount n acts as its base applied n times in a row, for every n: amount 0 is the identity and a negative amount is the inverse applied that many times. So amounts add: n followed by m equals n+m.",
 ['inputs','configurations'],'all valid transformations and all 32-bit amounts above the minimum',
 'Tests use R, R2, R4, R5 and one negative amount; the repeated-squaring code has odd/even/sign branches whose correctness depends on every bit of the amount.',
 [K+'ktransformation.rs',K+'kpuzzle.rs'],[('KTransformation::self_multiply',K+'ktransformation.rs'),('KPuzzle::transformation_from_move',K+'kpuzzle.rs')],[],['KPuzzle::transformation_from_move','KPuzzle::transformation_from_alg'])
p('C05','An alg acts as its moves in order; groups, commutators, conjugates expand',
 "Evaluating an alg on a puzzle gives the composition of its nodes in order: pauses, newlines and comments do nothing, a group acts as its content repeated by its amount, a commutator [A, B] as A B A' B' and a conjugate [A: B] as A B A'. Evaluation fails exactly when a move that is needed does not exist on the puzzle, and on failure nothing is returned; applying an alg or a move to a pattern is applying that evaluation.",
 ['inputs','programs','configurations'],'all algs (any nesting depth and length), all puzzles with acyclic derived moves',
 'Tests evaluate a few fixed algs on 3x3x3 and 2x2x2; the guarantee is structural over all nestings.',
 [K+'kpuzzle.rs',K+'kpattern.rs'],[('transformation_from_alg / transformation_from_alg_node',K+'kpuzzle.rs'),('KPattern::apply_alg / apply_move',K+'kpattern.rs')],[],['KPuzzle::transformation_from_alg','KPattern::apply_alg','KPattern::apply_move'])
p('C06','A move means its definition: unit move, exact entry, or inverse entry',
 "A move resolves to the puzzle's definitions in a fixed order: a definition of its amount-1 form (raised to the move's amount), then a definition of exactly that move, then a definition of its inverse (inverted); at each step a direct definition is preferred over a derived one. A move resolves if and only if one of these definitions exists.",
 ['inputs','configurations'],'all moves (any family, prefix, amount) and all puzzle definitions (any set of direct and derived move keys)',
 'Built-in puzzles define only amount-1 moves, so tests never reach the exact-entry and inverse-entry cases or their priority.',
 [K+'lookup_move.rs',K+'kpuzzle.rs'],[('lookup_move',K+'lookup_move.rs'),('KPuzzle::transformation_from_move',K+'kpuzzle.rs')],[],['KPuzzle::transformation_from_move'])
p('C07','Recursive derived moves are rejected; accepted puzzles always evaluate',
 "Building a puzzle succeeds only if no derived move depends, directly or through other derived moves, on itself, and every move used by a derived move exists. Consequently evaluating any alg or move on any successfully built puzzle terminates.",
 ['configurations','inputs'],'all puzzle definitions with any derived-move graph, including dependencies that arise only when a commutator or conjugate inverts its parts',
 'One test checks one two-move cycle; cycles of other lengths, through groups, commutators, conjugates or inverse lookups are not reached.',
 [K+'derived_moves_validator.rs',K+'kpuzzle.rs'],[('DerivedMovesValidator::check / visit / ancestor_move_keys_in_*',K+'derived_moves_validator.rs'),('KPuzzle::try_new',K+'kpuzzle.rs')],
 [('derived_move_visit_statuses','in-progress / done marks of the depth-first search',K+'derived_moves_validator.rs')],['KPuzzle::try_new','KPuzzle::try_from_json','KPuzzle::transformation_from_alg'])
p('C08','Orientation packing is lossless for every supported orientation count',
 "For every number of orientations a puzzle may declare (1 to 107), each valid (orientation, modulus) pair, where the modulus is a divisor of that number or unset, is stored in one byte and read back unchanged, distinct pairs get distinct bytes, and turning the stored value by any delta gives the stored form of the turned pair with the same modulus. Building a puzzle with any such number succeeds and with any other number fails with an error, never a crash.",
 ['configurations','inputs'],'all orientation counts 0..255 declared by a definition; all pairs and deltas',
 'Tests use 1, 2, 3, 4 and 12 orientations; the byte table can overflow only for highly composite counts such as 72, 84 or 96.',
 [K+'orientation_packer.rs',K+'kpuzzle.rs'],[('OrientationPacker::new / transform / pack / unpack',K+'orientation_packer.rs')],
 [('packing_table / unpacking_table / transformation_lookup','bijection between valid pairs and bytes',K+'orientation_packer.rs')],['KPattern::set_orientation_with_mod','KPattern::get_orientation_with_mod','KPuzzle::try_new'])
p('C09','Pattern and transformation data convert faithfully; bad data is an error',
 "Building a pattern or transformation from data succeeds exactly when the data is valid for the puzzle, and the value then reads back as the same data at every position (an orientation modulus equal to the orbit's orientation count counts as unset). Data that does not fit the puzzle (missing orbit, wrong length, out-of-range or repeated permutation entry, out-of-range orientation or delta, modulus that is not a divisor) is reported as an error, without a crash.",
 ['inputs','configurations'],'all puzzles and all data values, valid or not',
 'Tests convert a few valid 3x3x3 values and one bad modulus; the guarantee covers every malformed input.',
 [K+'ktransformation.rs',K+'kpattern.rs'],[('KTransformation::try_from_data / to_data',K+'ktransformation.rs'),('KPattern::try_from_data / to_data',K+'kpattern.rs')],[],['KTransformation::try_from_data','KTransformation::to_data','KPattern::try_from_data','KPattern::to_data'])
p('C10','Packed puzzle memory is only accessed in bounds and after initialisation',
 "Every raw memory access made by operations on valid values of one puzzle stays inside that value's own allocation, reads only bytes that were written before, and addresses the byte of the requested orbit, field and position: different (orbit, field, position) triples never share a byte. Allocations have non-zero size and are released exactly with the layout they were made with.",
 ['inputs','configurations','histories'],'all puzzles (any number of orbits and pieces, including none), all sequences of operations on valid values of the same puzzle',
 'Out-of-bounds or uninitialised accesses usually go unnoticed by value-level tests, and depend on the layout of the specific puzzle.',
 [K+'packed_orbit_data.rs',K+'ktransformation.rs',K+'kpattern.rs',K+'kpuzzle.rs'],
 [('bytes_offset, new_with_uninitialized_bytes, clone, drop, byte_slice',K+'packed_orbit_data.rs'),('offset layout in KPuzzle::try_new',K+'kpuzzle.rs'),('*_unchecked accessors',K+'ktransformation.rs')],
 [('bytes','raw allocation of layout.size() bytes',K+'packed_orbit_data.rs')],['all KPattern and KTransformation operations'])
p('C11','Inverting an alg reverses it; inverting twice gives the original',
 "The inverse of an alg lists the inverses of its nodes in reverse order: a move or group negates its amount, a commutator [A, B] becomes [B, A], a conjugate [A: B] becomes [A: B'], a Square-1 tuple negates both entries, and slashes, pauses, newlines and comments stay as they are. Inverting an alg twice gives back the original alg.",
 ['inputs','programs'],'all algs of any nesting with amounts above the 32-bit minimum',
 'Tests invert three or four literal algs.',
 [A+'alg.rs',A+'alg_node.rs',A+'move.rs',A+'grouping.rs',A+'commutator.rs',A+'conjugate.rs'],[('invert functions',A)],[],['Alg::invert'])
p('C12','A parsed alg prints as text that parses back to the same alg',
 "For every text that parses as an alg, printing the parsed alg gives text that parses again, to an equal alg; the same holds for moves, inverted moves and quantum moves. The inverse of a parsed alg also prints as text that parses, to the same nodes (except that a newline node may appear after a line comment that would otherwise swallow what follows). Printing is stable: printing the reparsed alg gives the same text.",
 ['inputs'],'all strings accepted by the parser and the inverses of their parses',
 'Tests round-trip about twenty literals; special notations, nesting, comments, prefixes and amounts combine without bound.',
 [A+'parse.rs',A+'alg.rs',A+'move.rs',A+'grouping.rs',A+'amount.rs'],[('Display implementations',A),('FromStr implementations',A+'parse.rs')],[],['Alg::to_string','str::parse::<Alg>','Move::to_string'])
p('C13','Printing a parsed alg or move never fails and prints the notation it means',
 "Printing any alg, node or move that parsing can produce (or its inverse) never fails or crashes. A move prints as its layer prefix, family and amount (amount 1 omitted, a negative amount with a prime), or in its special notation only where that notation denotes exactly that move; a group, commutator or conjugate prints its parts in its brackets followed by its amount.",
 ['inputs'],'all algs with amounts above the 32-bit minimum',
 'Formatting errors surface only for unusual families and amounts, e.g. internal special-notation names with other amounts, which no test prints.',
 [A+'move.rs',A+'amount.rs',A+'grouping.rs',A+'quantum_move.rs',A+'alg.rs'],[('Display implementations',A)],[],['Alg::to_string','Move::to_string','QuantumMove::to_string'])
p('C14','Buffers track exactly the sequence of transformations applied',
 "After any sequence of transformations is applied to a pattern buffer or a transformation buffer, its current value equals applying the same transformations one after the other to the value it was created from. Two buffers compare equal exactly when their current values are equal.",
 ['inputs','histories'],'all starting values and all finite sequences of transformations of the same puzzle',
 'No test uses a buffer; the double-buffer switch has to be right after every step of any history.',
 [K+'kpattern.rs',K+'ktransformation.rs'],[('KPatternBuffer',K+'kpattern.rs'),('KTransformationBuffer',K+'ktransformation.rs')],
 [('a_is_current','which of the two values is current',K+'kpattern.rs')],['KPatternBuffer::apply_transformation','KPatternBuffer::current','KTransformationBuffer::apply_transformation','KTransformationBuffer::current'])
p('C15','Cloned values are independent; equality is equality of contents',
 "Cloning a pattern or transformation gives an equal value in its own storage, so that changing one never changes the other. Two values of one puzzle compare equal exactly when they agree on every position of every orbit, and equal patterns hash alike.",
 ['inputs','histories','configurations'],'all puzzles and all valid values and later modifications',
 'Tests compare a few 3x3x3 values; that comparison ignores no byte and clone copies every byte must hold for every layout.',
 [K+'packed_orbit_data.rs',K+'ktransformation.rs',K+'kpattern.rs'],[('Clone, PartialEq, Hash for PackedOrbitData',K+'packed_orbit_data.rs'),('byte_slice',K+'packed_orbit_data.rs')],[],['KPattern::clone','KTransformation::clone','==','Hash'])
p('C16','Building an alg from fragments concatenates them in order',
 "An alg builder yields the alg whose nodes are exactly the nodes of the pushed fragments, in the order pushed: a pushed alg contributes its nodes, a pushed node itself. The parts of a move (layer, layer range, family) are stored by the constructors and conversions as given.",
 ['inputs','histories'],'all sequences of pushed algs and nodes',
 'One test pushes a fixed sequence.',
 [A+'alg_builder.rs',A+'quantum_move.rs'],[('AlgBuilder::push / to_alg',A+'alg_builder.rs'),('QuantumMove::new, MoveLayer::new, MoveRange::new and the From implementations',A+'quantum_move.rs')],[],['AlgBuilder::to_alg','QuantumMove::new'])
p('C17','Compile-time notation macros mean the same as runtime parsing',
 "A move or alg written with the parsing macros is equal to the value obtained by parsing the same text at run time, and text that does not parse is a compile error.",
 ['inputs','programs'],'all string literals passed to the macros',
 'Tests cover three literals without layer prefixes.',
 ['cubing_macros/src/lib.rs'],[('parse_alg! / parse_move!','cubing_macros/src/lib.rs')],[],['parse_move!','parse_alg!'])
p('C18','Parsing never crashes, and accepts only well-formed notation',
 "Parsing any text as an alg, move or quantum move ends in a value or an error, without a panic. Numbers that do not fit and nodes that are not separated by whitespace (or a newline or comment) are rejected, and every accepted amount can be negated.",
 ['inputs'],'all strings',
 'Tests parse about thirty short strings.',
 [A+'parse.rs'],[('nom parsers',A+'parse.rs')],[],['str::parse::<Alg>','str::parse::<Move>'])
p('C19','Serialized algs and moves are their notation text',
 "Serializing a move, quantum move or alg gives exactly its printed text as a string, and deserializing a string gives exactly what parsing it gives, failing where parsing fails.",
 ['inputs'],'all algs, moves and strings',
 'Tests only load whole puzzle files.',
 [A+'alg.rs',A+'move.rs',A+'quantum_move.rs'],[('Serialize / Deserialize / Visitor impls',A)],[],['serde_json::to_string','serde_json::from_str'])
p('C20','Built-in puzzles satisfy the relations of the real puzzles',
 "Both built-in puzzles (3x3x3 and 2x2x2) build successfully with a valid default pattern, every direct move definition is a valid transformation and every derived move evaluates. Every face turn and rotation has order four, opposite faces commute, and wide, slice and rotation moves agree (for example r acts as R with M', and x as R L' M').",
 ['configurations','inputs'],'all moves of the built-in puzzles and the defining relations between them',
 'Tests check a few single algs on the 3x3x3 and 2x2x2.',
 ['cubing_core/src/puzzles/3x3x3.kpuzzle.json','cubing_core/src/puzzles/2x2x2.kpuzzle.json','cubing_core/src/puzzles/lib.rs'],[('cube3x3x3_kpuzzle / cube2x2x2_kpuzzle','cubing_core/src/puzzles/lib.rs')],[],['cube3x3x3_kpuzzle','cube2x2x2_kpuzzle'])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
