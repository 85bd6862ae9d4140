"""Which harnesses decide which property, the points each must reach, and its bounds."""

ASSUMPTIONS = [
    "The encoding is the LLVM IR that rustc makes of the harness and cubing_core at opt-level 1 after LTO, "
    "with debug assertions and overflow checks; panics abort, so unwinding paths are not encoded.",
    "The symbolic executor (engine/) and Z3 are trusted; every candidate and a sample of the explored paths are "
    "run natively and compared.",
    "Byte tables built by the executor are proved equal to the expression they replace by Z3; composing tables "
    "by constant folding is trusted.",
    "Allocation never fails; printing to stdout and stderr does nothing; the hash keys of the standard "
    "library's hash maps are fixed.",
]


def H(covers, quick, thorough=None, **kw):
    return dict(covers=covers, quick=quick, thorough=thorough or quick, **kw)


NUMTEXT = ("texts around numerals (prefix, amount, grouping, tuple, commutator places) of up to 10 fixed digits at the "
           "31/32/8-bit boundaries followed by up to 2 arbitrary bytes; nested texts of 8 fixed shapes with up to %d "
           "arbitrary bytes in the hole")
TREE = "every alg of at most %d nodes nested at most 2 deep over moves, tuple parts, slash, pause, line break, comment, " \
       "grouping, commutator, conjugate; every amount -128..=127"

MUT = "8 texts of about 40 bytes with any one byte replaced by any other, inserted or missing"
NEAR = ("moves whose family differs in one place from one with special notation, any amount of -128..=127, alone and in "
        "groupings with Square-1 parts")
TUPLE = "groupings of two of U_SQ_, D_SQ_, R with or without a prefix and any amounts of -128..=127, with a pause or line break"
DEEP = "chains of %d nested groupings, commutators and conjugates on either side around 4 kinds of content"
LARGE = "sequences of 9, 17, 40 or 70 (thorough: 140) nodes one of which is any of 9 kinds with any amount of -128..=127, long names and comments"

WIDE = ("4 puzzles: 255 pieces; 130+200+3; 60+24+40 with 12, 107, 1 orientations; nine orbits of 0 to 129; fixed permutations, about 10 (thorough: 18 or 24) arbitrary entries spread over the orbits")

DEEPTEXT = "7, 16, 34 or 70 brackets in brackets, of one of 6 kinds or of all in turn, around 3 texts with or without any byte after them"
WIDETEXT = "7, 16, 34 or 70 times one of 7 texts, with any byte replaced or inserted in 5 places"
NAMETEXT = "7 texts with a name, comment, number or run of blanks of 30, 130 or 260 (thorough: 650) bytes, one of which (in 5 places) is any"
FOREIGN = "1, 4, 9 or 35 (thorough: 130) of one of 6 characters (or sequences) of more than one byte, after 0..=3 letters, in 6 surroundings, with 4 ends"
LONGNAME = "moves and comments of 30, 130 or 260 (thorough: 650) letters, one of which (in 5 places) is any, in 5 surroundings"
DEEPER = "7, 16, 34 or 70 nodes in nodes, of one of 6 kinds or of all in turn, around 3 leaves"

HARNESSES = {
    # command line tool
    "h_cli_parse": H([1, 2], "every UTF-8 text of at most 4 bytes, as the argument (not beginning with -) or on standard input", "5 bytes", crate="cli"),
    "h_cli_parse_shaped": H([1, 2], "6 shapes of longer texts around every UTF-8 text of at most 3 bytes", "4 bytes", crate="cli"),
    "h_cli_invert": H([1, 2], "every UTF-8 text of at most 4 bytes, as the argument (not beginning with -) or on standard input", "5 bytes", crate="cli"),
    "h_cli_invert_shaped": H([1, 2], "6 shapes of longer texts around every UTF-8 text of at most 3 bytes", "4 bytes", crate="cli"),
    "h_cli_usage": H([1], "11 wrong calls", crate="cli"),
    "h_cli_completions": H([1], "5 shells", crate="cli"),
    "h_cli_long": H([1, 2], "50 or 300 times one of 5 texts, followed by any ASCII byte, as the argument or on standard input (read in pieces)", "also 2000 times", crate="cli"),
    # threads
    "h_par_ops": H([1], "any two of 12 operations on shared values with any values of 5 entries, every schedule of two threads with at most 4 "
                   "unforced changes of thread", "10 unforced changes", threads=True),
    "h_par_drop": H([1], "4 ways in which the last owners of shared values end in two threads, at most 8 unforced changes of thread",
                    "14 unforced changes", threads=True),
    "h_par_once": H([1], "two threads parsing texts with Square-1 tuples for the first time, at most 3 unforced changes of thread",
                    "5 unforced changes", threads=True),
    "h_par_eval": H([1], "one of 2 evaluations of an alg with a derived move next to one of 14 operations, at most 1 unforced change of thread",
                    "3 unforced changes", threads=True),
    "h_par_builtin": H([1], "two threads asking for a built-in cube first, at most 1 unforced change of thread", "2 unforced changes", threads=True),
    # parsing
    "h_total_alg": H([1], "every UTF-8 text of at most 5 bytes", "every UTF-8 text of at most 6 bytes", no_asserts=True),
    "h_total_long": H([1], NUMTEXT % 2, NUMTEXT % 3, no_asserts=True),
    "h_total_move": H([1], "every UTF-8 text of at most 5 bytes", "every UTF-8 text of at most 6 bytes", no_asserts=True),
    "h_total_move_long": H([1], NUMTEXT % 2, no_asserts=True),
    "h_total_comment": H([1], "every UTF-8 text of at most 4 bytes"),
    "h_parse_alg": H([2, 3], "every UTF-8 text of at most 5 bytes", "every UTF-8 text of at most 6 bytes"),
    "h_parse_long": H([2, 3], NUMTEXT % 2, NUMTEXT % 3),
    "h_parse_move": H([2, 3], "every UTF-8 text of at most 5 bytes", "every UTF-8 text of at most 6 bytes"),
    "h_parse_move_long": H([2, 3], NUMTEXT % 2),
    "h_parse_try_from": H([2, 3], "every UTF-8 text of at most 3 bytes"),
    "h_total_mutated": H([1], MUT, no_asserts=True),
    "h_parse_mutated": H([2, 3], MUT),
    "h_total_deep": H([1], DEEPTEXT + "; " + WIDETEXT + "; " + NAMETEXT, "also 140 of them", no_asserts=True),
    "h_parse_deep": H([2, 3], DEEPTEXT, "also 140 brackets"),
    "h_total_foreign": H([1], FOREIGN),
    "h_parse_foreign": H([2, 3], FOREIGN),
    "h_parse_names": H([2, 3], NAMETEXT),
    "h_parse_wide": H([2, 3], WIDETEXT, "also 140 times"),
    # printing
    "h_print_move": H([4], "prefixes, families (10 with special notation, or 1..=3 arbitrary letters and underscores), "
                           "amounts in 5 windows of 256 values at notation boundaries", "the same, 17 windows"),
    "h_print_quantum": H([4], "prefixes in 5 windows of 256 values, families as for moves"),
    "h_print_amounts": H([4], "5 shapes of nodes with amounts in 9 windows of 256 values", "17 windows"),
    "h_print_tree": H([4], TREE % 3, TREE % 4),
    "h_print_text": H([4], "every alg parsed from at most 5 bytes", "every alg parsed from at most 6 bytes"),
    "h_print_text_long": H([4], NUMTEXT % 2, NUMTEXT % 3),
    "h_print_mutated": H([4], "every alg parsed from " + MUT),
    "h_print_near": H([4], NEAR),
    "h_print_tuple": H([4], TUPLE),
    "h_print_deep": H([4], DEEP % 3, DEEP % 5),
    "h_print_deeper": H([4], DEEPER, "also 140 nodes"),
    "h_print_names": H([4], LONGNAME),
    "h_print_large": H([4], LARGE),
    # inversion
    "h_invert_near": H([5, 6], NEAR),
    "h_invert_tuple": H([5, 6], TUPLE),
    "h_invert_deep": H([5, 6], DEEP % 3, DEEP % 5),
    "h_invert_deeper": H([5, 6], DEEPER, "also 140 nodes"),
    "h_invert_names": H([5, 6], LONGNAME),
    "h_invert_large": H([5, 6], LARGE),
    "h_invert_mutated": H([5, 6], "every alg parsed from " + MUT),
    "h_invert_tree": H([5, 6], TREE % 3, TREE % 4),
    "h_invert_text": H([5, 6], "every alg parsed from at most 5 bytes", "every alg parsed from at most 6 bytes"),
    "h_invert_move": H([5, 6], "every move with any 32-bit layers and any amount but i32::MIN; families as for printing"),
    "h_invert_amount": H([5, 6], "groupings (of moves, of nothing, of pauses and comments, of groupings, commutators, conjugates), commutators, conjugates, with any 32-bit amounts but i32::MIN"),
    # serialized forms
    "h_serde_alg": H([1, 2], "every UTF-8 string of at most 4 bytes", "every UTF-8 string of at most 5 bytes"),
    "h_serde_move": H([1, 2], "every UTF-8 string of at most 5 bytes", "every UTF-8 string of at most 6 bytes"),
    "h_serde_quantum": H([1, 2], "every UTF-8 string of at most 5 bytes", "every UTF-8 string of at most 6 bytes"),
    "h_serde_tree": H([1], TREE % 2, TREE % 3),
    "h_serde_foreign": H([1, 2], FOREIGN),
    "h_serde_other": H([1, 2], "every byte string of at most 3 bytes as JSON, without fractions and exponents", "4 bytes"),
    # building and comparing
    "h_builder": H([1], "every history of at most 3 pushed nodes and algs", "4 nodes"),
    "h_builder_long": H([1], "histories of 7, 16, 34 or 70 pushes of 4 patterns, one with any amount of -128..=127", "also 140 pushes"),
    "h_equality_long": H([1, 2], "pairs of names and comments of 9..=70 letters, sequences of 24 moves or groupings, or up to 24 nodes in nodes, that may differ in any one byte or amount"),
    "h_alg_equality": H([1, 2], "pairs of algs of at most 2 nodes each", "3 nodes each"),
    "h_move_equality": H([1, 2], "pairs of moves: prefixes over 3 windows of 256 layers, families of 1..=2 letters, amounts -128..=127"),
    "h_alg_constructors": H([1], "layers over 3 windows of 256 values, amounts -128..=127"),
    # transformations and patterns
    "h_group_assoc": H([1], "three transformations of 3 pieces, orientations 1, 2, 3, 107", "4 pieces, 8 numbers of orientations"),
    "h_group_identity": H([1], "transformations of 4 pieces, 5 numbers of orientations", "6 pieces, 9 numbers of orientations"),
    "h_group_inverse": H([1], "transformations of 4 pieces, 5 numbers of orientations", "5 pieces, 9 numbers of orientations"),
    "h_group_inverse_product": H([1], "two transformations of 3 pieces, 3 orientations", "orientations 2, 3, 12"),
    "h_action_compose": H([1], "patterns of 3 pieces with any orientations and moduli, two transformations; orientations 1..=4", "also 6, 12"),
    "h_action_inverse": H([1], "patterns of 3 pieces, one transformation; orientations 1..=4", "4 pieces, also 6, 12, 16"),
    "h_ref_transformation": H([1], "3 puzzles of 2 or 3 orbits of 0..=3 pieces", "4 puzzles, up to 4 pieces and 12 orientations"),
    "h_ref_pattern": H([1], "3 puzzles of 2 or 3 orbits of 0..=3 pieces", "4 puzzles, up to 4 pieces and 12 orientations"),
    "h_pack": H([1], "each of the 107 supported numbers of orientations, every orientation and modulus; turns of any size for 1..=8, 12, "
                     "24, 60, 105, 107 orientations, of the smallest and largest size for the others", "turns of any size for all"),
    "h_pack_distinct": H([1], "pairs of orientations and moduli for 6 numbers of orientations", "11 numbers of orientations"),
    # algs on puzzles
    "h_eval_tree": H([1, 2], "every alg of at most 3 nodes nested at most 2 deep over two moves on 3 pieces with 2 orientations, "
                             "fixed permutations and any orientation changes", "4 nodes"),
    "h_eval_perm": H([1], "6 shapes of algs over two moves that are any transformations of orbits of 3 and 2 pieces"),
    "h_eval_amount": H([1], "one move, and one grouping, with amounts -128..=127, the 16 values at each end of 32 bits, the 3 around each power of two, 90 patterns of bits, both signs",
                       "53 windows of 256 amounts (around each power of two), 3 permutations, orientations 2, 3, 5"),
    "h_eval_pattern": H([1, 2, 3, 4], "algs of at most 2 nodes applied to any pattern of 3 pieces", "3 nodes"),
    "h_eval_concat": H([1], "pairs of algs of at most 2 and 1 nodes", "2 and 2 nodes"),
    "h_eval_long": H([1, 2], "sequences of 7, 16, 34 or 70 moves, one of which (in 5 places) is one of 7 other parts, one orientation change any of 3", "also 140 moves"),
    "h_eval_deep": H([1, 2], DEEPER + ", which may not exist, one orientation change any of 3", "also 140 nodes"),
    "h_lookup_names": H([1, 2], "1..=24 definitions (direct or derived) with names of 25 letters, asked for with a name that differs in one place from the common part, 5 amounts"),
    "h_lookup": H([1, 2], "a family with definitions of amounts 1, 2, -1 that are missing, direct, derived or both, each prefix; asked "
                          "with 11 amounts (to the ends of 32 bits) and 4 keys", "5 defined amounts, 14 asked ones"),
    "h_lookup_far": H([1, 2], "a family defined with one of 10 amounts up to the ends of 32 bits and its negation, directly or derived; asked with those and their halves"),
    "h_lookup_layers": H([1, 2], "prefixes of one or two layers 0..=255 against a definition"),
    "h_lookup_slash": H([1, 2], "slash moves defined and asked with amounts 1, -1, 2, -2, with and without a prefix"),
    "h_derived": H([1, 2, 3, 4], "two derived moves, one any of 39 forms, one any of 24, over the derived moves and a direct one", "three derived moves, 39 forms each"),
    "h_derived_many": H([1, 2], "1..=12 derived moves, one of which needs itself, an unknown move, another one or nothing", "1..=20"),
    # data and JSON
    "h_data_transformation": H([1], "every transformation of 3 puzzles of 1 or 2 orbits of 0..=2 pieces"),
    "h_data_pattern": H([1], "every pattern of 3 puzzles of 1 or 2 orbits of 0..=2 pieces"),
    "h_data_default": H([1], "every default pattern of 3 puzzles of 1 or 2 orbits of 0..=2 pieces"),
    "h_json_transformation": H([1], "every transformation of 2 pieces with 3 orientations, as JSON"),
    "h_json_pattern": H([1], "every pattern of a piece with 3 or 107 orientations, as JSON in 3 forms"),
    "h_data_definition": H([1, 2], "definitions of 2 pieces with any default pattern or any move, 9 names of moves, 3 forms of derived moves"),
    "h_data_files": H([1], "the example files of the repository; every pattern of the puzzle of 12 pieces"),
    "h_wide_data": H([1], WIDE),
    "h_bad_transformation": H([1, 2], "3 puzzles; any orbit missing; any values in lists of up to one entry less or more than needed",
                              "lists of 0 up to two entries more than needed"),
    "h_bad_pattern": H([1, 2], "3 puzzles; any orbit missing; any values in lists of up to one entry less or more than needed; with or "
                               "without moduli", "lists of 0 up to two entries more than needed"),
    "h_bad_definition": H([1, 2], "every number of orientations 0..=255; 0..=3 pieces; a move of any values in lists of up to one entry less or more"),
    "h_json_t_template": H([1, 2], "6 JSON texts with a hole of at most 2 arbitrary bytes (without fractions and exponents)", "3 bytes"),
    "h_json_q_template": H([1, 2], "6 JSON texts with a hole of at most 2 arbitrary bytes (without fractions and exponents)", "3 bytes"),
    "h_json_d_template": H([1, 2], "a JSON text with holes of at most 2 arbitrary bytes (without fractions and exponents); every number of "
                                   "orientations", "3 bytes"),
    "h_json_short": H([1, 2], "every byte string of at most 3 bytes (without fractions and exponents) as JSON", "4 bytes"),
    "h_json_mutated": H([1, 2, 3, 4], "two JSON texts of about 60 bytes with any one byte replaced, inserted or missing"),
    "h_error_chain": H([1, 2], "errors of parsing and of any one-letter move, and their conversions"),
    "h_bad_names": H([1], "8 kinds of definitions and data, 6 of them bad, with 80 names of puzzle and orbit: up to 40 of 5 characters, 4 of them of more than one byte"),
    "h_bad_wide": H([1, 2], "one entry (in 7 places) of the data of a puzzle is any byte, a list is too short or an orbit missing; 4 puzzles: 255 pieces; "
                           "130+200+3; 60+24+40 with 12, 107, 1 orientations; nine orbits of 0 to 129"),
    # equality and copies
    "h_eq_pattern": H([1], "pairs of patterns of 4 puzzles of up to 3 orbits and 5 pieces"),
    "h_eq_transformation": H([1], "pairs of transformations of 4 puzzles of up to 3 orbits and 5 pieces"),
    "h_eq_paths": H([1], "patterns and transformations of 2 pieces made by setters, by applying and through data, also for the puzzle loaded again; 3 or 4 orientations",
                    "3 pieces; also 2 pieces with 12 orientations"),
    "h_clone": H([1, 2], "every entry of 4 puzzles changed to any value after copying"),
    "h_eq_wide": H([1], WIDE),
    # buffers
    "h_buffer_pattern": H([1], "every history of at most 4 steps from any pattern of an orbit of 3, four transformations, one of which may be the identity, one takes back another", "5 steps"),
    "h_buffer_transformation": H([1], "every history of at most 4 steps from any transformation of an orbit of 3, four transformations, one of which may be the identity, one takes back another", "5 steps"),
    "h_buffer_wide": H([1], WIDE + "; three steps"),
    "h_buffer_long": H([1], "histories of 7, 16, 34 or 70 steps in 6 patterns of four transformations, on 3 and 2 pieces; one piece and one orientation with modulus of the first pattern and one orientation change any", "also 140 steps"),
    # entries
    "h_set_pattern": H([1], "every history of at most 2 writes to any pattern of 4 puzzles", "3 writes"),
    "h_set_transformation": H([1], "every history of at most 2 writes to any transformation of 4 puzzles", "3 writes"),
    "h_set_raw": H([1, 2], "one unchecked or raw read and write of any entry, any value in range, of 4 puzzles of up to 3 orbits and 5 pieces"),
    "h_set_wide": H([1], "a write to every entry; " + WIDE),
    "h_out_of_range": H([1], "9 calls with every index and value out of range, 3 puzzles of orbits of 0, 2, 3, 5 and 255 pieces", no_asserts=True),
    "h_orbits": H([1, 2], "two puzzles; every name of at most 2 ASCII bytes"),
    # memory
    "h_memory": H([1], "every history of 4 of 9 operations on 4 puzzles (two of them without pieces), two orders of giving up", "5 operations"),
    "h_memory_bad": H([1, 2], "loads that fail at any stage, with any values"),
    "h_memory_wide": H([1], WIDE),
    # many pieces
    "h_wide_group": H([1], WIDE),
    "h_wide_action": H([1], WIDE),
    "h_wide_ref": H([1], WIDE),
    "h_wide_eval": H([1], "4 algs on " + WIDE),
    # macros
    "h_macro_text": H([1], "every ASCII text of at most 3 bytes; 7 other characters with at most 1 ASCII byte around", "4 bytes; 2 around"),
    "h_macro_numbers": H([1], "moves with numerals at the limits of 31 and 32 bits with up to 2 arbitrary digits or bytes", "also as algs"),
    "h_macro_moves": H([], "every kind of prefix and 4 families with amounts at the limits of 8, 16, 31 and 32 bits"),
    "h_macro_tokens": H([1], "16 shapes of token streams around an arbitrary letter"),
    # built-in puzzles
    "h_cube3_moves": H([1], "every move of the 3x3x3 (42) with 6 amounts on any stickering with 3 kinds of moduli", "12 amounts"),
    "h_cube2_moves": H([1], "every move of the 2x2x2 (15) with 6 amounts on any stickering with 3 kinds of moduli", "12 amounts"),
    "h_cube3_two": H([1], "every move of the 3x3x3 and one of 6 others, in 3 forms, on any stickering", "every two moves"),
    "h_cube2_two": H([1], "every move of the 2x2x2 and one of 6 others, in 3 forms, on any stickering", "every two moves"),
    "h_cube_solved": H([1, 2, 3, 4], "the default patterns and orbits; every one-letter family"),
    "h_derived_long": H([1, 2], "chains and rings of 7, 16, 34 or 70 derived moves of 4 shapes, with 5 ends", "also 140"),
    "h_derived_chain": H([1, 2], "chains and rings of 1..=12 derived moves", "1..=20"),
}

PROPS = {
    "C01": dict(harnesses=["h_total_alg", "h_total_long", "h_total_move", "h_total_move_long", "h_total_comment", "h_total_mutated", "h_total_deep", "h_total_foreign"],
                outside="longer texts; nesting that exhausts the stack"),
    "C02": dict(harnesses=["h_parse_alg", "h_parse_long", "h_parse_move", "h_parse_move_long", "h_parse_mutated", "h_parse_try_from",
                          "h_parse_deep", "h_parse_wide", "h_parse_names", "h_parse_foreign"],
                outside="longer texts"),
    "C03": dict(harnesses=["h_print_move", "h_print_quantum", "h_print_amounts", "h_print_tree", "h_print_text", "h_print_text_long",
                          "h_print_mutated", "h_print_near", "h_print_tuple", "h_print_deep", "h_print_large", "h_print_deeper", "h_print_names"],
                outside="larger algs; amounts outside the windows; i32::MIN; families that are not text of the notation",
                assumptions=["Line breaks that end a comment, and a grouping of amount 1 around a single commutator or conjugate, "
                             "are not distinguished by the notation, so both sides are normalized."]),
    "C04": dict(harnesses=["h_invert_tree", "h_invert_text", "h_invert_move", "h_invert_amount", "h_invert_near", "h_invert_tuple",
                          "h_invert_deep", "h_invert_large", "h_invert_mutated", "h_invert_deeper", "h_invert_names"],
                outside="larger algs; the amount i32::MIN, which has no negation",
                assumptions=["Inverting twice is not compared for algs with a negated Square-1 tuple, whose inverse is a tuple of other moves."]),
    "C05": dict(harnesses=["h_serde_alg", "h_serde_move", "h_serde_quantum", "h_serde_tree", "h_serde_other", "h_serde_foreign"],
                outside="longer strings; floating point numbers in JSON"),
    "C06": dict(harnesses=["h_builder", "h_alg_equality", "h_move_equality", "h_alg_constructors", "h_builder_long", "h_equality_long"], outside="longer histories, larger algs"),
    "K10": dict(harnesses=["h_group_assoc", "h_group_identity", "h_group_inverse", "h_group_inverse_product", "h_wide_group"],
                outside="orbits with more pieces; the other numbers of orientations"),
    "K11": dict(harnesses=["h_action_compose", "h_action_inverse", "h_wide_action"], outside="orbits with more pieces; the other numbers of orientations"),
    "K12": dict(harnesses=["h_ref_transformation", "h_ref_pattern", "h_wide_ref"], outside="more and larger orbits"),
    "K13": dict(harnesses=["h_pack", "h_pack_distinct"], outside="several turns in a row (covered by K11 for small numbers)"),
    "K14": dict(harnesses=["h_eval_tree", "h_eval_perm", "h_eval_amount", "h_eval_pattern", "h_eval_concat", "h_wide_eval", "h_eval_long",
                          "h_eval_deep"],
                outside="larger algs and puzzles; the amount i32::MIN"),
    "K15": dict(harnesses=["h_lookup", "h_lookup_far", "h_lookup_layers", "h_lookup_slash", "h_lookup_names"], outside="other families and amounts"),
    "K16": dict(harnesses=["h_derived", "h_derived_chain", "h_derived_many", "h_derived_long"], outside="more derived moves, longer chains, other forms"),
    "K17": dict(harnesses=["h_data_transformation", "h_data_pattern", "h_data_default", "h_json_transformation", "h_json_pattern",
                          "h_data_definition", "h_data_files", "h_wide_data"],
                outside="other puzzles; the order of the keys in JSON text"),
    "K18": dict(harnesses=["h_bad_transformation", "h_bad_pattern", "h_bad_definition", "h_bad_wide", "h_bad_names", "h_json_t_template", "h_json_q_template",
                          "h_json_d_template", "h_json_short", "h_json_mutated", "h_error_chain"],
                outside="longer JSON; fractions and exponents in JSON; lists much longer or shorter than needed",
                assumptions=["What a JSON text says is taken from serde_json's generic reading of it.",
                             "Entries beyond the number of pieces may be ignored or refused."]),
    "K19": dict(harnesses=["h_eq_pattern", "h_eq_transformation", "h_eq_paths", "h_clone", "h_eq_wide"], outside="other puzzles"),
    "K20": dict(harnesses=["h_buffer_pattern", "h_buffer_transformation", "h_buffer_wide", "h_buffer_long"], outside="longer histories"),
    "K21": dict(harnesses=["h_set_pattern", "h_set_transformation", "h_set_raw", "h_set_wide", "h_out_of_range", "h_orbits"],
                outside="orbit descriptions of another puzzle; the unchecked (unsafe) accessors with bad arguments"),
    "K22": dict(harnesses=["h_memory", "h_memory_bad", "h_memory_wide", "h_data_files"],
                outside="longer histories; threads (K24); unwinding after a panic"),
    "K23": dict(harnesses=["h_cube3_moves", "h_cube2_moves", "h_cube3_two", "h_cube2_two", "h_cube_solved"],
                outside="other amounts (K14) and longer algs; other puzzles",
                assumptions=["The geometric model fixes the names of the faces, the order of the stickers and which side of a "
                             "center counts as up."]),
    "K24": dict(harnesses=["h_par_ops", "h_par_drop", "h_par_once", "h_par_eval", "h_par_builtin"],
                outside="more threads or forced changes of thread; values that only weak memory orders allow (accesses that need them are "
                        "reported as races instead); destructors of thread-local values; running out of threads",
                assumptions=["Between two synchronising steps (atomic operations, futex calls) a thread runs undisturbed: what happens there "
                             "is the same in every order unless there is a data race, which is reported.",
                             "Atomic operations take place in one order that all threads agree on."]),
    "L01": dict(harnesses=["h_cli_parse", "h_cli_parse_shaped", "h_cli_invert", "h_cli_invert_shaped", "h_cli_usage", "h_cli_completions",
                          "h_cli_long"],
                outside="longer texts; text that is not UTF-8; arguments that begin with -; output that cannot be written; what is printed on "
                        "standard error; environment variables",
                assumptions=["The tool runs as a function: its source with `std` and `clap` bound to wrappers that take the arguments and "
                             "standard input from the harness and give it what is printed and the exit code; clap itself is the real one."]),
    "M01": dict(harnesses=["h_macro_text", "h_macro_numbers", "h_macro_moves", "h_macro_tokens"],
                outside="longer texts; other tokens; what rustc makes of the emitted code",
                assumptions=["The macros' functions run on proc_macro2's token streams in place of the compiler's (the crate is copied with "
                             "its `#[proc_macro]` attributes removed and `proc_macro`, `syn` bound to thin wrappers).",
                             "The value of the emitted code is what an interpreter of literals, calls, struct and method expressions "
                             "in the harness gives; nothing is claimed about emitted code that it does not understand."]),
}
