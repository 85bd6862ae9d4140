#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (from here and props.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from props import PROPS

C = "cubing_core/src/"
A = C + "alg/"
K = C + "kpuzzle/"
P = K + "packed/"


def prop(id, title, statement, over, text, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    return d


L = [
    prop("C01", "Parsing never panics on any text",
         "Parsing any text as an alg, a move or a move without an amount returns a value or an error: it never panics, never reads "
         "outside its input and always ends. Making a comment from any text is refused exactly when the text contains a line break.",
         ["inputs"], "every UTF-8 text, from the empty one over malformed notation to numbers too large to hold",
         "The tests parse a few dozen well-formed algs; a panic hides in a numeral at an integer boundary, a cut-off bracket or a "
         "multi-byte character at a place no test has.",
         [A + "parse.rs", A + "line_comment.rs"],
         [("the hand-written parser", A + "parse.rs"), ("comment constructor", A + "line_comment.rs")]),
    prop("C02", "Text is accepted exactly when it is notation, with the meaning written",
         "A text is accepted as an alg or a move exactly when it is in the documented notation, and the value has the families, layers, "
         "amounts, order and nesting written in the text. All ways to parse the same text agree.",
         ["inputs"], "every UTF-8 text",
         "The tests compare a few texts with themselves; a wrong amount, layer order or tuple reading on other text goes unseen, "
         "as does text that should be refused.",
         [A + "parse.rs", A + "special_notation.rs", A + "move.rs", A + "quantum_move.rs"],
         [("parser of nodes, moves, tuples and numerals", A + "parse.rs"), ("amount suffixes", A + "amount.rs")]),
    prop("C03", "Printed algs and moves parse back to the same value",
         "Printing an alg, a move or a move without an amount gives text that is accepted, and parsing it gives the same value back, up to "
         "distinctions that the notation does not have.",
         ["inputs"], "every value that the notation can express: built by parsing, by constructors or by inversion, with any amounts, "
         "layers and nesting",
         "Tests print a handful of parsed algs; amounts that change the form of special notation (slashes, tuples, plus suffixes) and "
         "comments inside brackets are combinations no test has.",
         [A + "alg.rs", A + "grouping.rs", A + "commutator.rs", A + "conjugate.rs", A + "move.rs", A + "quantum_move.rs",
          A + "amount.rs", A + "special_notation.rs", A + "line_comment.rs"],
         [("printing of each kind of node", A + "alg_node.rs"), ("special notation", A + "special_notation.rs"),
          ("spacing between nodes", A + "alg.rs")]),
    prop("C04", "Inversion is structural and its own inverse",
         "The inverse of an alg is the reverse of the inverses of its parts: moves and groupings get the negated amount, commutators swap "
         "their parts, conjugates keep the outer part. The original is left alone, inverting twice gives the alg back, and the inverse can "
         "be printed and parsed.",
         ["inputs"], "every alg: all kinds of nodes, nesting and amounts, with negated Square-1 tuples apart",
         "One test inverts one Square-1 tuple; order, signs and the special cases for slashes, pauses and comments are untested.",
         [A + "alg.rs", A + "grouping.rs", A + "commutator.rs", A + "conjugate.rs", A + "move.rs", A + "alg_node.rs"],
         [("inverse of each kind of node", A + "alg_node.rs"), ("tuples and slashes", A + "special_notation.rs")]),
    prop("C05", "Serialized algs and moves are exactly their text",
         "An alg, a move or a move without an amount is serialized as its text, and a serialized string or map key is accepted exactly when "
         "parsing that text succeeds, with the same result. Data of any other kind is refused with an error.",
         ["inputs"], "every string, owned, borrowed or as a key, and every short byte string as JSON",
         "No test serializes algs; moves are only read as the keys of three fixed puzzle definitions.",
         [A + "alg.rs", A + "move.rs", A + "quantum_move.rs"],
         [("Serialize and Deserialize implementations", A + "move.rs")]),
    prop("C06", "Building and comparing algs: content decides, order is kept",
         "An alg built piece by piece consists of the pieces in the order given. Algs and moves are equal exactly when their content is, equal "
         "moves hash equally, and a clone is equal to its original.",
         ["histories", "inputs"], "every history of pushed nodes and algs, every pair of algs or moves",
         "Tests build one alg of equal moves and compare a few moves; an ignored field or a hash that includes too much shows only for "
         "particular pairs.",
         [A + "alg_builder.rs", A + "move.rs", A + "quantum_move.rs", A + "alg.rs"],
         [("builder", A + "alg_builder.rs"), ("constructors of prefixes", A + "quantum_move.rs")]),
    prop("K10", "Transformations form a group",
         "Composing transformations of a puzzle is associative, the identity transformation is neutral on both sides, and composing with the "
         "inverse on either side gives the identity. The inverse of a composition is the composition of the inverses in reverse.",
         ["inputs", "configurations"], "every transformation and every number of orientations",
         "One test composes two moves of one puzzle; pieces with other numbers of orientations and permutations that are not their own "
         "inverse are the ones that tell formulas apart.",
         [P + "kpuzzle.rs", P + "ktransformation.rs"],
         [("composition, inversion and identity", P + "ktransformation.rs")],
         [("packed bytes", "permutation and orientation changes of every orbit", P + "ktransformation.rs")]),
    prop("K11", "Transformations act on patterns",
         "Applying one transformation to a pattern and then another is applying their composition, the identity changes nothing, and applying "
         "a transformation and its inverse gives the pattern back. This holds for pieces whose orientation counts only modulo a divisor.",
         ["inputs", "configurations"], "every pattern, every orientation modulus, every pair of transformations",
         "Tests apply a few algs to solved cubes; patterns with repeated pieces or with smaller orientation moduli are never used.",
         [P + "kpattern.rs", P + "orientation_packer.rs"],
         [("application to patterns", P + "kpattern.rs"), ("orientation tables", P + "orientation_packer.rs")]),
    prop("K12", "Applying a transformation moves and turns every piece as defined",
         "In every orbit, position i gets the piece of the position that the transformation names for i, with its orientation changed by the amount "
         "given for i, modulo the modulus of the piece. The in-place forms give the same whatever the target held, and the inputs stay as they were.",
         ["inputs", "configurations"], "every puzzle with several orbits of any sizes, every pattern and transformation",
         "Tests use the 3x3x3 and compare with other results of the same code; offsets between orbits of different sizes matter only for others.",
         [P + "kpattern.rs", P + "ktransformation.rs", P + "kpuzzle.rs"],
         [("orbit layout", P + "kpuzzle.rs"), ("application", P + "kpattern.rs")]),
    prop("K13", "Every supported orientation is stored exactly and turns correctly",
         "For every supported number of orientations, an orientation with any valid modulus is read back as written, turning adds modulo that "
         "modulus, and two patterns are equal exactly when orientations and moduli mean the same.",
         ["inputs", "configurations"], "all 107 supported numbers of orientations, every valid modulus and orientation, every turn",
         "One test checks one table of one number of orientations.",
         [P + "orientation_packer.rs", P + "kpattern.rs"],
         [("packing and transformation tables", P + "orientation_packer.rs")]),
    prop("K14", "An alg does what its parts do, in order",
         "The transformation of an alg is the composition of its parts: groupings repeat (backwards for negative amounts), commutators and "
         "conjugates expand, pauses, line breaks and comments do nothing, and a move with an amount is the move done that often. The inverse alg does the inverse, "
         "applying an alg to a pattern is applying its transformation, and an alg with an undefined move is refused.",
         ["inputs", "configurations"], "every alg, every amount, every definition of its moves",
         "Tests do a few sequences of face turns; repetition by squaring, negative repetition and nested structure have special cases for "
         "particular amounts.",
         [P + "kpuzzle.rs", P + "ktransformation.rs", P + "kpattern.rs"],
         [("alg traversal", P + "kpuzzle.rs"), ("repetition", P + "ktransformation.rs")]),
    prop("K15", "A move means what the puzzle's definition says about it",
         "A move has the meaning of the definition with the same family and layers: of the base move repeated, of the very same amount, or of the negated amount "
         "inverted, direct definitions before derived ones. A move without such a definition is refused with an error.",
         ["inputs", "configurations"], "every set of definitions and every move asked for",
         "The built-in puzzles define every base move; definitions with only a particular amount and moves missing are not tested.",
         [P + "lookup_move.rs", P + "kpuzzle.rs"], [("lookup of moves", P + "lookup_move.rs")]),
    prop("K16", "Derived moves work or their definition is refused",
         "A definition is refused exactly when some derived move needs an undefined move or itself, however indirectly. In an accepted puzzle every "
         "derived move can be done and does what its alg does.",
         ["configurations"], "every set of derived moves over each other, in every form of alg",
         "One test has one direct recursion; longer rings, recursion through inversion and through brackets are untested.",
         [P + "derived_moves_validator.rs", P + "lookup_move.rs"], [("check at construction", P + "derived_moves_validator.rs")]),
    prop("K17", "What is loaded is what was written: data and JSON round trips",
         "The data of a transformation or pattern has exactly its orbits and values, and loading that data, directly or as JSON, gives an equal "
         "value. JSON uses the documented camel-case names; moduli and derived moves may be left out. A definition survives JSON unchanged, the "
         "default pattern is the one of the definition, and the macros that load files give what is in the file, loaded once.",
         ["inputs", "configurations"], "every pattern, transformation and definition",
         "Tests only load a few fixed files and compare no written data at all.",
         [K + "definition.rs", P + "kpattern.rs", P + "ktransformation.rs", P + "kpuzzle.rs", K + "json_macros.rs"],
         [("serialized forms", K + "definition.rs"), ("to and from data", P + "kpattern.rs"), ("to and from data", P + "ktransformation.rs"),
          ("cells filled once", K + "json_macros.rs")]),
    prop("K18", "Bad data is refused with an error, never a panic",
         "Loading a transformation, pattern or definition from data or JSON succeeds exactly when the data is complete and in range: every orbit "
         "there, enough entries, a permutation, orientations below their modulus, moduli that divide, 1 to 107 orientations. Anything else gives an "
         "error of the right kind with a text and a finite chain of causes, and never a panic or an access out of bounds.",
         ["inputs"], "all data and JSON, valid or not",
         "One test checks one recursive definition; no test loads data with missing, short or out of range parts.",
         [P + "kpattern.rs", P + "ktransformation.rs", P + "kpuzzle.rs", P + "errors.rs", K + "definition.rs"],
         [("checks while loading", P + "kpattern.rs"), ("checks while loading", P + "ktransformation.rs"),
          ("checks of definitions and error types", P + "kpuzzle.rs")]),
    prop("K19", "Equality, hashing and copies depend on content only",
         "Two patterns, or two transformations, of a puzzle are equal exactly when every piece, orientation and modulus (modulo its two spellings) "
         "agrees, however they were made, and equal patterns hash equally; this also goes for values of the same puzzle loaded twice. A copy is equal to its original and neither is affected by changes to the other.",
         ["inputs", "histories"], "every pair of values of a puzzle, every way to make them",
         "Tests compare a few states of solved cubes; a missed byte of the comparison or of the copy shows only for values that differ there.",
         [P + "packed_orbit_data.rs", P + "kpattern.rs", P + "ktransformation.rs"],
         [("comparison, hash and copy of packed bytes", P + "packed_orbit_data.rs")]),
    prop("K20", "Buffers hold what direct application gives",
         "After any sequence of transformations a pattern or transformation buffer holds what applying them one by one to the initial value gives. Reading "
         "changes nothing, the initial value is left alone, and buffers are equal exactly when what they hold is equal, however many steps were taken.",
         ["histories"], "every sequence of operations on buffers",
         "No test uses the buffers; mixing up the two halves shows only after particular numbers of steps.",
         [P + "kpattern.rs", P + "ktransformation.rs"],
         [("double buffer for patterns", P + "kpattern.rs"), ("double buffer for transformations", P + "ktransformation.rs")],
         [("a, b, a_is_current", "the two halves and which one is current", P + "kpattern.rs")]),
    prop("K21", "Entries are read as written; out of range access is refused",
         "Setting a piece, an orientation with modulus, a permutation entry or an orientation change changes exactly that entry of that orbit, and it is "
         "read back as written; the unchecked and raw accessors do the same where their conditions hold. An index or value out of range is refused with a panic and never touches memory. Orbits are listed in the order of the "
         "definition and found by their exact name.",
         ["inputs", "histories"], "every entry of every orbit, every index and value",
         "Tests read a few entries of cubes; offsets between orbits and the limits of each setter are not exercised.",
         [P + "kpattern.rs", P + "ktransformation.rs", P + "packed_orbit_data.rs", P + "kpuzzle.rs"],
         [("checked accessors", P + "kpattern.rs"), ("checked accessors", P + "ktransformation.rs"), ("lookup_orbit", P + "kpuzzle.rs")]),
    prop("K22", "Memory is allocated, used and freed correctly",
         "The packed bytes of patterns and transformations are allocated with the layout they are freed with, never read before being written, never used "
         "out of bounds or after being freed, and freed exactly once when the last owner goes, in whatever order puzzles, patterns and transformations are "
         "dropped, also for puzzles without pieces and after loads that fail.",
         ["histories"], "every history of making, copying, combining and dropping values",
         "Tests run without a memory checker and never drop a puzzle before its patterns; a leak or a stale pointer does not fail them.",
         [P + "packed_orbit_data.rs", P + "kpattern.rs", P + "ktransformation.rs", P + "kpuzzle.rs"],
         [("raw allocation", P + "packed_orbit_data.rs"), ("layout", P + "kpuzzle.rs")],
         [("bytes", "raw pointer to the packed bytes", P + "packed_orbit_data.rs")]),
    prop("K23", "The built-in cubes turn like real cubes",
         "Every move of the notation of the built-in 3x3x3 and 2x2x2 (faces, wide and slice moves, rotations, in all their spellings) turns exactly the "
         "layers that its name says, by a quarter turn per amount, clockwise seen from the face it is named after, on any stickering. The default pattern is "
         "the solved cube, the orbits are the documented ones, and no other letter is a move.",
         ["inputs", "configurations"], "every move, every amount, every stickering of both cubes",
         "Tests check a few sequences from the solved cube; a wrong entry of a table shows only for the piece it concerns, and rarely used moves are never done.",
         ["cubing_core/src/puzzles/3x3x3.kpuzzle.json", "cubing_core/src/puzzles/2x2x2.kpuzzle.json", "cubing_core/src/puzzles/lib.rs",
          P + "lookup_move.rs"],
         [("definitions", "cubing_core/src/puzzles/3x3x3.kpuzzle.json"), ("definitions", "cubing_core/src/puzzles/2x2x2.kpuzzle.json")]),
    prop("K24", "Values may be shared between threads",
         "Puzzles, patterns, transformations, moves and algs may be used, cloned and dropped by several threads at once: every operation gives what it "
         "gives alone, nothing races or deadlocks, what is shared is freed exactly once in whichever thread its last owner ends, and what is made on first "
         "use (built-in puzzles, the parts of Square-1 tuples) is made once for all threads.",
         ["schedules", "inputs"], "every interleaving of two threads' operations on shared values",
         "Tests run on one thread each; a race needs a particular interleaving and hardly ever shows when it happens.",
         [P + "packed_orbit_data.rs", P + "kpuzzle.rs", P + "kpattern.rs", P + "ktransformation.rs", "cubing_core/src/alg/special_notation.rs",
          "cubing_core/src/kpuzzle/json_macros.rs"],
         [("Send and Sync for raw bytes", P + "packed_orbit_data.rs"), ("constants made on first use", "cubing_core/src/alg/special_notation.rs"),
          ("built-in puzzles", "cubing_core/src/kpuzzle/json_macros.rs")],
         [("U_SQ_quantum_cell, D_SQ_quantum_cell", "the parts of tuples, shared by every alg", "cubing_core/src/alg/special_notation.rs"),
          ("data", "reference-counted definition of a puzzle", P + "kpuzzle.rs")]),
    prop("L01", "The command line tool does what the library does",
         "`alg parse` exits with 0 exactly when its text is a valid alg and prints nothing on standard output. `alg invert` prints exactly the inverse of its text and a line "
         "break and exits with 0, or prints nothing there and exits with another code when the text is no valid alg. The text may be given as an argument or, with `--stdin`, on standard "
         "input, to the same effect. A call with no text, with both, or with unknown subcommands or options is an error. `alg completions` gives a script for "
         "each supported shell.",
         ["inputs"], "every text, given in either way",
         "No test runs the tool.",
         ["alg_cli/main.rs"], [("main", "alg_cli/main.rs"), ("get_options", "alg_cli/main.rs")]),
    prop("M01", "The macros accept and mean what parsing does",
         "`parse_alg!` and `parse_move!` compile exactly for one string literal, in any form of literal, whose text parses, and the expression they "
         "expand to has the value that parsing the text at run time gives, for every prefix, family and amount. Anything else is a compilation error.",
         ["inputs"], "every string literal and every other token stream",
         "The tests expand the macros for a handful of short moves and algs; a wrong field in the emitted code shows only for text that uses it.",
         ["cubing_macros/src/lib.rs"],
         [("parse_move", "cubing_macros/src/lib.rs"), ("parse_alg", "cubing_macros/src/lib.rs")]),
]

NOTE = ("Holds for every value within the stated bounds; nothing is claimed outside them. Trusted: rustc's LLVM IR (opt-level 1, debug "
        "assertions, panic=abort), the symbolic executor in engine/, Z3 4.8.12, the reference model in the harness. Counterexamples are reported "
        "only after the native code reproduced them.")

NA = [
    ("N01", "schedules"),
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in L:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    na = {p["id"]: p["_na"] for p in L if "_na" in p}
    checks = []
    for p in L:
        if p["id"] in PROPS:
            checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                               thorough_cmd="python3 check.py %s thorough" % p["id"],
                               technique="symbolic execution of the compiled code (LLVM IR), decided by Z3",
                               level="model_checking", level_note=NOTE))
    m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks,
             not_applicable=[dict(property=k, reason=v) for k, v in na.items()],
             notes="No hooks in /repo: the checks use the public API. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
