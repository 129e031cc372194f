"""Registered checks: per property, harness features and entry points with bounds."""
PROPS = {}

PROPS["C07"] = dict(
    features=["c07"],
    entries=[
        dict(fn="h_bs_algebra", fork=True, shards=4, cover=["checked"]),
        dict(fn="h_bs_range_bnd", fork=True, shards=8, cover=["range"]),
        dict(fn="h_bs_range", fork=True, shards=8, cover=["nonempty", "empty"]),
        dict(fn="h_bs_range_excl", fork=True, cover=["range"]),
        dict(fn="h_bs_observers", fork=True, shards=4, cover=["contiguous", "partitioned"]),
        dict(fn="h_bs_contains_range", weight=9, cover=["yes", "no"]),
        dict(fn="h_bs_display", shards=8, weight=5, fork=True, cover=["display"]),
    ],
    bounds="membership, algebra, extremes, cardinality, span: all 2^256 sets (two symbolic sets) and all bytes; ranges: every lo/hi with hi-lo<20 "
           "plus all lengths between word-edge bytes; iteration/partition/display: symbolic 8-byte windows at the word edges over fixed backgrounds",
    outside="partition, iteration and display of sets outside those windows (except in the thorough tier, which widens the windows)",
)

PROPS["C05"] = dict(
    features=["c05"],
    entries=[
        dict(fn="h_cursor", shards=48, cover=["end", "read ok", "read overrun", "huge", "slice", "slice refused", "end slice", "escape", "close peek", "recover", "seek forward", "seek backward", "skip remainder", "align"]),
        dict(fn="h_cursor_hist", shards=8, cover=["end"]),
    ],
    bounds="buffer of 4 symbolic bytes; every prefix (nothing, bits-mode, slice, slice+bits, peek, seek, alternatives ...) x every operation with symbolic "
           "8-bit or near-usize::MAX arguments, plus all histories of 5 operations from a reduced alphabet",
    outside="longer buffers and histories; backward seeks while in bits-mode (documented panic); reading a limit lifted by a backward seek is modelled as documented (opaque)",
)

PROPS["C06"] = dict(
    features=["c06"],
    entries=[
        dict(fn="h_readctxt", shards=7, cover=["refused", "seek", "split", "split refused"]),
        dict(fn="h_view", shards=8, cover=[]),
        dict(fn="h_scope", shards=8, cover=[]),
    ],
    bounds="buffers of up to 9 symbolic bytes (every length); offsets, lengths and counts are any 64-bit value (second argument: 8-bit around 0, 2^61..2^63 and usize::MAX)",
    outside="longer buffers; element types other than the fixed-width big-endian ones the generated code uses",
)

PROPS["C08"] = dict(
    features=["c08"],
    entries=[
        dict(fn="h_bounds_lin", shards=5, cover=["done"]),
        dict(fn="h_bounds_ops", shards=96, cover=["done", "sum", "shl", "shr"]),
        dict(fn="h_bounds_mul", shards=64, cover=["product", "quotient", "zero"]),
        dict(fn="h_bounds_mul_edge", shards=7, cover=["done"]),
    ],
    bounds="membership, union, clamp, bits-to-bytes and conversions: every interval and number over usize; sum, difference, or, and: every pair of intervals and members "
           "whose ends lie in 10-bit (16-bit thorough) windows at 0, 2^32, 2^63 and usize::MAX; shifts: those by every 8-bit distance interval; products and quotients: every "
           "10-bit (16-bit) interval with every interval inside 0..8 (0..20) and every unbounded one, plus the overflow edges of usize",
    outside="interval ends outside those windows for the arithmetic and bitwise operations",
)

_CAT = ("catalogue of ~150 formats (every combinator, every expression form) on every input of the stated length per format (1..9 bytes, all bytes symbolic, "
        "+{e} bytes, every shorter length too); every one of 33 contexts around each of 30 closed inner formats on all 5-byte inputs and all shorter ones")
_OUT = ("formats outside the catalogue and its compositions; longer inputs; inputs on which the format's own expressions are undefined (arithmetic overflow, "
        "out-of-range index, refuted cast); ordered choice and conditions where backtracking and committing differ; what lookahead sees of a permitted failure")
PROPS["C01"] = dict(
    features=["c01"],
    entries=[
        dict(fn="h_interp", shards=64, cover=["accepted", "rejected"]),
        dict(fn="h_composed", shards=64, cover=["accepted", "rejected"]),
        dict(fn="h_composed2", shards=512, deep_only=True, cover=["accepted", "rejected"]),
    ],
    bounds=_CAT.format(e=2), bounds_deep=_CAT.format(e=4) + "; contexts nested twice around each inner format, 5-byte inputs", outside=_OUT,
)
PROPS["C04"] = dict(
    features=["c04"],
    entries=[
        dict(fn="h_located", shards=64, cover=["accepted", "rejected", "located tuple", "located sequence", "located record", "whole"]),
        dict(fn="h_located_composed", shards=64, cover=["accepted", "rejected"]),
    ],
    bounds=_CAT.format(e=1), bounds_deep=_CAT.format(e=3),
    outside=_OUT + "; locations inside bit mode and re-decoded bytes; spans of records with computed fields",
)
PROPS["C12"] = dict(
    features=["c12"],
    entries=[
        dict(fn="h_typed", shards=64, cover=["value", "typechecked"]),
        dict(fn="h_typed_composed", shards=64, cover=["value", "typechecked"]),
        dict(fn="h_unify", shards=32, cover=["unified", "no common type"]),
    ],
    bounds=_CAT.format(e=1).replace(", every shorter length too", "").replace(" and all shorter ones", ""),
    bounds_deep=_CAT.format(e=3).replace(", every shorter length too", "").replace(" and all shorter ones", ""),
    outside=_OUT,
)
PROPS["C11"] = dict(
    features=["c11"],
    entries=[
        dict(fn="h_arith", shards=36, cover=["defined", "undefined"]),
        dict(fn="h_rel", shards=4, cover=["defined"]),
        dict(fn="h_unary", shards=4, cover=["defined", "undefined"]),
        dict(fn="h_bool", cover=["defined"]),
        dict(fn="h_endian", cover=["defined"]),
        dict(fn="h_seq", shards=64, cover=["defined", "undefined"]),
        dict(fn="h_find", shards=16, cover=["defined"]),
        dict(fn="h_match", shards=4, cover=["defined", "undefined"]),
        dict(fn="h_record", cover=["defined"]),
    ],
    bounds="integer operators, comparisons, casts and byte-order conversions: every operand of every width (8..64 bits); sequence operators: sequences of up to 4 symbolic "
           "bytes in each representation (literal, repeated, appended, sliced, integer range), every 32-bit index/length (counts below 6); searches of up to 7 ascending keys, or 5 in any order; both evaluators",
    outside="longer sequences; expressions nested deeper than the table's; arbitrary-precision numeric expressions (C10); bisection over unsorted keys (precondition)",
)
_GEN = ("the code generator is run on the catalogue of ~175 formats (every combinator, every expression form) and on {w} of 33 contexts around 30 closed inner formats; each emitted "
        "decoder is compiled and compared with the interpreter on every input of the stated length per format (1..9 bytes, all bytes symbolic, +{e}; 5 bytes for compositions) and every shorter one")
PROPS["C03"] = dict(
    features=["c03"], level="translation_validation", gen=True,
    entries=[
        dict(fn="h_gen_cat", shards=64, cover=["accepted", "rejected"]),
        dict(fn="h_gen_comp", shards=64, cover=["accepted", "rejected"]),
    ],
    bounds=_GEN.format(w="a third of the compositions", e=1), bounds_deep=_GEN.format(w="all compositions", e=3),
    outside=_OUT + "; formats the generator refuses or for which the emitted code does not compile on the reference tree (listed in sem/src/cat.rs GEN_SKIP); "
            "views and positions in bits-mode (documented panic)",
)
PROPS["C14"] = dict(
    features=["c14"],
    entries=[
        dict(fn="h_huff_small", shards=32, cover=["decoded", "no code", "over-subscribed"]),
        dict(fn="h_huff_values", shards=8, cover=["decoded", "no code", "over-subscribed"]),
        dict(fn="h_huff_long", shards=20, cover=["decoded", "no code"]),
    ],
    bounds="every table of up to 4 code lengths of at most 3 bits (thorough: 5 of at most 4), every reordering of 3 symbols, and tables with codes of up to 16 bits; "
           "two symbols decoded from all 1- or 2-byte inputs (one symbol from all 3-byte inputs for the long codes), in the interpreter, the interpreter with locations and the runtime "
           "library of generated code",
    outside="larger tables; codes longer than 16 bits; symbol orders that are not permutations (precondition)",
)
PROPS["C02"] = dict(
    features=["c02"],
    entries=[
        dict(fn="h_one", shards=14, cover=["accepted", "rejected", "refused"]),
        dict(fn="h_two", shards=64, cover=["accepted", "rejected", "refused"]),
        dict(fn="h_nest", shards=49, cover=["accepted", "rejected", "refused"]),
        dict(fn="h_mixed", shards=64, cover=["accepted", "rejected", "refused"]),
        dict(fn="h_factor", shards=64, cover=["accepted", "rejected", "refused"]),
        dict(fn="h_three", shards=128, weight=9, cover=["accepted", "rejected", "refused"]),
        dict(fn="h_item", shards=40, cover=["accepted", "rejected", "refused"]),
    ],
    bounds="every grammar of these shapes over byte classes {a}, {b}, {a,b} and the empty format: one or two operators (repeat, repeat1, optional, exactly 2, between 0..1, 0..2, 1..2 or 2..3, "
           "slice of 2) over a small grammar (a class, an operator over one, a sequence or choice of two, a slice that may stop early); sequence or choice of two small grammars; an operator and a "
           "sequence/choice; choice of two sequences that start alike; three-way choices of words alone, repeated and continued; an item called in two contexts; sequences as tuples and as records; "
           "every input of 0..3 or 0..4 bytes (thorough: 0..5)",
    outside="larger grammars; longer inputs; choices inside a slice that may stop early, peeking and conditions, where the described language does not determine the extent of the content; grammars the compiler "
            "refuses (the property says nothing about which ones it must accept)",
)
PROPS["C09"] = dict(
    features=["c09"], hook="--cfg doodle_verif",
    entries=[
        dict(fn="h_size", shards=64, cover=["decoded", "bounded"]),
        dict(fn="h_size_composed", shards=256, cover=["decoded", "bounded"]),
        dict(fn="h_expr", shards=9, cover=["value", "bounded"]),
        dict(fn="h_expr_nested", shards=81, cover=["value", "bounded"]),
        dict(fn="h_expr_unary", shards=7, cover=["value", "bounded"]),
    ],
    bounds=_CAT.format(e=1).replace(", every shorter length too", "").replace(" and all shorter ones", "") + "; the bounds of expressions: one operator over any two 8-bit magnitudes known "
           "exactly, by a mask, by a cast or not at all; two operators over 3-bit magnitudes; casts, successor and predecessor of any value of any width",
    bounds_deep=_CAT.format(e=3).replace(", every shorter length too", "").replace(" and all shorter ones", "") + "; expressions as in the quick tier",
    outside=_OUT + "; bounds on what is looked at but not consumed",
)
PROPS["C10"] = dict(
    features=["c10"],
    entries=[
        dict(fn="h_kernel_linear", shards=16, cover=["exact", "refused"]),
        dict(fn="h_kernel_mul", shards=16, cover=["exact", "refused"]),
        dict(fn="h_kernel_quotient", shards=16, cover=["exact", "refused"]),
        dict(fn="h_kernel_unary", shards=8, cover=["exact", "refused"]),
        dict(fn="h_tree_reps", shards=16, cover=["valid", "no result", "does not fit"]),
        dict(fn="h_tree_wide", shards=24, cover=["valid", "no result", "does not fit"]),
        dict(fn="h_tree_unary", shards=8, cover=["valid", "does not fit"]),
        dict(fn="h_tree_nested", shards=32, cover=["valid", "no result", "does not fit"]),
        dict(fn="h_bitwise", shards=4, cover=["cast"]),
        dict(fn="h_typed", shards=8, cover=["typed"]),
    ],
    bounds="every kernel of numeric::eval (add, sub, mul, div, rem, negate, abs, cast over every representation combination it offers) on every pair of full-width operands; "
           "the evaluator: one operation on every pair of 8-bit magnitudes with either sign under every claimed representation (quick: every representation for addition, a third of the "
           "combinations otherwise), sums and differences of any 64-bit magnitudes, products of a 64-bit by a 5-bit and a 16-bit by an 8-bit magnitude, quotients and remainders of 16-bit by "
           "8-bit magnitudes, every unary operation and cast of any 64-bit magnitude, trees of two operations over 5-bit magnitudes; every bitwise cast of every value",
    outside="the out-of-range product reported by the multiplication kernels (only that it is refused is decided); deeper trees; numbers beyond 64 bits in leaves; in the quick tier products and "
            "quotients of a nested sum, difference or product",
)

NOTES = {"hooks": {"guard": "cfg(doodle_verif)", "enable": "RUSTFLAGS=--cfg doodle_verif (set by check.py for C09 only)", "source_commits": ["90c852a4f6d41c23a1d678e1b9e47d593059d32d"]}}
NA = {}
for _i in ["C01", "C02", "C03", "C04", "C06", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"]:
    if _i not in PROPS:
        NA[_i] = {"C13": "the type sets are private to the type checker and each operation is a small table; a check needs a parallel constructor API in the library as large as the code itself, and none was built",
                  "C15": "no check was built for the shipped formats"}[_i]
NA["C16"] = ("the renderers build their output through recursive string formatting over unbounded heap values and indent state; the specification "
             "would have to restate the layout algorithm, so a solver verdict would compare the code with a copy of itself")
