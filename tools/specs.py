"""What each property's check runs."""
from collections import namedtuple

Job = namedtuple("Job", "unit entry args reach tiers jobs split max_steps max_paths max_secs timeout_ms samples note")


def J(unit, entry, *args, reach=(1,), tier="both", jobs=8, split=64, max_steps=5_000_000, max_paths=10_000_000, max_secs=400, timeout_ms=60000, samples=8, note=""):
    tiers = {"both": ("quick", "thorough"), "quick": ("quick",), "thorough": ("thorough",)}[tier]
    return Job(unit, entry, tuple(args), tuple(reach), tiers, jobs, split, max_steps, max_paths, max_secs, timeout_ms, samples, note)


COMMON = [
    "the symbolic executor's reading of LLVM IR, Z3 4.8.12, and rustc/clang's lowering to IR (spot-checked on every run by replaying sample paths natively and comparing observations)",
    "allocation never fails; addresses of distinct objects differ; no concurrency inside the unit",
]

PROPS = {}


def P(id, bounds, jobs, assumptions=()):
    PROPS[id] = dict(bounds=bounds, jobs=jobs, assumptions=list(assumptions))


P("F01", "texts of up to 3 (thorough: 4) arbitrary ASCII characters; texts of up to 2 arbitrary ASCII characters and one arbitrary character of 3 bytes before, between or after them, or of 2 or 4 between", [
    *[J("rust:front", "h_lex_tile", n, 0, 0, jobs=1) for n in (1, 2)], J("rust:front", "h_lex_tile", 3, 0, 0),
    *[J("rust:front", "h_lex_tile", 2, w, at, jobs=4) for w, at in ((2, 1), (3, 0), (3, 1), (3, 2), (4, 1))],
    J("rust:front", "h_lex_tile", 4, 0, 0, tier="thorough"), *[J("rust:front", "h_lex_tile", 3, w, at, tier="thorough") for w in (2, 3) for at in (0, 1, 2)],
])

RT = "c:rt_num"
P("R01", "all 2^64 values in radix 10 and 8, |v| < 2^20..2^16 in the other radices; numerals of up to 4 arbitrary bytes; every numeral that differs from the limit of the type in its last 3 digits", [
    *[J(RT, "h_parse_i64", r, n, jobs=1, reach=(2,) if n == 0 else (1, 2)) for r in (2, 10, 16, 36) for n in (0, 1, 2, 3)],
    *[J(RT, "h_parse_u64", r, n, jobs=1, reach=(2,) if n == 0 else (1, 2)) for r in (2, 10, 16, 36) for n in (0, 1, 2, 3)],
    *[J(RT, "h_edge_i64", r, t, jobs=1, reach=(1, 2)) for r, t in ((10, 3),)],
    *[J(RT, "h_edge_i64", r, t, jobs=1, reach=(1,)) for r, t in ((2, 3), (16, 1), (36, 1))],
    *[J(RT, "h_edge_u64", r, t, jobs=1, reach=(1, 2)) for r, t in ((10, 3),)],
    *[J(RT, "h_edge_u64", r, t, jobs=1, reach=(1,)) for r, t in ((2, 3), (16, 1), (36, 1))],
    *[J(RT, "h_rt_i64", r, b, jobs=1) for r, b in ((2, 8), (2, 101), (8, 0), (10, 0), (3, 12), (16, 8), (16, 104), (36, 8), (36, 101))],
    *[J(RT, "h_rt_u64", r, b, jobs=1) for r, b in ((2, 0), (8, 0), (10, 32), (10, 108), (3, 12), (16, 8), (16, 104), (36, 8), (36, 101))],
])
P("R02", "strings of up to 4 arbitrary bytes each", [
    *[J(RT, "h_str_cmp", n, m, jobs=1) for n in range(5) for m in range(5) if n + m <= 6],
    *[J(RT, "h_str_cmp", n, m, jobs=1, tier="thorough") for n in range(9) for m in range(9) if n + m > 6],
])
RP, RS = "c:rt_proc", "c:rt_sym"
P("R03", "every combination of a failing pipe, fork and exec with any error number, the system calls of both processes that come out of fork; any exit status waited for", [
    *[J(RP, e, a, 0, jobs=1, reach=r) for a in (0, 1) for e, r in (("h_started", (1,)), ("h_failed", (2,)), ("h_child", (1, 2, 3)))], J(RP, "h_wait", 0, 0, jobs=1),
], ["descriptors 0 to 2 are open in the parent", "read is not interrupted, dup2 and fdopen succeed", "a call that succeeds may change errno"])
P("R04", "the first 120 (thorough: 500) symbols; every pair of consecutive counts below 2^62, each text and its length", [
    J(RS, "h_genid", 0, 0, jobs=1), J(RS, "h_first", 120, 0, jobs=1), J(RS, "h_first", 500, 0, jobs=1, tier="thorough"),
])


def L(unit, *args, **k):
    return J("llrl:" + unit, "llrl_main", *args, **k)


P("L01", "vectors of up to 3 arbitrary elements with up to 2 free slots and 1 (quick) or 2 (thorough) arbitrary operations with arbitrary 64-bit indices; arrays of up to 4 arbitrary elements", [
    L("vec", 0, 1), L("vec", 0, 2), L("vec", 1, reach=(2,)), L("vec", 2, reach=(3,)), L("vec", 3, reach=(4,)),
    L("vec", 0, 3, tier="thorough", max_secs=1500),
])
P("L02", "all histories of 3 (thorough: 4) operations with arbitrary 64-bit keys from the empty map; 2 arbitrary insertions/removals/lookups on 13 keys; 1 arbitrary operation on each of the listed trees of 1 to 3 levels, in every position", [
    L("omap", 0, 0, 1, 0, 3, 8), L("omap", 0, 0, 1, 0, 4, 3), L("omap", 0, 13, 1, 0, 2, 2),
    *[L("omap", 0, n, st, d, 1, 8) for n, st, d in ((11, 1, 0), (12, 1, 0), (12, 5, 1), (20, 3, 5), (23, 22, 6), (30, 11, 8), (73, 5, 0), (85, 1, 48), (85, 84, 47), (111, 1, 55), (151, 10, 80), (96, 95, 20))],
    # removals from either end, far enough for nodes to borrow from both sides
    L("omap", 0, 85, 84, 10, 1, 8, 1, 84), L("omap", 0, 85, 1, 10, 1, 8, 1, 0), L("omap", 0, 85, 84, 60, 1, 8, 1, 56), L("omap", 0, 97, 1, 60, 1, 8, 96, 96),
    L("colls", 0, 2), L("colls", 1, 2), L("colls", 0, 3, tier="thorough"), L("colls", 1, 3, tier="thorough"),
    L("omap", 1, 3, reach=(2,)),
    L("omap", 0, 0, 1, 0, 5, 3, tier="thorough"), L("omap", 0, 13, 1, 0, 2, 8, tier="thorough", max_secs=1500), L("omap", 0, 25, 3, 8, 2, 2, tier="thorough", max_secs=1500),
    *[L("omap", 0, n, st, d, 1, 8, tier="thorough") for n in (19, 37, 61, 83, 101, 131, 151) for st in (1, 5, n - 1) for d in (0, n // 4, n // 2, 3 * n // 4)],
    L("omap", 1, 4, reach=(2,), tier="thorough"),
])
P("L03", "tables of 8 and 32 buckets with 0 to 25 keys, keys of up to 6 hash classes that collide at the end of the table (identity bits arbitrary), up to 4 (thorough: 5) arbitrary operations; every requested capacity below 20; growth to 40 keys", [
    L("hmap", 0, 0, 32, 4, 7, 2), L("hmap", 0, 0, 32, 3, 2, 4), L("hmap", 0, 9, 32, 5, 2, 2), L("hmap", 0, 25, 32, 6, 2, 2), L("hmap", 0, 6, 8, 4, 2, 3),
    L("hmap", 1, reach=(2,)), L("hmap", 2, 40, reach=(3,)), L("hmap", 3, 3, reach=(4,)),
    L("colls", 2, 3), L("colls", 3, 3),
    L("hmap", 0, 0, 32, 3, 2, 5, tier="thorough"), L("hmap", 0, 12, 16, 6, 7, 2, tier="thorough"), L("hmap", 0, 12, 16, 4, 2, 3, tier="thorough"), L("hmap", 3, 4, reach=(4,), tier="thorough"),
])
P("L04", "all histories of 4 operations with arbitrary 64-bit keys from the empty map; 1 or 2 arbitrary operations on each of the listed trees, in every position; union, intersection and difference with maps of up to 2 arbitrary keys", [
    L("pomap", 0, 0, 1, 0, 1, 4, 6), L("pomap", 0, 4, 1, 0, 1, 1, 7), L("pomap", 0, 0, 1, 0, 1, 2, 7), L("pomap", 0, 9, 2, 4, 2, 2, 2),
    *[L("pomap", 0, n, st, d, ds, 1, 6) for n, st, d, ds in ((31, 1, 0, 1), (31, 10, 0, 7), (31, 30, 0, 7), (31, 1, 15, 7), (31, 30, 11, 5), (47, 20, 23, 3), (22, 1, 9, 1), (22, 21, 9, 21), (40, 7, 27, 9))],
    L("colls", 4, 2), L("colls", 5, 2), L("colls", 4, 3, tier="thorough"),
    L("pomap", 0, 31, 1, 15, 7, 2, 2, tier="thorough"), L("pomap", 0, 0, 1, 0, 1, 5, 2, tier="thorough"),
    *[L("pomap", 0, n, st, d, ds, 1, 6, tier="thorough") for n in range(5, 44, 6) for st in (1, n - 1) for ds in (1, n - 1) for d in (n // 4, n // 2, 3 * n // 4)],
])
P("L05", "up to 3 operations with keys of 5 hash classes that agree in none, 5 or 10 of the lowest bits, or collide (identity bits arbitrary); 5 operations on 2 classes; 1 (thorough: 2) operations on 40 keys", [
    L("phmap", 0, 0, 5, 4, 3), L("phmap", 0, 0, 2, 2, 4), L("phmap", 0, 40, 5, 4, 1), L("colls", 6, 3), L("phmap", 0, 0, 2, 2, 5, tier="thorough"),
    L("phmap", 0, 40, 3, 2, 2, tier="thorough"), L("phmap", 0, 0, 5, 4, 4, tier="thorough"),
])
P("L06", "all byte sequences of up to 6 (thorough: 9) bytes, all 2^32 scalar values", [
    *[L("utf8", 0, n, reach=(1, 2)) for n in range(7)], *[L("utf8", 0, n, tier="thorough", reach=(1, 2), max_secs=1500) for n in (7, 8, 9)], L("utf8", 1, reach=(3, 4)), L("utf8", 2, reach=(5,)),
])
P("L10", "strings of up to 4 (thorough: 6) characters below U+0800, patterns of up to 2 characters, all 64-bit indices", [
    *[L("str", op, 4) for op in range(14)],
    *[L("str", op, 6, tier="thorough", max_secs=1200) for op in range(14)],
])

FR = "rust:front"
P("F02", "strings and characters of up to 3 (thorough: 4) characters below U+0800; quoted texts of up to 4 (5) ASCII characters; words of up to 4 (5) characters of 0-9 + - x a; numerals that differ from a limit of the 64-bit types in the last 3 digits; the 2^10 (2^16) least and 2^8 greatest integers printed and read back", [
    *[J(FR, "h_escape", n, jobs=1) for n in (0, 1, 2, 3)], J(FR, "h_char", jobs=1), *[J(FR, "h_unescape", n, jobs=1, reach=(1, 2, 3) if n else (1, 2)) for n in (0, 1, 2, 3, 4)],
    *[J(FR, "h_num", n, jobs=1, reach=r) for n, r in ((1, (1, 3)), (2, (1, 2, 3)), (3, (1, 2, 3)), (4, (1, 2, 3)))],
    J(FR, "h_num_edge", 0, 3, jobs=1, reach=(1, 3)), J(FR, "h_num_edge", 1, 3, jobs=1, reach=(2, 3)), J(FR, "h_num_edge", 2, 3, jobs=1, reach=(1,)), J(FR, "h_num_edge", 3, 3, jobs=1, reach=(1, 3)),
    *[J(FR, "h_int_print", n, b, jobs=1) for n in (0, 1) for b in (10, 108)],
    J(FR, "h_escape", 4, tier="thorough"), J(FR, "h_unescape", 5, reach=(1, 2, 3), tier="thorough"), J(FR, "h_num", 5, reach=(1, 2, 3), tier="thorough"),
    *[J(FR, "h_int_print", n, b, jobs=1, tier="thorough") for n in (0, 1) for b in (16, 112)],
])
P("F03", "all sequences of up to 3 (thorough: 4) tokens of all 24 kinds, 5 (6) tokens of 9 kinds, 6 (7) of symbols, brackets and dots; printing: trees of depth 2 with up to 2 elements and of depth 1 with up to 4, without the forms annotate, try? and try! (what prints before their suffix can be a prefix form, which reads back differently)", [
    *[J(FR, "h_parse", n, 0, jobs=1 if n < 3 else 8, reach=(1, 2) if n else (1,)) for n in (0, 1, 2, 3)], J(FR, "h_parse", 5, 1, reach=(1, 2)), J(FR, "h_parse", 6, 2, reach=(1, 2)), J(FR, "h_print", 1, 4), J(FR, "h_print", 2, 2),
    J(FR, "h_parse", 4, 0, reach=(1, 2), tier="thorough"), J(FR, "h_parse", 6, 1, reach=(1, 2), tier="thorough"), J(FR, "h_parse", 7, 2, reach=(1, 2), tier="thorough"), J(FR, "h_print", 2, 3, tier="thorough"),
])
P("F04", "texts of up to 6 (thorough: 8) ASCII characters; p/prelude with any one character changed, inserted, or added after a slash", [
    *[J(FR, "h_path", n, jobs=1, reach=(1, 2) if n else (2,)) for n in range(7)], *[J(FR, "h_path_prelude", k, jobs=1, reach=(1, 2)) for k in (1, 2, 3, 4, 7)],
    *[J(FR, "h_path", n, reach=(1, 2), tier="thorough") for n in (7, 8)],
])
P("F05", "one directive of each kind with leaves in every hole, two nested directives of the scoping kinds, forms after them, all subsets of two features, inside and outside a scope that binds the variables used", [
    J(FR, "h_pp", 1, 1, 31, 4095, 0, reach=(1, 2)), J(FR, "h_pp", 3, 1, 6, 4095, 1, reach=(1, 2)), J(FR, "h_pp", 3, 2, 2, 160, 1, reach=(1, 2)), J(FR, "h_pp", 1, 2, 6, 48, 1, reach=(1, 2)),
    J(FR, "h_pp", 2, 2, 2, 2080, 1, reach=(1, 2)), J(FR, "h_pp", 1, 2, 5, 515, 1, reach=(1, 2)), J(FR, "h_pp", 1, 3, 4, 20, 1, reach=(1, 2)), J(FR, "h_pp", 1, 2, 56, 12, 0, reach=(1, 2)), J(FR, "h_pp", 2, 1, 7, 4095, 0, reach=(1, 2)),
    J(FR, "h_pp", 1, 1, 127, 4095, 0, reach=(1, 2), tier="thorough"), J(FR, "h_pp", 1, 2, 66, 132, 0, reach=(1, 2), tier="thorough", max_secs=800), J(FR, "h_pp", 1, 2, 66, 640, 0, reach=(1, 2), tier="thorough", max_secs=800), J(FR, "h_pp", 1, 2, 3, 132, 1, reach=(1, 2), tier="thorough", max_secs=800),
])
P("S01", "every relation over up to 4 nodes (arbitrary distinct 64-bit keys for up to 3), with a dependency on an absent node, listed in either order", [
    J(FR, "h_topo", 0, 0, jobs=1), J(FR, "h_topo", 1, 1, jobs=1), J(FR, "h_topo", 2, 1, jobs=1), J(FR, "h_topo", 3, 1), J(FR, "h_topo", 4, 0), J(FR, "h_topo", 4, 1, tier="thorough", max_secs=1500),
])
PA = "rust:par"
P("S02", "collecting: every import relation over up to 3 modules with up to 2 preemptions (2 modules with 3; thorough: 4 modules with 1), the last module missing or not; building: every acyclic import relation over up to 4 modules besides the builtin one, any of them failing (up to 3; builtin too), up to 2 preemptions (3 for 2 modules); with the lowering thread and macros: up to 3 modules, up to 3 entry points, 1 preemption (2 for 1 module, 0 for 3; thorough: 2 for 2 modules); switches at waits and ends of threads are not bounded", [
    J(PA, "h_build", 3, 1, 1, reach=(1, 2)), J(PA, "h_build", 3, 2, 0, reach=(1, 2)), J(PA, "h_build", 4, 1, 0, reach=(1, 2)), J(PA, "h_build", 2, 3, 3, jobs=1), J(PA, "h_build", 2, 3, 1, reach=(1, 2)), J(PA, "h_build", 2, 2, 4, reach=(1, 2)), J(PA, "h_build", 3, 1, 4, reach=(1, 2)),
    J(PA, "h_collect", 3, 2, 1, reach=(1, 2)), J(PA, "h_collect", 3, 1, 2, reach=(1, 2)), J(PA, "h_collect", 2, 3, 2, reach=(1, 2)),
    J(PA, "h_lower", 2, 1, 2, reach=(1, 2)), J(PA, "h_lower", 1, 2, 1, reach=(1, 2)), J(PA, "h_lower", 3, 0, 3, reach=(1, 2)),
    J(PA, "h_build", 3, 2, 1, reach=(1, 2), tier="thorough"), J(PA, "h_build", 4, 1, 1, reach=(1, 2), tier="thorough"), J(PA, "h_collect", 4, 1, 1, reach=(1, 2), tier="thorough", max_secs=800), J(PA, "h_collect", 3, 2, 2, reach=(1, 2), tier="thorough"), J(PA, "h_lower", 2, 2, 1, reach=(1, 2), tier="thorough"), J(PA, "h_lower", 4, 0, 1, reach=(1, 2), tier="thorough"),
], ["memory accesses other than those of atomics, locks and channels are not preempted (Rust's data-race freedom); atomics are sequentially consistent", "semantic analysis, loading and lowering of a module are stand-ins that use the interfaces of the real ones (find_module, module, execute_macro, add_module)"])
P("S04", "types over 3 type variables, a constructor variable, 3 constants and a type parameter: one equation of depth 1 with one of depth 2, 2 equations of a variable with a type of depth 1 (3 in thorough), arbitrary 32-bit levels; kinds: the same; one-way matching with types of depth 1 (2) without variables; substitution in types of depth 1", [
    J(FR, "h_unify", 1, 1, 1, reach=(1, 2)), J(FR, "h_unify", 1, 2, 1, reach=(1, 2)), J(FR, "h_unify", 1, 1, 9, reach=(1, 2)), J(FR, "h_unify", 2, 8, 1, reach=(1, 2)), J(FR, "h_unify", 1, 8, 2, reach=(1, 2)), J(FR, "h_unify", 2, 8, 9, reach=(1, 2)), J(FR, "h_unify", 3, 8, 8, reach=(1, 2)),
    J(FR, "h_kind", 1, 1, reach=(1, 2)), J(FR, "h_kind", 3, 8, reach=(1, 2)), J(FR, "h_match", 1, 1, reach=(1, 2)), J(FR, "h_subst", 1, 0, reach=(1, 2)),
    J(FR, "h_unify", 3, 8, 1, reach=(1, 2), tier="thorough"), J(FR, "h_unify", 1, 10, 10, reach=(1, 2), tier="thorough", max_secs=800), J(FR, "h_kind", 2, 9, reach=(1, 2), tier="thorough"), J(FR, "h_match", 1, 2, reach=(1, 2), tier="thorough"), J(FR, "h_match", 2, 1, reach=(1, 2), tier="thorough"), J(FR, "h_subst", 1, 1, reach=(1, 2), tier="thorough"),
])
SE = "rust:sema"


def SJ(entry, *args, **kw): return J(SE, entry, *args, **{"max_steps": 60_000_000, "samples": 4, **kw})


P("S03", "two modules, the first with 2 or 3 constructors and 1 or 2 exports, the second with 0 to 2 constructors of its own, 1 or 2 imports and 1 export, each any of 18 (with 2: of 7) plain, renamed, prefix, suffix and whole-module forms; a third module importing one such port from each; functions of 1 or 2 parameters whose bodies are any term of up to 2 (one parameter; thorough: 2 and more bindings) inner applications, lets, local functions and matches over two value and two function names; two nested lists of type parameters; names are short, other constructs than constructors and functions are not exported", [
    SJ("h_ports", 1, 1, 0, reach=(1, 2, 3, 5)), SJ("h_ports", 2, 1, 9, reach=(1, 2)), SJ("h_ports", 1, 2, 11, reach=(1, 2, 3)), SJ("h_ports", 1, 1, 13, reach=(1, 2, 3)),
    SJ("h_scope", 1, 1, 3, reach=(1, 2, 3)), SJ("h_scope", 2, 1, 0, reach=(1, 2, 3)), SJ("h_tyscope", 0, reach=(1, 2, 3)),
    SJ("h_ports", 2, 1, 1, reach=(1, 2, 3, 4, 5), tier="thorough", max_secs=1500), SJ("h_ports", 1, 2, 3, reach=(1, 2, 3, 5), tier="thorough", max_secs=1500), SJ("h_ports", 1, 1, 4, tier="thorough", max_secs=1500), SJ("h_scope", 2, 1, 3, tier="thorough", max_secs=1500), SJ("h_scope", 3, 0, 0, tier="thorough", max_secs=1500),
])
P("S05", "one function of one parameter, unannotated or with one of 5 annotations, whose body is any term of 1 (every form) or 2 (groups of forms; thorough: larger groups, 3) inner applications, variable and function lets (annotated or not, the functions recursive or not, annotations of inner definitions mentioning the type parameter of the surrounding local function), deconstructions of a box, a pair or a constant, annotations, returns and constructions; two functions calling each other with bodies of 1 such node; data types with 0, 1 and 2 parameters; local definitions come one per let, patterns have depth 1; groups of mutually recursive functions of which some type variable occurs in one type only stay outside when a third, annotated function uses them", [
    SJ("h_infer", 1, 8191, 1, reach=(1, 2)), SJ("h_infer", 2, 4672, 0, reach=(1, 2)), SJ("h_infer", 2, 4608, 0, reach=(1, 2)), SJ("h_infer", 2, 1031, 0, reach=(1, 2)), SJ("h_infer", 2, 392, 0, reach=(1, 2)), SJ("h_infer", 2, 525, 0, reach=(1, 2)), SJ("h_infer", 2, 103, 0, reach=(1, 2)), SJ("h_infer2", 1, 9, 0, reach=(1, 2)), SJ("h_infer2", 0, 1, 1, reach=(1, 2)),
    SJ("h_infer", 2, 2041, 0, reach=(1, 2), tier="thorough", max_secs=1500), SJ("h_infer", 2, 519, 1, reach=(1, 2), tier="thorough", max_secs=1500), SJ("h_infer", 3, 5, 0, reach=(1, 2), tier="thorough", max_secs=1500), SJ("h_infer2", 1, 9, 1, reach=(1, 2), tier="thorough", max_secs=1500), SJ("h_infer2", 1, 13, 0, reach=(1, 2), tier="thorough", max_secs=1500),
])
P("S06", "a class, a class below it and (in two of the sets) a third below the second; any set of up to 5 at a time (thorough: 7) of 13 instances: of a constant type, of a box under a condition on any of the classes or under none, of a box of a box, of a box of a constant, of an integer type, of everything; a function with one of 9 signatures using a method of either class at one of 7 arguments, an integer literal among them; one class parameter, one condition per instance, all in one module", [
    SJ("h_classes", 451, 17, 0, reach=(1, 2, 3)), SJ("h_classes", 19, 127, 0, reach=(2, 3)), SJ("h_classes", 558, 1, 0, reach=(1, 2, 3)), SJ("h_classes", 195, 96, 0, reach=(2, 3)), SJ("h_classes", 225, 8, 0, reach=(2, 3)), SJ("h_classes", 6145, 384, 1, reach=(2, 3)), SJ("h_classes", 7232, 384, 1, reach=(2, 3)),
    SJ("h_classes", 3265, 384, 1, reach=(2, 3), tier="thorough", max_secs=1500),
    SJ("h_classes", 1023, 1, 0, reach=(1, 2, 3), tier="thorough", max_secs=1500), SJ("h_classes", 463, 127, 0, reach=(1, 2, 3), tier="thorough", max_secs=1500),
])
P("S07", "lists of up to 3 clauses of depth 1 and 2 clauses of depth 2 (3 for the first three types) over: an enumeration, an option of one, a sum with 0, 1 and 2 fields, naturals, integers with two literals, one constructor with two fields, and tuples of these", [
    *[J(FR, "h_pats", m, 1, d, jobs=1, reach=()) for m in range(7) for d in (1, 2)],
    *[J(FR, "h_pats", m, 2, 2, reach=(1, 2, 3)) for m in range(7)], *[J(FR, "h_pats", m, 3, 1, reach=(1,)) for m in (0, 1, 2, 3, 5, 6)], *[J(FR, "h_pats", m, 3, 2, reach=(1, 3)) for m in (0, 1, 2)],
    J(FR, "h_pats", 4, 3, 1, reach=(1, 2, 3), tier="thorough"), J(FR, "h_pats", 5, 3, 2, reach=(1, 2, 3), tier="thorough"), J(FR, "h_pats", 6, 3, 2, reach=(1, 2, 3), tier="thorough"), J(FR, "h_pats", 2, 4, 3, reach=(1,), tier="thorough"),
])
P("B04", "nested structures and unions of depth 1 with up to 3 and depth 2 with up to 2 (thorough: depth 2 with 3, depth 3 with 2) members", [
    J(FR, "h_layout", 0, 1, jobs=1), J(FR, "h_layout", 1, 3), J(FR, "h_layout", 2, 2), J(FR, "h_layout", 2, 3, tier="thorough", max_secs=1500), J(FR, "h_layout", 3, 2, tier="thorough", max_secs=1500),
])
P("B05", "S-expressions of depth 1 with up to 2 elements of every kind, of depth 2 with 1 (thorough: 2) numbers and symbols; arbitrary numbers, floating-point bits, characters, locations and references; strings of up to 2 arbitrary ASCII characters", [
    J(FR, "h_native", 0, 1, 0, 1, jobs=1), J(FR, "h_native", 1, 2, 0, 1), J(FR, "h_native", 2, 1, 1, 1), J(FR, "h_native", 1, 4, 1, 1, tier="thorough"), J(FR, "h_native", 2, 2, 1, 1, tier="thorough", max_secs=1500), J(FR, "h_native", 2, 1, 0, 0, tier="thorough", max_secs=1500),
])
P("L11", "sequences of up to 4 (and 3 for the second) arbitrary 64-bit elements, arbitrary counts and indices; ranges of up to 4 steps; for every combinator of std/it and every constructor of std/iterator", [
    *[L("it", op, 0 if 26 < op < 34 else 4, 3 if op in (3, 4, 5, 6, 7) else 0, jobs=1) for op in range(35)],
    *[L("it", op, 7, 6 if op in (3, 4, 5, 6, 7) else 0, tier="thorough") for op in range(35) if not 26 < op < 34 and op != 16],
])
ARITH = [
    *[L("arith", 0, ty, 100, jobs=1) for ty in range(8)], *[L("arith", g, ty, 0, jobs=1) for g in (1, 2, 3, 4) for ty in range(8)],
    *[L("arith", 8, ty, op, jobs=1) for ty in (0, 1) for op in range(12)], L("arith", 9, 0, 0, jobs=1), L("arith", 9, 1, 0, jobs=1), L("arith", 10, 0, 0, jobs=1), L("arith", 11, 0, 0, jobs=1),
]
P("B01", "arithmetic, comparisons, bit operations and conversions: all operands of every width and all floating-point bit patterns (NaNs taken as one value); memory: 3 cells of each of 17 types (every integer and floating-point type, Bool, pointers, an option, a tuple, a sum, a reference type, C structures), one (thorough: two) stores, replacements, moves, copies, offsets or temporaries at any position", [
    *ARITH, *[L("ops", 0, t, 3, 1, jobs=1) for t in range(17)], *[L("ops", 0, t, 3, 2, jobs=1) for t in (0, 6, 9)],
    *[L("ops", 1, t, 0, 0, jobs=1) for t in range(10)], L("ops", 2, 0, 0, 0, jobs=1),
    *[L("ops", 0, t, 3, 2, tier="thorough", max_secs=800) for t in range(17) if t not in (0, 6, 9)], *[L("ops", 0, t, 4, 2, tier="thorough", max_secs=800) for t in (3, 7, 8, 13)],
])
P("L08", "all operands of every width; all floating-point bit patterns (NaNs taken as one value); numerals of up to 2 (radix 10: 3) arbitrary bytes, and the limit of each type with its last two digits and one further byte arbitrary; printing and reading back of all 8-bit values", [
    *ARITH, *[L("arith", 5, ty, r * 10 + n, jobs=1) for ty in range(8) for r, n in ((2, 1), (2, 2), (10, 0), (10, 1), (10, 2), (10, 3), (16, 2), (36, 1))],
    *[L("arith", 6, ty, k, jobs=1) for ty in range(8) for k in range(4)], *[L("arith", 7, ty, r, jobs=1) for ty in (0, 4) for r in (2, 10, 16, 36)],
    *[L("arith", 5, ty, r * 10 + 3, tier="thorough") for ty in range(8) for r in (2, 16, 36)], *[L("arith", 7, ty, 16, tier="thorough", max_secs=800) for ty in (1, 5)],
])
P("B02", "the listed programs (matching on numbers of every width, characters, floating-point numbers, strings of up to 3 characters, sums, nested data and references, clauses that share tests; data of every field width; closures; order of evaluation; loops, early returns, `?` and `!`; classes and instances; recursion over lists and trees; escaping data, stored in references, boxes, closures, pairs, vectors and lists; many and large arguments), for every value flowing through them; lists of up to 3 elements in loops", [
    L("flow", 0, jobs=1), *[L("flow", 1, n, jobs=1) for n in range(4)], *[L("flow", k, jobs=1) for k in range(2, 19)],
])
P("L13", "files of up to 5 bytes or two blocks (4096, 8192) read and written in pieces of any size, directories of up to 3 entries and links, each system call failing or transferring any part of what was asked", [
    *[L("io", 0, n, m, jobs=1) for n in range(5) for m in (0,)], *[L("io", 1, n, jobs=1) for n in (0, 2, 4)], L("io", 2, 4096, jobs=1), L("io", 2, 8192, jobs=1), L("io", 3, 4, 3, jobs=1), *[L("io", 4, n, jobs=1) for n in (3, 4)], L("io", 5, 3, jobs=1),
    *[L("io", 6, k, jobs=1) for k in range(8)], L("io", 7, 3, jobs=1), *[L("io", 8, k, jobs=1) for k in range(8)], *[L("io", op, jobs=1) for op in (9, 10, 11, 13)], L("io", 12, 3, jobs=1), *[L("io", 14, n, jobs=1) for n in (3, 4)], *[L("io", 15, k, jobs=1) for k in range(4)], *[L("io", 16, k, jobs=1) for k in (0, 1)],
    L("io", 1, 5, jobs=1, tier="thorough"), L("io", 3, 5, 3, tier="thorough"), L("io", 14, 5, tier="thorough"),
], ["the system calls are a model of the kernel: regular files, a directory tree with symbolic links, processes"])
P("L12", "paths of up to 7 (thorough: 9) arbitrary ASCII characters, extensions and second paths of up to 4; canonicalizing from the root", [
    L("path", 0, 7, 0, jobs=1), L("path", 1, 7, 2, jobs=1), L("path", 2, 7, 0, jobs=1), L("path", 3, 5, 4, jobs=1), L("path", 4, 7, 0, jobs=1),
    L("path", 0, 9, 0, tier="thorough"), L("path", 1, 9, 3, tier="thorough"), L("path", 2, 9, 0, tier="thorough"), L("path", 3, 8, 8, tier="thorough"), L("path", 4, 9, 0, tier="thorough", max_secs=800),
])
P("L07", "three arbitrary values of each instance: all values of the integer types, Bool, Char, Ordering and the floating-point types (NaN excluded), sums, products, nested and derived types over them, strings, texts, arrays and vectors of up to 2 (thorough: 3) elements, trees of depth 2, maps and sets of up to 2 insertions among 3 keys", [
    *[L("laws", op, 2, jobs=1) for op in range(42) if op not in (29, 33, 36)], L("laws", 33, 2), L("laws", 36, 2),
    L("laws", 29, 2, tier="thorough"), *[L("laws", op, 3, tier="thorough", max_secs=900) for op in (22, 23, 24, 25)],
    *[L("laws", op, 3, tier="thorough", max_secs=900) for op in (34, 35, 37, 38, 39, 40, 41)],
])
P("L09", "any seed and any bytes: every length up to 64 written in two pieces of any lengths, 32 to 64 bytes in three pieces of any lengths, after up to 40 other bytes and a reset", [
    *[L("xxh", n, 2, 0, jobs=1) for n in range(0, 65)],
    *[L("xxh", n, 3, 0) for n in (9, 33, 40, 52)],
    *[L("xxh", n, 2, j, jobs=1) for n, j in ((0, 5), (7, 31), (33, 40), (36, 32), (63, 1))],
    *[L("xxh", n, 3, 0, tier="thorough") for n in range(1, 65)],
    *[L("xxh", n, 4, 0, tier="thorough") for n in (33, 40)],
])
P("X01", "every one of the 1366 forms of the 505 instructions: all registers, all displacements and scales in all 10 kinds of address, all immediates", [
    *[J("rust:asmx", "h_inst", a, min(a + 200, 1366), 1023, reach=tuple(range(1000 + a, 1000 + min(a + 200, 1366)))) for a in range(0, 1366, 200)],
])
P("X02", "one label (named or not) and a second one beside it; definition nowhere, or in any of 4 sections after 0, 3 or 130 bytes and 0, 118 or 127 bytes away from what follows; before or after up to 2 uses, in any of 3 sections, of any of 4 kinds, with any addend below 2^40 (2^8 for the second use); the 73 instructions that take a label, with any register and immediate, up to 129 bytes from it", [
    *[J("rust:objx", "h_labels", d, u, reach=(2, 3, 4) if d < 6 and u == 2 else (4,), tier="thorough" if u and d < 8 and u - 1 != d % 2 else "both") for d in range(9) for u in (0, 1, 2)],
    J("rust:objx", "h_align", reach=(6,)),
    J("rust:objx", "h_insts", 0, 73, reach=(7, 8) + tuple(range(100, 173))),
])
P("X03", "two objects, each binding one name in any of 5 ways (or registered, at any address, or found by the resolver), the first with up to 1 use of it, the second with 1 use of any of 4 kinds in any of 3 sections of the name or any section, any addend below 2^48; sections of 24 to 4100 bytes", [
    *[J("rust:objx", "h_link", a, b, reach=(21,) if b == 3 and a > 2 else (10, 12, 13), tier="both" if a in (0, 1, 3) else "thorough") for a in range(5) for b in range(5)],
])
P("X04", "objects with up to 2 symbols (thorough: 3) of any binding in any section at any position, up to 3 relocations of any kind, place, target and addend, text of 0, 1 or 9 bytes of any value, any bss size", [
    J("rust:objx", "h_elf", 0, 0, reach=(33,)),
    *[J("rust:objx", "h_elf", n, k, reach=(33,) + ((31,) if k == 2 else (32,))) for n in (1, 2) for k in (0, 1, 2)],
    *[J("rust:objx", "h_elf", 3, k, reach=(31, 32, 33), tier="thorough") for k in (0, 1, 2)],
])
P("C03", "every one of the 1366 forms of the 505 instructions: all registers, all displacements and scales in all 10 kinds of address, all immediates", [
    *[L("xinst", a, min(a + 200, 1366), reach=tuple(range(1000 + a, 1000 + min(a + 200, 1366)))) for a in range(0, 1366, 200)],
])
P("C01", "texts of up to 3 arbitrary ASCII characters (unusual numerals apart); numerals of up to 5 characters of `0195.e-+` and a list of 30 unusual spellings; sequences of up to 3 (thorough: 4) tokens of 24 kinds and of up to 5 (thorough: 6) tokens of 9 kinds; places of everything but the words that prefixes and suffixes stand for and what follows a dot", [
    *[L("rd", 0, k, jobs=1) for k in range(3)], L("rd", 0, 3), *[L("rd", 1, k, jobs=1) for k in range(1, 5)], L("rd", 1, 5), L("rd", 2, 1, 24, jobs=1, reach=(2, 3)), L("rd", 2, 2, 24, jobs=1, reach=(2, 3)), L("rd", 2, 3, 24, reach=(2, 3)), L("rd", 2, 5, 9, reach=(2, 3)), L("rd", 3, jobs=1), L("rd", 4, 0, jobs=1, reach=(2,)), *[L("rd", 4, k, jobs=1, reach=(2, 3)) for k in (1, 2)], L("rd", 4, 3, reach=(2, 3)),
    L("rd", 2, 4, 24, reach=(2, 3), tier="thorough", max_secs=800), L("rd", 2, 6, 9, reach=(2, 3), tier="thorough", max_secs=800), L("rd", 1, 6, tier="thorough"),
], ["strtod is a model: numerals are exact ones, with decimal exponents of up to 22"])
P("C02", "matrices of up to 4 rows of 1 or 2 patterns, up to 2 constructors deep, over 6 types (enumerations, sums with fields, recursive sums, pairs, and integers with arbitrary 62-bit patterns)", [
    L("pm", 0, 2, 1, jobs=1), L("pm", 0, 3, 2), L("pm", 1, 3, 2), L("pm", 3, 3, 1), L("pm", 3, 4, 1), L("pm", 5, 3, 2), L("pm", 6, 3, 2),
    L("pm", 1, 4, 2, tier="thorough", max_secs=800),
])
P("C04", "up to 2 (thorough: 3) equations between types over 3 type variables, a variable for constructors, 4 constants and a type parameter, up to 2 applications deep, variables of arbitrary 32-bit levels; matching and substitution on types up to 2 deep; kinds: 2 equations over 3 variables, up to 1 function deep", [
    L("un", 0, 1, 1, 0, 0, jobs=1), L("un", 0, 2, 1, 1, 0), L("un", 0, 1, 1, 0, 1), L("un", 0, 1, 1, 1, 1), L("un", 0, 1, 2, 1, 1), L("un", 1, 1, 1), L("un", 1, 2, 1), L("un", 2, 1, 1),
    L("uk", 1, 0, 1, 3), L("uk", 2, 1, 1, 1),
    L("un", 0, 3, 1, 1, 0, tier="thorough", max_secs=800), L("un", 0, 2, 1, 1, 1, tier="thorough", max_secs=800), L("uk", 3, 1, 1, 1, tier="thorough", max_secs=800),
])
