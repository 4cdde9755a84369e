"""What every property rests on: functions under contract, instantiations, obligation categories of its own."""

FIND = ["find_index_node", "find_first_node", "find_last_node", "find_end_node", "find_index_root", "find_first_root",
        "find_last_root", "find_end_root"]
ENDS = ["find_first_node", "find_last_node", "find_end_node", "find_first_root", "find_last_root", "find_end_root"]
STEP = ["move_next_leaf", "move_prev_leaf", "move_next_iterator", "move_prev_iterator"]
JUMP = ["move_next_leaf_count", "move_prev_leaf_count", "move_iterator_count", "move_next_iterator_count", "move_prev_iterator_count"]
SEGM = ["move_after_segment", "move_after_segment_count", "move_before_segment", "move_before_segment_count"]
DREF = ["dereference_count", "dereference"]
ACC = ["dereference", "current_element", "first_element", "last_element"]
INS = ["update_sizes", "alloc_nodes_single", "insert_single_segment", "insert_single_leaf", "insert_single_branch"]
ERA = ["update_sizes", "erase_single_segment", "erase_single_leaf", "erase_single_branch"]

PURGE = ["purge_segment", "purge_node", "purge_root", "purge"]
LEMMA = ["lemma_range", "lemma_level", "lemma_rootmark", "lemma_need", "capacities"]
LEMMA0 = ["lemma_range", "lemma_level", "lemma_need", "lemma_prefix"]

Q31, Q32, Q42, T32 = (3, 1, "Elem"), (3, 2, "Elem"), (4, 2, "Elem"), (3, 2, "Triv")
A32 = (3, 2, "Triv+Al")
# element types of which the traits say other things: assignment is trivial, nothing is noexcept
EA0, EN0, EA3, EN3 = (0, 0, "Elem~A"), (0, 0, "Elem~N"), (3, 0, "Elem~A"), (3, 0, "Elem~N")
# a segment capacity of 0: for every capacity of segments (a failing obligation leaves the property undecided)
Q30, Q40, T30, A30, E30 = (3, 0, "Elem"), (4, 0, "Elem"), (3, 0, "Triv"), (3, 0, "Triv+Al"), (3, 0, "Elem+Al")
# and a node capacity of 0: for every capacity of nodes too (functions that do not write nodes)
Q00, T00, E00, A00 = (0, 0, "Elem"), (0, 0, "Triv"), (0, 0, "Elem+Al"), (0, 0, "Triv+Al")

# property -> tier -> list of (unit, functions)
SEG_I, SEG_E = ["insert_single_segment"], ["erase_single_segment"]
INS_Q = [(Q31, INS), (Q32, SEG_I + ["insert_single_leaf"]), (T32, SEG_I), (A32, SEG_I),
         (Q30, INS), (T30, SEG_I), (A30, SEG_I), (EA3, SEG_I)]
ERA_Q = [(Q31, ERA), (Q32, SEG_E), (T32, SEG_E), (A32, SEG_E),
         (Q30, ["update_sizes", "erase_single_segment", "erase_single_leaf"]), (T30, SEG_E), (A30, SEG_E), (EA3, SEG_E)]
INS_T = INS_Q + [(EN3, INS), (EA3, INS), (Q42, INS), ((5, 3, "Elem"), INS), ((4, 4, "Elem"), SEG_I + ["insert_single_leaf"]), ((4, 3, "Triv"), INS),
                 ((4, 3, "Triv+Al"), INS), ((6, 2, "Elem"), ["insert_single_branch", "insert_single_leaf"]), (E30, INS), (A30, INS), (Q40, INS)]
ERA_T = ERA_Q + [(EN3, SEG_E + ["erase_single_leaf"]), (EA3, ["erase_single_leaf"]), (Q30, ERA), (Q32, ERA), ((4, 1, "Elem"), ERA), ((4, 3, "Elem"), SEG_E), ((3, 4, "Triv+Al"), SEG_E), ((3, 2, "Triv"), ERA),
                 (E30, SEG_E), (A30, ["erase_single_leaf"]), (Q40, ["update_sizes", "erase_single_segment", "erase_single_leaf"])]

PLAN = {
    "C01": {"quick": INS_Q + [(Q31, ENDS), (Q00, ENDS)], "thorough": INS_T + [(Q42, ENDS)], "own": {"content", "tree"}},
    "C02": {"quick": ERA_Q + [(u, ENDS + ["move_next_leaf"]) for u in (Q31, Q00)], "thorough": ERA_T + [(Q42, ENDS + ["move_next_leaf"])], "own": {"content", "tree"}},
    "C04": {"quick": [(Q42, FIND + ACC), (Q00, FIND + ACC)],
            "thorough": [(Q42, FIND + ACC), ((7, 3, "Elem"), FIND + ACC), (Q00, FIND + ACC), (Q40, FIND + ACC)],
            "own": {"find"}},
    "C05": {"quick": [(u, STEP + JUMP + DREF) for u in (Q42, Q00)],
            "thorough": [(u, STEP + JUMP + DREF) for u in (Q42, (5, 3, "Elem"), (8, 4, "Elem"), Q00, Q40)], "own": {"move", "pos"}},
    "C06": {"quick": [(u, FIND + STEP + JUMP + ["difference"]) for u in (Q42, Q00)],
            "thorough": [(u, FIND + STEP + JUMP + SEGM + ["difference"]) for u in (Q42, (6, 3, "Elem"), Q00, Q40)], "own": {"compare", "pos"}},
    "C07": {"quick": [(u, SEGM + STEP + JUMP[:2] + ACC) for u in (Q42, Q00)],
            "thorough": [(u, SEGM + STEP + JUMP[:2] + ACC) for u in (Q42, (6, 3, "Elem"), Q00, Q40)], "own": {"segmove"}},
    "C08": {"quick": [(Q31, INS + ERA), (Q32, SEG_I + SEG_E)], "thorough": INS_T + ERA_T, "own": {"struct", "tree"}},
    "C09": {"quick": [(Q31, INS + ERA), (Q32, SEG_I + SEG_E), (T32, SEG_I + SEG_E), (A32, SEG_I + SEG_E)], "thorough": INS_T + ERA_T, "own": {"safe", "leak", "alloc"}},
    "C10": {"quick": INS_Q + [(Q31, ["erase_single_segment", "erase_single_leaf"])], "thorough": INS_T + ERA_T, "own": {"exc", "leak", "alloc-count"}},
}

# ---- the public functions, over the contracts of the functions above (sequence level)
# (0, 0, ..): for every capacity of nodes and segments
S0, ST, SA = (0, 0, "Elem"), (0, 0, "Triv"), (0, 0, "Elem+Al")
SALL = [(0, 0, "Elem+Al" + f) for f in ("0000", "0001", "0010", "0100", "1000", "1111")]

ONE = ["insert_value", "insert_rvalue", "emplace", "emplace_args", "push_back_value", "push_back_rvalue", "push_front_value", "push_front_rvalue",
       "emplace_back_value", "emplace_back_rvalue", "emplace_back_args", "emplace_front_value", "emplace_front_rvalue", "emplace_front_args"]
OUT1 = ["erase_value", "pop_back", "pop_front"]
CTOR = ["ctor_default", "ctor_alloc", "ctor_count_value", "ctor_count", "ctor_range", "ctor_ilist", "ctor_copy", "ctor_copy_alloc"]
MOVES = ["ctor_move", "ctor_move_alloc", "move_assign", "swap", "swap_friend"]
MANY = ["insert_count", "insert_range@In", "insert_range@ilist", "insert_range@move", "assign_count", "assign_range@In", "assign_range@ilist",
        "assign_op_ilist", "resize", "resize_value", "copy_assign", "copy_assign@self"]
LESS = ["erase_range", "clear"]
SPLICE = ["splice@all", "splice@one", "splice@range", "splice@all-rv", "splice@one-rv", "splice@range-rv"]
MERGE = ["merge@less", "merge@comp", "merge@less-rv", "merge@comp-rv"]
ALGO = ["remove", "remove_if", "unique", "unique_comp", "reverse", "sort", "sort_comp"]
RELS = ["seq_eq", "seq_ne", "seq_lt", "seq_le", "seq_gt", "seq_ge"]
ALIAS = [n + "@alias" for n in ("insert_value", "emplace", "emplace_args", "push_back_value", "push_front_value", "emplace_back_value", "emplace_front_value",
                                "emplace_back_args", "emplace_front_args", "insert_count", "assign_count", "resize_value", "remove")]


def _cv(ns):
    return [n + v for n in ns for v in ("", "@const")]


LOOK = _cv(["at", "operator[]", "front", "back", "begin", "end", "penultimate", "rbegin", "rend", "nth", "index_of"]) + \
    ["cbegin@const", "cend@const", "cpenultimate@const", "crbegin@const", "crend@const", "size", "empty"]
ITSTEP = _cv(["it_inc", "it_dec", "it_postinc", "it_postdec", "it_addeq", "it_subeq", "it_add", "it_sub", "it_index", "it_deref", "it_add_friend", "it_arrow"])
ITCMP = _cv(["it_diff", "it_eq", "it_ne", "it_lt", "it_le", "it_gt", "it_ge"]) + ["it_convert", "index_of", "index_of@const"]
ITSEG = _cv(["it_move_after_segment", "it_move_after_segment_count", "it_after_segment", "it_after_segment_count", "it_move_before_segment",
             "it_move_before_segment_count", "it_before_segment", "it_before_segment_count", "it_current", "it_begin", "it_end"])
CHANGE = ONE + OUT1 + CTOR + MOVES + MANY + LESS + SPLICE + MERGE + ALGO + ["dtor"]

SEQ = {
    "C01": [(S0, ONE), (ST, ONE)], "C02": [(S0, OUT1), (ST, OUT1)],
    "C03": [(S0, CTOR + MANY + LESS), (ST, CTOR + MANY + LESS)],
    "C04": [(S0, LOOK), (ST, LOOK)], "C05": [(S0, ITSTEP), (ST, ITSTEP)], "C06": [(S0, ITCMP), (ST, ITCMP)], "C07": [(S0, ITSEG), (ST, ITSEG)],
    "C08": [(S0, CHANGE + ["height"])], "C09": [(S0, CHANGE), (SA, CHANGE)], "C10": [(S0, ONE + OUT1), (SA, ONE + OUT1)],
    "C11": [(S0, CTOR + MANY + ["ctor_move_alloc"]), (SA, CTOR + MANY + MOVES)],
    "C12": [(u, MOVES + ["copy_assign@self"]) for u in [S0, SA] + SALL],
    "C13": [(SA, CHANGE + ["get_allocator", "get_stored_allocator"])] + [(u, CTOR + MOVES + ["copy_assign", "copy_assign@self", "dtor", "clear"]) for u in SALL],
    "C14": [(S0, SPLICE + MERGE), (ST, SPLICE + MERGE), (SA, SPLICE + MERGE)],
    "C15": [(S0, ALGO), (ST, ALGO)], "C16": [(S0, RELS), (ST, RELS)], "C17": [(S0, ALIAS), (ST, ALIAS)],
}
OWN = {
    "C01": {"spec", "call", "wf"}, "C02": {"spec", "call", "wf"}, "C03": {"spec", "call", "wf"}, "C04": {"spec", "call"}, "C05": {"spec", "call"},
    "C06": {"spec", "call"}, "C07": {"spec", "call"}, "C08": {"call", "wf"}, "C09": {"safe", "leak", "alloc", "call", "wf"}, "C10": {"exc", "leak", "wf"},
    "C11": {"exc", "leak", "wf", "alloc"}, "C12": {"spec", "wf", "call"}, "C13": {"alloc"}, "C14": {"spec", "call", "exc", "wf", "leak", "alloc"},
    "C15": {"spec", "call", "wf"}, "C16": {"spec", "call"}, "C17": {"spec", "call", "safe"},
}
for _p in ("C01", "C02", "C03", "C09", "C10", "C11", "C12", "C14", "C15", "C16", "C17"):
    SEQ[_p] = SEQ[_p] + [(u, SEQ[_p][0][1]) for u in ((EA0, EN0) if _p in ("C01", "C02", "C17") else () if _p == "C09" else (EA0,))]
for _p in SEQ:
    _e = PLAN.setdefault(_p, {"quick": [], "thorough": [], "own": set()})
    _e["seq"] = SEQ[_p]
    _e["own"] = set(_e["own"]) | OWN[_p]
# what the multi-element operations rest on is proved again in the thorough tier of their own checks
for _p in ("C03", "C11", "C14", "C17"):
    PLAN[_p]["thorough"] = INS_Q + ERA_Q
for _p in ("C12", "C13", "C15"):
    PLAN[_p]["thorough"] = ERA_Q

# what destroys a tree, and the lemmas the contracts of the tree functions use
for _p in ("C03", "C09", "C11", "C12", "C13", "C14"):
    for _t in ("quick", "thorough"):
        PLAN[_p][_t] = PLAN[_p][_t] + [(Q32, PURGE), (A32, PURGE), (Q00, PURGE), (E00, PURGE), (A00, PURGE), (EA0, PURGE), (EN0, PURGE)] + ([((4, 3, "Elem+Al"), PURGE), (Q31, PURGE)] if _t == "thorough" else [])
for _p in ("C01", "C02", "C04", "C05", "C06", "C08", "C09", "C10"):
    for _t in ("quick", "thorough"):
        PLAN[_p][_t] = PLAN[_p][_t] + [(Q31, LEMMA), (Q30, LEMMA[:-1]), (Q00, LEMMA0)] + ([(Q42, LEMMA), ((7, 3, "Elem"), LEMMA), (Q40, LEMMA[:-1])] if _t == "thorough" else [])

LEVEL, NA = {}, {}
_ALL = "Every obligation of every listed function is discharged by z3 on the typed AST of the current header, each caller against its callees' contracts, for all trees, sequences, positions and counts, with inferred and proved loop invariants. "
_CAP = "Public functions, lookup, iteration and destruction are proved for every node and segment capacity. "
_CAPW = "Functions that change segments and nodes are proved for every segment capacity, for nodes of 3 (quick) to 6 (thorough) children (C08 and C09: in the thorough tier, and in C01, C02 and C10). "
_SEQ = "Further capacities are exercised by bounded random runs of the real header only (labelled bounded). "
_TR = "Trusted: clang's AST, the VC generator, z3, the induction principle over tree height. Loops are shown to end by a falling measure."
NOTE = {p: _ALL + _CAP + (_CAPW + _SEQ if p in ("C01", "C02", "C08", "C09", "C10") else "") + _TR for p in PLAN}
_STD = "the algorithms of <algorithm> (remove, remove_if, unique, reverse, stable_sort, inplace_merge, equal, lexicographical_compare) are used through assumed contracts: they permute or shorten exactly the range they are given, as the standard says"
_DEP = "the contracts of insert_single_*, erase_single_*, find_*_root and move_* used here are proved by the checks of C01, C02, C04, C05 and C07"
ASSUME = {p: [_DEP, "container sizes below 2^59"] + ([_STD] if p in ("C14", "C15", "C16") else []) for p in PLAN}
BOUNDED = {}
TRUST = {}
