"""Specifications of the public functions, over the sequence each container holds."""
import z3
from .core import *
from .interp import *
from .seqcore import *
from .seqlevel import spec, Case, Handle
from .frontend import ty, params_of
from .seqlevel import qual


def ins(f, p, k, V):
    return lambda j: ITE(lt(j, p), f(j), ITE(lt(j, add(p, k)), V(sub(j, p)), f(sub(j, k))))


def era(f, p, k):
    return lambda j: ITE(lt(j, p), f(j), f(add(j, k)))


def const(v):
    return lambda i: v


def moved(L, f, a, b):
    if L.cfg["elem"] == "Triv":
        return f
    return lambda j: ITE(AND(le(a, j), lt(j, b)), MOVED, f(j))


# ------------------------------------------------------------------ one element
def one(L, fn, h, p, val, vals, ret):
    def post(r):
        L.expect(h, S(add(h.len, 1)), ins(h.content, p, 1, const(val)))
        if ret:
            L.expect_iter(r, h, p)
    return Case(fn, h.lv, vals, post, lambda: L.unchanged(h))


@spec("insert_value")
def insert_value(L):
    h = L.seq("s")
    p = L.pos(h)
    v, ref = L.value(h)
    return one(L, L.method("insert", ["cit", "val&"]), h, p, v, [L.it(h, p), ref], True)


@spec("insert_rvalue")
def insert_rvalue(L):
    h = L.seq("s")
    p = L.pos(h)
    v = L.c.fresh("value")
    return one(L, L.method("insert", ["cit", "val&&"]), h, p, v, [L.it(h, p), LVar(Cell(v, "value", "vt::Elem"))], True)


@spec("emplace")
def emplace(L):
    h = L.seq("s")
    p = L.pos(h)
    v, ref = L.value(h)
    return one(L, L.method("emplace", ["cit", "val&"]), h, p, v, [L.it(h, p), ref], True)


@spec("emplace_args")
def emplace_args(L):
    h = L.seq("s")
    p = L.pos(h)
    v, ref = L.value(h)
    return one(L, L.method("emplace", ["cit", "val&", "int&&"]), h, p, mk([v, 1]), [L.it(h, p), ref, LVar(Cell(1, "n", "int"))], True)


def ends(name, front):
    @spec(name + "_value")
    def f(L):
        h = L.seq("s")
        v, ref = L.value(h)
        return one(L, L.method(name, ["val&"]), h, 0 if front else h.len, v, [ref], False)

    @spec(name + "_rvalue")
    def g(L):
        h = L.seq("s")
        v = L.c.fresh("value")
        return one(L, L.method(name, ["val&&"]), h, 0 if front else h.len, v, [LVar(Cell(v, "value", "vt::Elem"))], False)
    if name.startswith("emplace"):
        @spec(name + "_args")
        def k(L):
            h = L.seq("s")
            v, ref = L.value(h)
            return one(L, L.method(name, ["val&", "int&&"]), h, 0 if front else h.len, mk([v, 1]), [ref, LVar(Cell(1, "n", "int"))], False)


for _n, _f in (("push_back", False), ("push_front", True), ("emplace_back", False), ("emplace_front", True)):
    ends(_n, _f)


@spec("erase_value")
def erase_value(L):
    h = L.seq("s")
    p = L.pos(h, end=False)

    def post(r):
        L.expect(h, S(sub(h.len, 1)), era(h.content, p, 1))
        L.expect_iter(r, h, p)
    return Case(L.method("erase", ["cit"]), h.lv, [L.it(h, p)], post)


@spec("pop_back", "pop_front")
def pop(L):
    h = L.seq("s")
    L.c.assume(h.len >= 1)
    p = 0 if L.name == "pop_front" else S(sub(h.len, 1))
    return Case(L.method(L.name, []), h.lv, [], lambda r: L.expect(h, S(sub(h.len, 1)), era(h.content, p, 1)))


# ------------------------------------------------------------------ several elements
def prefix(L, h, p, n, V):
    """after a failure a prefix of the new elements is in place"""
    t = L.tree_now(h.cell)
    k = S(sub(t.len, h.len))
    L.P(AND(le(0, k), le(k, n)), "prefix of the new elements:size", "exc")
    j = L.c.fresh("j")
    L.P(IMP(AND(j >= 0, lt(j, t.len)), eq(t.content(j), ins(h.content, p, k, V)(j))), "prefix of the new elements", "exc")


def many(L, fn, h, p, n, V, vals, ret, more=None, thrown=None):
    def post(r):
        L.expect(h, S(add(h.len, n)), ins(h.content, p, n, V))
        if ret:
            L.expect_iter(r, h, p)
        if more:
            more()
    return Case(fn, h.lv, vals, post, thrown or (lambda: prefix(L, h, p, n, V)))


@spec("insert_count")
def insert_count(L):
    h = L.seq("s")
    p = L.pos(h)
    n = L.count()
    v, ref = L.value(h)
    return many(L, L.method("insert", ["cit", "n", "val&"]), h, p, n, const(v), [L.it(h, p), n, ref], True)


@spec("insert_range")
def insert_range(L):
    h = L.seq("s")
    p = L.pos(h)
    kind = L.variant
    o = L.seq("o") if kind in ("move", "const") else None
    a, b, n, V, rng = L.source("ilist" if kind == "ilist" else kind, o)
    types = {"In": ["cit", "In", "In"], "ilist": ["cit", "ilist"], "move": ["cit", "move", "move"]}[kind]
    vals = [L.it(h, p), a] + ([b] if b is not None else [])

    def more():
        if o:
            L.expect(o, o.len, moved(L, o.content, rng[0], rng[1]), "source")
    return many(L, L.method("insert", types), h, p, n, V, vals, True, more)


@spec("erase_range")
def erase_range(L):
    h = L.seq("s")
    a, b = L.pos(h, "first"), L.pos(h, "last")
    L.c.assume(le(a, b))

    def post(r):
        L.expect(h, S(h.len - (b - a)), era(h.content, a, S(b - a)))
        L.expect_iter(r, h, a)
    return Case(L.method("erase", ["cit", "cit"]), h.lv, [L.it(h, a), L.it(h, b)], post)


def any_state(L):
    return lambda: None


@spec("assign_count")
def assign_count(L):
    h = L.seq("s")
    n = L.count()
    v, ref = L.value(h)
    return Case(L.method("assign", ["n", "val&"]), h.lv, [n, ref], lambda r: L.expect(h, n, const(v)), any_state(L))


@spec("assign_range")
def assign_range(L):
    h = L.seq("s")
    a, b, n, V, _ = L.source(L.variant)
    f = L.method("assign", ["In", "In"] if L.variant == "In" else ["ilist"])
    return Case(f, h.lv, [a] + ([b] if b is not None else []), lambda r: L.expect(h, n, V), any_state(L))


def same_object(L, r, h):
    L.P(isinstance(r, LVar) and r.cell is h.cell, "returns the container")


@spec("assign_op_ilist")
def assign_op_ilist(L):
    h = L.seq("s")
    a, b, n, V, _ = L.source("ilist")

    def post(r):
        L.expect(h, n, V)
        same_object(L, r, h)
    return Case(L.method("operator=", ["ilist"]), h.lv, [a], post, any_state(L))


def resized(L, h, n, v):
    return lambda r: L.expect(h, n, lambda j: ITE(lt(j, h.len), h.content(j), v))


@spec("resize")
def resize(L):
    h = L.seq("s")
    n = L.count()
    return Case(L.method("resize", ["n"]), h.lv, [n], resized(L, h, n, mk([])), lambda: L.unchanged(h, strict=False))


def grown(L, h, n, v):
    def f():
        prefix(L, h, h.len, S(sub(n, h.len)), const(v))
    return f


@spec("resize_value")
def resize_value(L):
    h = L.seq("s")
    n = L.count()
    v, ref = L.value(h)
    def thrown():
        t = L.tree_now(h.cell)
        j = L.c.fresh("j")
        L.P(AND(le(h.len, t.len), IMP(AND(j >= 0, lt(j, h.len)), eq(t.content(j), h.content(j)))), "old elements kept", "exc")
    return Case(L.method("resize", ["n", "val&"]), h.lv, [n, ref], resized(L, h, n, v), thrown)


@spec("clear")
def clear(L):
    h = L.seq("s")
    return Case(L.method("clear", []), h.lv, [], lambda r: L.expect(h, 0, lambda j: 0))


# ------------------------------------------------------------------ construction
def constructor(L, types, vals, n, V, alloc, more=None):
    cell = L.blank()

    def post(r):
        L.expect(cell, n, V)
        g = cell.v.f
        L.P(AND(eq(g["size_pair_"].f["base"], alloc), eq(g["height_pair_"].f["base"], alloc)), "allocator", "alloc")
        if more:
            more(cell)
    return Case(L.ctor(types), LVar(cell), vals, post, lambda: None, cell)


def alloc_arg(L):
    a = L.alloc_token("arg")
    return a, LVar(Cell(a, "alloc", "alloc"))


@spec("ctor_default")
def ctor_default(L):
    return constructor(L, [], [], 0, lambda j: 0, L.default_alloc())


@spec("ctor_alloc")
def ctor_alloc(L):
    a, r = alloc_arg(L)
    return constructor(L, ["alloc"], [r], 0, lambda j: 0, a)


@spec("ctor_count_value")
def ctor_count_value(L):
    a, r = alloc_arg(L)
    n = L.count()
    v = L.c.fresh("value")
    return constructor(L, ["n", "val&", "alloc"], [n, LVar(Cell(v, "value", "vt::Elem")), r], n, const(v), a)


@spec("ctor_count")
def ctor_count(L):
    a, r = alloc_arg(L)
    n = L.count()
    return constructor(L, ["n", "alloc"], [n, r], n, const(mk([])), a)


@spec("ctor_range")
def ctor_range(L):
    al, r = alloc_arg(L)
    a, b, n, V, _ = L.source("In")
    return constructor(L, ["In", "In", "alloc"], [a, b, r], n, V, al)


@spec("ctor_ilist")
def ctor_ilist(L):
    al, r = alloc_arg(L)
    a, b, n, V, _ = L.source("ilist")
    return constructor(L, ["ilist", "alloc"], [a, r], n, V, al)


@spec("ctor_copy", "ctor_copy_alloc")
def ctor_copy(L):
    o = L.seq("o")

    def more(cell):
        L.unchanged(o, cat="spec")
    if L.name.startswith("ctor_copy_alloc"):
        al, r = alloc_arg(L)
        return constructor(L, ["cseq&", "alloc"], [o.lv, r], o.len, o.content, al, more)
    sel = 0 if L.std else SEL(o.alloc)
    return constructor(L, ["cseq&"], [o.lv], o.len, o.content, sel, more)


def emptied(L, o):
    L.expect(o, 0, lambda j: 0, "moved-from container")


@spec("ctor_move")
def ctor_move(L):
    o = L.seq("o")

    def more(cell):
        t = L.tree_now(cell)
        L.P(OR(t is o.tree and t.ver == o.ver, eq(o.len, 0)), "elements stay where they are")
        emptied(L, o)
        L.P(eq(o.cell.v.f["size_pair_"].f["base"], o.alloc), "allocator of the moved-from container", "alloc")
    k = constructor(L, ["seq&&"], [o.lv], o.len, o.content, o.alloc, more)
    k.thrown = None
    return k


@spec("ctor_move_alloc")
def ctor_move_alloc(L):
    o = L.seq("o")
    al, r = alloc_arg(L)

    def more(cell):
        t = L.tree_now(cell)
        same = L.c.branch(eq(al, o.alloc), "equal allocators")
        if same:
            L.P(OR(t is o.tree and t.ver == o.ver, eq(o.len, 0)), "elements stay where they are")
            emptied(L, o)
        else:
            L.P(t is not o.tree, "elements transferred one by one", "alloc")
            L.expect(o, o.len, moved(L, o.content, 0, o.len), "moved-from container")
    return constructor(L, ["seq&&", "alloc"], [o.lv, r], o.len, o.content, al, more)


@spec("dtor")
def dtor(L):
    h = L.seq("s")

    def post(r):
        L.cells.remove(h.cell)
    fn = [f for f in L.u.funcs if f["kind"] == "CXXDestructorDecl" and qual(f).endswith("::seq::~seq")]
    if not fn:
        raise Unsupported("no destructor")
    return Case(fn[0], h.lv, [], post)


# ------------------------------------------------------------------ whole containers
def flags(L):
    """propagation traits of the unit: copy, move, swap"""
    k = L.cfg["ukey"][2].split("+")
    if len(k) == 1:
        return (False, True, False)
    if k[1] == "Al":
        return (False, False, False)
    return tuple(ch == "1" for ch in k[1][2:5])


def alloc_is(L, h, a, what="allocator"):
    g = h.cell.v.f
    L.P(AND(eq(g["size_pair_"].f["base"], a), eq(g["height_pair_"].f["base"], a)), what, "alloc")


@spec("copy_assign")
def copy_assign(L):
    h = L.seq("s")
    if L.variant == "self":
        def post(r):
            L.unchanged(h, cat="spec")
            same_object(L, r, h)
            alloc_is(L, h, h.alloc)
        return Case(L.method("operator=", ["cseq&"]), h.lv, [h.lv], post)
    o = L.seq("o")

    def post(r):
        L.expect(h, o.len, o.content)
        L.unchanged(o, cat="spec")
        same_object(L, r, h)
        alloc_is(L, h, o.alloc if flags(L)[0] else h.alloc)
    return Case(L.method("operator=", ["cseq&"]), h.lv, [o.lv], post, lambda: L.unchanged(o))


@spec("move_assign")
def move_assign(L):
    h, o = L.seq("s"), L.seq("o")

    def post(r):
        L.expect(h, o.len, o.content)
        same_object(L, r, h)
        alloc_is(L, h, o.alloc if flags(L)[1] else h.alloc)
        t = L.tree_now(h.cell)
        whole = flags(L)[1] or L.c.branch(eq(h.alloc, o.alloc), "equal allocators")
        if whole:
            L.P(OR(t is o.tree and t.ver == o.ver, eq(o.len, 0)), "elements stay where they are")
            emptied(L, o)
        else:
            L.P(t is not o.tree, "elements transferred one by one", "alloc")
            L.expect(o, o.len, moved(L, o.content, 0, o.len), "moved-from container")
    whole = L.std or flags(L)[1]
    return Case(L.method("operator=", ["seq&&"]), h.lv, [o.lv], post, None if whole else (lambda: L.P(ne(h.alloc, o.alloc), "only the transfer one by one throws", "exc")))


@spec("swap", "swap_friend")
def swap(L):
    h, o = L.seq("s"), L.seq("o")
    if not L.std and not flags(L)[2]:
        L.c.assume(eq(h.alloc, o.alloc))       # otherwise the call has no defined result

    def post(r):
        for x, y in ((h, o), (o, h)):
            L.expect(x, y.len, y.content)
            t = L.tree_now(x.cell)
            L.P(OR(t is y.tree and t.ver == y.ver, eq(y.len, 0)), "elements stay where they are")
            alloc_is(L, x, y.alloc if flags(L)[2] else x.alloc)
    if L.name == "swap":
        return Case(L.method("swap", ["seq&"]), h.lv, [o.lv], post)
    return Case(L.method("swap", ["seq&", "seq&"]), None, [h.lv, o.lv], post)


@spec("get_allocator", "get_stored_allocator")
def get_allocator(L):
    h = L.seq("s")

    def post(r):
        if isinstance(r, (LVar, LField)):
            r = L.I.load(r)
        L.P(eq(r, h.alloc), "allocator", "alloc")
    return Case(L.method(L.name, []), h.lv, [], post)


# ------------------------------------------------------------------ splice and merge
@spec("splice")
def splice(L):
    kind, _, ref = L.variant.partition("-")
    h, o = L.seq("s"), L.seq("o")
    p = L.pos(h)
    r = "seq&&" if ref == "rv" else "seq&"
    if kind == "all":
        a, b, types, vals = 0, o.len, ["cit", r], []
    elif kind == "one":
        a = L.pos(o, "first", False)
        b, types, vals = S(a + 1), ["cit", r, "cit"], [L.it(o, a)]
    else:
        a, b = L.pos(o, "first"), L.pos(o, "last")
        L.c.assume(le(a, b))
        types, vals = ["cit", r, "cit", "cit"], [L.it(o, a), L.it(o, b)]
    n = S(sub(b, a))
    V = lambda i: o.content(add(a, i))

    def more():
        L.expect(o, S(sub(o.len, n)), era(o.content, a, n), "other container")

    def thrown():
        prefix(L, h, p, n, V)
        t = L.tree_now(o.cell)
        L.P(eq(t.len, o.len), "other container:size", "exc")
    return many(L, L.method("splice", types), h, p, n, V, [L.it(h, p), o.lv] + vals, False, more, thrown)


def same_fn(x, want):
    return x == want


@spec("merge")
def merge(L):
    kind, _, ref = L.variant.partition("-")
    h, o = L.seq("s"), L.seq("o")
    r = "seq&&" if ref == "rv" else "seq&"
    fn = L.method("merge", [r] + (["Cmp"] if kind == "comp" else []))
    vals = [o.lv] + ([Opaque("fn:comp")] if kind == "comp" else [])

    def post(x):
        emptied(L, o)
        t = L.tree_now(h.cell)
        if not L.algos and L.c.entails(eq(o.len, 0)):
            L.expect(h, h.len, h.content)
            return
        if len(L.algos) != 1 or L.algos[0]["name"] != "inplace_merge":
            raise Unsupported("merge without inplace_merge")
        g = L.algos[0]
        (t0, a), (_, m), (_, e) = g["pos"]
        L.P(t0 is t, "merge:in this container")
        tot = S(add(h.len, o.len))
        L.P(eq(t.len, tot), "size")
        L.P(AND(eq(a, 0), eq(m, h.len), eq(e, tot)), "merge:both halves, own elements first")
        L.P(g["extra"] == ["comp" if kind == "comp" else "less"] or (not g["extra"] and kind != "comp"), "merge:comparison")
        j = L.c.fresh("j")
        L.P(IMP(AND(j >= 0, lt(j, tot)), eq(g["before"](j), ITE(lt(j, h.len), h.content(j), o.content(sub(j, h.len))))), "merge:elements of both")
        L.P(IMP(AND(j >= 0, lt(j, tot)), eq(t.content(j), g["result"](j))), "merge:result")

    def thrown():
        t = L.tree_now(h.cell)
        L.P(le(h.len, t.len), "no element lost", "exc")
    return Case(fn, h.lv, vals, post, thrown)


# ------------------------------------------------------------------ algorithms
def whole_range(L, h, g, fnarg):
    L.P(all(t is h.tree for t, _ in g["pos"]), "algorithm:in this container")
    L.P(AND(eq(g["pos"][0][1], 0), eq(g["pos"][-1][1], h.len)), "algorithm:whole range")
    if fnarg is not None:
        L.P(fnarg(g["extra"]), "algorithm:argument")


def filtering(name, algo, types, mkvals, fnarg):
    @spec(name)
    def f(L):
        h = L.seq("s")
        vals, want = mkvals(L, h)

        def post(r):
            if not L.algos and L.c.entails(le(h.len, 1 if algo == "unique" else 0)):
                L.expect(h, h.len, h.content)
                return
            if len(L.algos) != 1 or L.algos[0]["name"] != algo:
                raise Unsupported(name + " without std::" + algo)
            g = L.algos[0]
            whole_range(L, h, g, lambda ex: fnarg(ex, want))
            j = L.c.fresh("j")
            L.P(IMP(AND(j >= 0, lt(j, h.len)), eq(g["before"](j), h.content(j))), "algorithm:applied to the elements")
            L.expect(h, g["end"], lambda j: g["result"](j))
        return Case(L.method(name.split("@")[0].split(":")[0].replace("_comp", ""), types), h.lv, vals, post, lambda: None)


def _val(L, h):
    v, ref = L.value(h)
    return [ref], v


filtering("remove", "remove", ["val&"], _val, lambda ex, w: eq(ex[0], w))
filtering("remove_if", "remove_if", ["Pred"], lambda L, h: ([Opaque("fn:pred")], "pred"), lambda ex, w: ex == [w])
filtering("unique", "unique", [], lambda L, h: ([], "equal_to"), lambda ex, w: ex == [w] or not ex)
filtering("unique_comp", "unique", ["Cmp"], lambda L, h: ([Opaque("fn:comp")], "comp"), lambda ex, w: ex == [w])


def reordering(name, algos, types, mkvals, fnarg):
    @spec(name)
    def f(L):
        h = L.seq("s")
        vals, want = mkvals(L, h)

        def post(r):
            if not L.algos and L.c.entails(le(h.len, 1)):
                L.expect(h, h.len, h.content)
                return
            if "sort" not in algos and "stable_sort" in algos and len(L.algos) == 1 and L.algos[0]["name"] == "sort":
                L.P(False, "equivalent elements keep their order", "spec")
                return
            if len(L.algos) != 1 or L.algos[0]["name"] not in algos:
                raise Unsupported(name + " without the library algorithm")
            g = L.algos[0]
            whole_range(L, h, g, (lambda ex: fnarg(ex, want)) if fnarg else None)
            L.expect(h, h.len, lambda j: g["result"](j))
        return Case(L.method(name.replace("_comp", ""), types), h.lv, vals, post, lambda: L.P(eq(L.tree_now(h.cell).len, h.len), "size", "exc"))


reordering("reverse", ("reverse",), [], lambda L, h: ([], None), None)
reordering("sort", ("stable_sort",), [], lambda L, h: ([], "less"), lambda ex, w: ex == [w] or not ex)
reordering("sort_comp", ("stable_sort",), ["Cmp"], lambda L, h: ([Opaque("fn:comp")], "comp"), lambda ex, w: ex == [w])


# ------------------------------------------------------------------ comparison of containers
def relation(name, op):
    @spec(name)
    def f(L):
        a, b = L.seq("a"), L.seq("b")

        def post(r):
            for g in L.algos:
                want = g["name"]
                ps = g["pos"]
                x, y = (a, b)
                if want == "lexicographical_compare":
                    if op in (">", "<="):
                        x, y = b, a
                    L.P(AND(ps[0][0] is x.tree, ps[1][0] is x.tree, ps[2][0] is y.tree, ps[3][0] is y.tree), "compare:operands in order")
                    L.P(AND(eq(ps[0][1], 0), eq(ps[1][1], x.len), eq(ps[2][1], 0), eq(ps[3][1], y.len)), "compare:whole ranges")
                elif want == "equal":
                    L.P(AND(ps[0][0] is ps[1][0], ps[2][0] is not ps[0][0], ps[0][0] in (a.tree, b.tree), ps[2][0] in (a.tree, b.tree)), "compare:operands")
                    L.P(AND(eq(ps[0][1], 0), eq(ps[1][1], ps[0][0].len), eq(ps[2][1], 0)), "compare:whole ranges")
                    if len(ps) == 3:
                        L.P(eq(a.len, b.len), "compare:second range long enough")
                    else:
                        L.P(eq(ps[3][1], ps[2][0].len), "compare:whole ranges")
                if g["extra"]:
                    raise Unsupported("comparison with a function object")
            if len(L.algos) > 1 or (L.algos and L.algos[0]["name"] != ("equal" if op in ("==", "!=") else "lexicographical_compare")):
                raise Unsupported("comparison by other means")
            if op in ("==", "!="):
                res = AND(eq(a.len, b.len), L.algos[0]["result"]) if L.algos else eq(a.len, b.len)
                if not L.algos:
                    if not L.c.entails(OR(ne(a.len, b.len), eq(a.len, 0))):
                        raise Unsupported("comparison by other means")
            else:
                if not L.algos:
                    raise Unsupported("comparison by other means")
                res = L.algos[0]["result"]
            neg = op in ("!=", "<=", ">=")
            L.P(eq(zb(r), zb(NOT(res) if neg else res)), "compare:result")
            L.unchanged(a, cat="spec")
            L.unchanged(b, cat="spec")
        return Case(L.method("operator" + op, ["cseq&", "cseq&"]), None, [a.lv, b.lv], post, lambda: (L.unchanged(a), L.unchanged(b)))


def zb(b):
    return z3.BoolVal(b) if isinstance(b, bool) else (b if z3.is_bool(b) else b != 0)


for _o, _w in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
    relation("seq_" + _o, _w)


# ------------------------------------------------------------------ lookup
def const_variant(L):
    return lambda t: t.endswith("const") or ") const" in t


def look(name, n, pos, elem):
    """n parameters of type n; pos(L, h, args) -> position"""
    @spec(name)
    def f(L):
        h = L.seq("s")
        isconst = L.variant == "const"
        m = name
        args = [L.c.fresh("pos") for _ in range(n)]
        for a in args:
            L.c.assume(AND(a >= 0, a < LIM2))
        fn = L.method(m, ["n"] * n, lambda t: (") const" in t) == isconst)
        p, pre, exc = pos(L, h, args)
        L.c.assume(pre)

        def post(r):
            if exc is not None:
                L.P(NOT(exc), "throws when it should")
            if elem:
                L.expect_elem(r, h, p)
            else:
                if isinstance(r, Rec) and r.tag == "reverse_iterator":
                    r = r.f["base"]
                L.expect_iter(r, h, p, "designates the position")
            L.unchanged(h, cat="spec")

        def thrown():
            L.P(L.exc.endswith("out_of_range"), "type of the exception")
            L.P(exc if exc is not None else False, "throws only when it should")
            L.unchanged(h, cat="spec")
        return Case(fn, h.lv, args, post, thrown if exc is not None else None)


LIM2 = 1 << 64
look("at", 1, lambda L, h, a: (a[0], True, NOT(lt(a[0], h.len))), True)
look("operator[]", 1, lambda L, h, a: (a[0], lt(a[0], h.len), None), True)
look("front", 0, lambda L, h, a: (0, lt(0, h.len), None), True)
look("back", 0, lambda L, h, a: (S(sub(h.len, 1)), lt(0, h.len), None), True)
for _n in ("begin", "cbegin", "rend", "crend"):
    look(_n, 0, lambda L, h, a: (0, True, None), False)
for _n in ("end", "cend", "rbegin", "crbegin"):
    look(_n, 0, lambda L, h, a: (h.len, True, None), False)
for _n in ("penultimate", "cpenultimate"):
    look(_n, 0, lambda L, h, a: (S(sub(h.len, 1)), lt(0, h.len), None), False)
look("nth", 1, lambda L, h, a: (S(ITE(lt(a[0], h.len), a[0], h.len)), True, None), False)


@spec("index_of")
def index_of(L):
    h = L.seq("s")
    p = L.pos(h)
    return Case(L.method("index_of", ["cit" if L.variant == "const" else "it"]), h.lv, [L.it(h, p)], lambda r: L.P(eq(r, p), "position"))


@spec("size", "empty", "height")
def size(L):
    h = L.seq("s")
    b = L.name

    def post(r):
        if b == "size":
            L.P(eq(r, h.len), "number of elements")
        elif b == "height":
            L.P(eq(r, h.ht), "height")
        else:
            L.P(eq(zb(r), zb(eq(h.len, 0))), "empty")
    return Case(L.method(b, []), h.lv, [], post)


# ------------------------------------------------------------------ iterators
def itmethod(L, name, n, pred=None, const=None):
    isconst = L.variant.startswith("const")
    for f in L.u.funcs:
        if f.get("name") != name or not qual(f).endswith("::iterator_t::" + name) or len(params_of(f)) != n:
            continue
        p = f.get("_parent", {})
        args = [c for c in p.get("inner", []) if c.get("kind") == "TemplateArgument"]
        t = args[1].get("type", {}).get("qualType", "") if len(args) > 1 else ""
        if f["kind"] == "CXXMethodDecl" and ("const" in t) != isconst:
            continue
        if pred and not pred(f):
            continue
        return f
    raise Unsupported("no iterator method " + name)


def stepping(spname, meth, npar, delta, ret, unsigned=False, copy=False, end=True, ptype=None):
    """delta(L, h, p, n, f) -> target position; ret: self / old / new (a separate iterator)"""
    @spec(spname)
    def f(L):
        h = L.seq("s")
        p = L.pos(h)
        n = None
        vals = []
        if npar == 1 and ptype != "int":
            n = L.c.fresh("n")
            L.c.assume(AND(0 <= n, n < LIM2) if unsigned else AND(-(1 << 60) <= n, n <= (1 << 60)))
            vals = [n]
        elif npar == 1:
            vals = [0]
        fn = itmethod(L, meth, npar, lambda f: (ptype is None and (not params_of(f) or "iterator_t" not in ty(params_of(f)[0]))) or (ptype == "int" and ty(params_of(f)[0]) == "int"))
        cell = Cell(L.it(h, p), "it", "iterator_t")
        L.touch(h.ver, p)
        q = S(delta(L, h, p, n))
        L.c.assume(AND(le(0, q), le(q, h.len) if end else lt(q, h.len)))

        def post(r):
            if ret == "elem":
                L.expect_elem(r, h, q)
            elif ret == "self":
                L.P(isinstance(r, LVar) and r.cell is cell, "returns the iterator itself")
            if ret in ("old", "new"):
                if isinstance(r, (LVar, LField)):
                    r = L.I.load(r)
                L.expect_iter(r, h, p if ret == "old" else q, "returned iterator")
            L.expect_iter(cell.v, h, q if ret in ("self", "old") else p, "iterator afterwards")
            L.unchanged(h, cat="spec")
        return Case(fn, LVar(cell), vals, post)


_si = lambda L, h, p: SI(h.ver, p)
_sl = lambda L, h, p: SL(h.ver, p)
stepping("it_inc", "operator++", 0, lambda L, h, p, n: p + 1, "self")
stepping("it_dec", "operator--", 0, lambda L, h, p, n: p - 1, "self")
stepping("it_postinc", "operator++", 1, lambda L, h, p, n: p + 1, "old", ptype="int")
stepping("it_postdec", "operator--", 1, lambda L, h, p, n: p - 1, "old", ptype="int")
stepping("it_addeq", "operator+=", 1, lambda L, h, p, n: p + n, "self")
stepping("it_subeq", "operator-=", 1, lambda L, h, p, n: p - n, "self")
stepping("it_add", "operator+", 1, lambda L, h, p, n: p + n, "new")
stepping("it_sub", "operator-", 1, lambda L, h, p, n: p - n, "new")
stepping("it_index", "operator[]", 1, lambda L, h, p, n: p + n, "elem", end=False)
stepping("it_deref", "operator*", 0, lambda L, h, p, n: p, "elem", end=False)
for _n, _r in (("move_after_segment", "self"), ("after_segment", "new")):
    stepping("it_" + _n, _n, 0, lambda L, h, p, n: p - _si(L, h, p) + _sl(L, h, p), _r)
    stepping("it_" + _n + "_count", _n, 1, lambda L, h, p, n: p - _si(L, h, p) + _sl(L, h, p) + n, _r, unsigned=True)
for _n, _r in (("move_before_segment", "self"), ("before_segment", "new")):
    stepping("it_" + _n, _n, 0, lambda L, h, p, n: p - _si(L, h, p) - 1, _r)
    stepping("it_" + _n + "_count", _n, 1, lambda L, h, p, n: p - _si(L, h, p) - 1 - n, _r, unsigned=True)


@spec("it_add_friend")
def it_add_friend(L):
    h = L.seq("s")
    p = L.pos(h)
    n = L.c.fresh("n")
    L.c.assume(AND(-(1 << 60) <= n, n <= (1 << 60), le(0, p + n), le(p + n, h.len)))
    isconst = L.variant.startswith("const")
    for f in L.u.funcs:
        if f.get("name") == "operator+" and f["kind"] == "FunctionDecl" and len(params_of(f)) == 2 and ("const" in ty(params_of(f)[1])) == isconst:
            return Case(f, None, [n, L.it(h, p)], lambda r: L.expect_iter(L.I.load(r) if isinstance(r, LVar) else r, h, p + n))
    raise Unsupported("no operator+")


def pointer(spname, meth, what):
    @spec(spname)
    def f(L):
        h = L.seq("s")
        p = L.pos(h, end=meth != "current" and meth != "operator->")
        L.touch(h.ver, p)
        cell = Cell(L.it(h, p), "it", "iterator_t")

        def post(r):
            v = h.ver
            off = {"current": SI(v, p), "operator->": SI(v, p), "begin": 0, "end": SL(v, p)}[meth]
            if not isinstance(r, Ptr):
                raise Unsupported("pointer result %r" % (r,))
            L.P(AND(eq(r.ref, SP(v, p)), eq(r.off, off)), what)
        return Case(itmethod(L, meth, 0), LVar(cell), [], post)


pointer("it_current", "current", "points to the element")
pointer("it_arrow", "operator->", "points to the element")
pointer("it_begin", "begin", "points to the start of the segment")
pointer("it_end", "end", "points to the end of the segment")


def comparison(spname, op, rel):
    @spec(spname)
    def f(L):
        h = L.seq("s")
        p, q = L.pos(h, "p"), L.pos(h, "q")
        a, b = Cell(L.it(h, p), "a", "iterator_t"), Cell(L.it(h, q), "b", "iterator_t")

        def post(r):
            if op == "-":
                L.P(eq(r, p - q), "difference of positions")
            else:
                L.P(eq(zb(r), zb(rel(p, q))), "order of positions")
        fn = itmethod(L, "operator" + op, 1, lambda f: "iterator_t" in ty(params_of(f)[0]))
        return Case(fn, LVar(a), [LVar(b)], post)


comparison("it_diff", "-", None)
comparison("it_eq", "==", lambda p, q: eq(p, q))
comparison("it_ne", "!=", lambda p, q: ne(p, q))
comparison("it_lt", "<", lambda p, q: p < q)
comparison("it_le", "<=", lambda p, q: p <= q)
comparison("it_gt", ">", lambda p, q: p > q)
comparison("it_ge", ">=", lambda p, q: p >= q)


@spec("it_convert")
def it_convert(L):
    h = L.seq("s")
    p = L.pos(h)
    cell = Cell(Rec("iterator_t"), "it", "iterator_t")
    for f in L.u.funcs:
        if f["kind"] == "CXXConstructorDecl" and qual(f).split("::")[-2] == "iterator_t" and len(params_of(f)) == 1:
            t = ty(params_of(f)[0])
            own = [c for c in f["_parent"].get("inner", []) if c.get("kind") == "TemplateArgument"]
            if "iterator_t<" in t and len(own) > 1 and "const" in own[1].get("type", {}).get("qualType", "") and "const vt" not in t.replace("const boost", ""):
                return Case(f, LVar(cell), [LVar(Cell(L.it(h, p), "o", "iterator_t"))], lambda r: L.expect_iter(cell.v, h, p))
    raise Unsupported("no conversion")


# every specification with the variants it is run in
VARIANTS = {"insert_range": ["In", "ilist", "move"], "assign_range": ["In", "ilist"], "copy_assign": ["", "self"],
            "splice": ["all", "one", "range", "all-rv", "one-rv", "range-rv"], "merge": ["less", "comp", "less-rv", "comp-rv"]}
for _n in ("insert_value", "emplace", "emplace_args", "push_back_value", "push_front_value", "emplace_back_value", "emplace_front_value",
           "emplace_back_args", "emplace_front_args", "insert_count", "assign_count", "resize_value", "remove"):
    VARIANTS[_n] = ["", "alias"]
for _n in ("at", "operator[]", "front", "back", "begin", "end", "penultimate", "rbegin", "rend", "nth", "index_of"):
    VARIANTS[_n] = ["", "const"]
for _n in ("cbegin", "cend", "cpenultimate", "crbegin", "crend"):
    VARIANTS[_n] = ["const"]


def expand(names):
    from .seqlevel import SPECS
    out = []
    for n in names:
        if "@" in n:
            out.append(n)
            continue
        vs = VARIANTS.get(n, ["", "const"] if n.startswith("it_") and n != "it_convert" else [""])
        out += [n + ("@" + v if v else "") for v in vs]
    return out
