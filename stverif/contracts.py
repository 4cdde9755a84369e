"""Contracts of the tree-level functions."""
import z3
from .core import *
from .interp import *
from .tree import *
from .loops import LoopContract
from .frontend import params_of

TREE = {}


def contract(cls):
    for n in cls.names:
        TREE[n] = cls
    return cls


class Contract:
    names = ()
    static = True
    loops = ()

    def __init__(self, L):
        self.L, self.c, self.sh = L, L.c, L.sh

    # ---- verification of the body
    def find(self, name):
        cands = [f for f in self.L.u.funcs if f.get("name") == name and self.accept(f)]
        if not cands:
            raise Unsupported("no function " + name)
        return cands[0]

    def accept(self, f):
        return True

    def verify(self, name):
        L, c = self.L, self.c
        self.name = name
        this = L.make_seq()
        vals = self.setup()
        fn = self.find(name)
        if not c.feasible():
            return "vacuous-precondition"
        L.I.loops = [k(L) for k in self.loops]
        for k in L.I.loops:
            k.contract = self
        thrown = None
        try:
            r = L.I.invoke(fn, None if self.static else this, vals)
        except CppThrow as e:
            thrown = e.what
        if not c.feasible():
            raise PathEnd()
        if thrown is not None:
            self.post_throw(thrown)
            return "throw"
        self.post(r)
        return "return"

    def post_throw(self, what):
        self.c.prove(False, self.name + ":no exception", "exc")

    def P(self, f, what, cat):
        self.c.prove(f, "%s:%s" % (self.name, what), cat)

    def pre_at_call(self, f, what, cat="pre"):
        self.c.prove(f, "pre(%s):%s" % (self.names[0], what), cat)


PURE_PARTS = ("kind", "occ", "links", "sizes", "up")


# ------------------------------------------------------------------ lookup
class DescendLoop(LoopContract):
    """find_*_branch: walk down, staying at the height announced"""
    name = "descend"
    roles = {"ptr": ("node", ["pointer"]), "ht": ("int", ["ht"])}
    variants = (3, 2)

    def measure(self, r):
        return r["ht"]

    def inv(self, r):
        v = self.L.view()
        k = self.contract
        p = r["ptr"]
        self.c.touch(p)
        out = [(AND(ne(p, 0), v.rd("own", p)), "owned", "nav"), (eq(v.rd("ht", p), r["ht"]), "height", "nav"), (r["ht"] >= self.variant, "inner", "nav")]
        out += k.loop_inv(v, p, r)
        return out


class DescendIndexLoop(DescendLoop):
    name = "descend-index"
    roles = {"ptr": ("node", ["pointer"]), "ht": ("int", ["ht"]), "pos": ("int", ["pos"])}


class FindNode(Contract):
    """entry for a position relative to the subtree of a node"""
    which = "index"
    cat = "find"

    def target(self, v, p, pos):
        return None

    def pre(self, v, p, ht, pos):
        out = [(AND(ne(p, 0), v.rd("own", p)), "owned"), (AND(eq(v.rd("ht", p), ht), ht >= 2), "height")]
        if pos is not None:
            out.append((AND(0 <= pos, lt(pos, v.rd("cnt", p))), "position"))
        return out

    def ens(self, v, p, pos, e):
        st, cnt = v.rd("st", p), v.rd("cnt", p)
        if self.which == "index":
            return v.entry_at(e, st + pos)
        if self.which == "first":
            return AND(v.entry_at(e, st), eq(e.f["segment"].f["index"], 0))
        if self.which == "last":
            return AND(v.entry_at(e, st + cnt - 1), eq(e.f["segment"].f["index"], e.f["segment"].f["length"] - 1))
        return AND(v.seg_entry(e), eq(v.rd("st", e.f["segment"].f["pointer"].ref) + e.f["segment"].f["index"], st + cnt),
                   eq(e.f["segment"].f["index"], e.f["segment"].f["length"]))

    def setup(self):
        c, L = self.c, self.L
        v = L.view()
        c.assume(v.root_facts())
        for f in v.wf_facts(parts=PURE_PARTS, st=1):
            c.add_fact(f)
        self.p, self.ht = c.fresh("pointer"), c.fresh("ht")
        self.pos = c.fresh("pos") if self.which == "index" else None
        c.touch(self.p)
        for f, _ in self.pre(v, self.p, self.ht, self.pos):
            c.assume(f)
        return [Ptr(self.p), self.ht] + ([self.pos] if self.pos is not None else [])

    def loop_inv(self, v, p, r):
        st0, cnt0 = v.rd("st", self.p), v.rd("cnt", self.p)
        if self.which == "index":
            return [(AND(0 <= r["pos"], r["pos"] < v.rd("cnt", p), eq(v.rd("st", p) + r["pos"], st0 + self.pos)), "position", self.cat)]
        if self.which == "first":
            return [(eq(v.rd("st", p), st0), "position", self.cat)]
        return [(eq(v.rd("st", p) + v.rd("cnt", p), st0 + cnt0), "position", self.cat)]

    @property
    def loops(self):
        return (DescendIndexLoop,) if self.which == "index" else (DescendLoop,)

    def post(self, e):
        c = self.c
        c.touch(e.f["segment"].f["pointer"].ref)
        self.P(self.ens(self.L.view(), self.p, self.pos, e), "designates the position", self.cat)

    def at_call(self, fn, this, vals):
        c, L = self.c, self.L
        if not isinstance(vals[0], Ptr) or len(vals) != (3 if self.which == "index" else 2):
            return NotImplemented
        p, ht = vals[0].ref, vals[1]
        pos = vals[2] if len(vals) > 2 else None
        c.touch(p)
        v = L.view()
        for f, nm in self.pre(v, p, ht, pos):
            self.pre_at_call(f, nm)
        e = new_entry(c, "found")
        c.touch(e.f["segment"].f["pointer"].ref)
        c.assume(self.ens(v, p, pos, e))
        return e


@contract
class FindIndexNode(FindNode):
    names = ("find_index_node",)
    which = "index"


@contract
class FindFirstNode(FindNode):
    names = ("find_first_node",)
    which = "first"


@contract
class FindLastNode(FindNode):
    names = ("find_last_node",)
    which = "last"


@contract
class FindEndNode(FindNode):
    names = ("find_end_node",)
    which = "end"


class FindRoot(Contract):
    cat = "find"

    def target(self, v, pos):
        return {"index": pos, "first": 0, "last": v.sz - 1, "end": v.sz}[self.which]

    def setup(self):
        c, L = self.c, self.L
        v = L.view()
        c.assume(v.root_facts())
        for f in v.wf_facts(parts=PURE_PARTS, st=1):
            c.add_fact(f)
        c.touch(v.root)
        self.pos = c.fresh("pos") if self.which == "index" else None
        if self.which == "index":
            c.assume(AND(0 <= self.pos, self.pos < v.sz))
        if self.which == "last":
            c.assume(v.sz >= 1)
        return [Ptr(v.root), v.sz, v.HT] + ([self.pos] if self.pos is not None else [])

    def post(self, it):
        c, v = self.c, self.L.view()
        c.touch(it.f["entry"].f["segment"].f["pointer"].ref)
        q = self.target(v, self.pos)
        self.P(v.entry_at(it.f["entry"], q), "designates the position", self.cat)
        self.P(eq(it.f["pos"], q), "stored position", self.cat)

    def at_call(self, fn, this, vals):
        return NotImplemented


@contract
class FindIndexRoot(FindRoot):
    names = ("find_index_root",)
    which = "index"


@contract
class FindFirstRoot(FindRoot):
    names = ("find_first_root",)
    which = "first"


@contract
class FindLastRoot(FindRoot):
    names = ("find_last_root",)
    which = "last"


@contract
class FindEndRoot(FindRoot):
    names = ("find_end_root",)
    which = "end"


# ------------------------------------------------------------------ moving
class MoveContract(Contract):
    """entry moves from segment s (position base) to another position"""
    cat = "move"

    def base_setup(self):
        c, L = self.c, self.L
        v = L.view()
        c.assume(v.root_facts())
        for f in v.wf_facts(parts=PURE_PARTS, st=1):
            c.add_fact(f)
        c.touch(v.root)
        return v

    def entry_cell(self, e):
        self.cell = Cell(e, "entry", "entry")
        return LVar(self.cell)


class UpLoop(LoopContract):
    """climb: pointer is at height child_ht + 1 and index is a child of it"""
    name = "climb"
    roles = {"ptr": ("node", ["pointer"]), "index": ("int", ["index"]), "cht": ("int", ["child_ht"])}

    def measure(self, r):
        return self.L.view().HT - r["cht"]

    def common(self, v, r):
        p = r["ptr"]
        return [(IMP(ne(p, 0), AND(v.rd("own", p), eq(v.rd("ht", p), r["cht"] + 1), 0 <= r["index"], r["index"] < v.len(p))), "at a child", "nav"),
                (AND(r["cht"] >= 2, r["cht"] <= v.HT), "height", "nav")]


class NextLoop(UpLoop):
    def inv(self, r):
        v, p, k = self.L.view(), r["ptr"], self.contract
        self.c.touch(p)
        E = k.E
        return self.common(v, r) + [
            (IMP(eq(p, 0), eq(E, v.sz)), "end", k.cat),
            (IMP(ne(p, 0), eq(E, v.rd("st", p) + v.prefix(p, r["index"] + 1))), "position", k.cat)]


class PrevLoop(UpLoop):
    def inv(self, r):
        v, p, k = self.L.view(), r["ptr"], self.contract
        self.c.touch(p)
        return self.common(v, r) + [
            (AND(ne(p, 0), eq(k.E, v.rd("st", p) + v.prefix(p, r["index"]))), "position", k.cat)]


class NextCountLoop(UpLoop):
    name = "climb-count"
    roles = {"base": ("node", ["base"]), "ptr": ("node", ["pointer"]), "index": ("int", ["index"]), "cht": ("int", ["child_ht"]), "count": ("int", ["count"])}

    def inv(self, r):
        v, p, k = self.L.view(), r["ptr"], self.contract
        b = r["base"]
        self.c.touch(p)
        self.c.touch(b)
        return self.common(v, r) + [
            (AND(ne(b, 0), v.rd("own", b), eq(v.rd("ht", b), r["cht"]), eq(v.rd("spar", b), p), IMP(ne(p, 0), eq(v.rd("spidx", b), r["index"]))), "base", "nav"),
            (AND(0 <= r["count"], eq(k.q, v.rd("st", b) + v.rd("cnt", b) + r["count"])), "position", k.cat)]


class PrevCountLoop(UpLoop):
    name = "climb-count"
    roles = {"ptr": ("node", ["pointer"]), "index": ("int", ["index"]), "cht": ("int", ["child_ht"]), "count": ("int", ["count"])}

    def inv(self, r):
        v, p, k = self.L.view(), r["ptr"], self.contract
        self.c.touch(p)
        return self.common(v, r) + [
            (AND(r["count"] >= 1, ne(p, 0), eq(k.q, v.rd("st", p) + v.prefix(p, r["index"]) - r["count"])), "position", k.cat)]


class LeafMove(MoveContract):
    """move_next_leaf / move_prev_leaf / with count, on an entry whose segment is valid"""
    cat = "move"

    def pre(self, v, e, cnt):
        s = e.f["segment"].f["pointer"].ref
        out = [(v.seg_entry(e) if self.dir < 0 else OR(v.seg_entry(e), v.no_entry(e)), "entry designates a segment")]
        if self.dir > 0:
            if cnt is not None:
                out.append((AND(0 <= cnt, ITE(eq(s, 0), eq(cnt, 0), v.rd("st", s) + v.rd("cnt", s) + cnt <= v.sz)), "target in range"))
        else:
            if cnt is None:
                out.append((v.rd("st", s) >= 1, "target in range"))
            else:
                out.append((AND(cnt >= 1, v.rd("st", s) - cnt >= 0), "target in range"))
        return out

    def target(self, v, e, cnt):
        s = e.f["segment"].f["pointer"].ref
        if self.dir > 0:
            return ITE(eq(s, 0), 0, v.rd("st", s) + v.rd("cnt", s) + (0 if cnt is None else cnt))
        return v.rd("st", s) - (1 if cnt is None else cnt)

    def setup(self):
        c = self.c
        v = self.base_setup()
        e = new_entry(c, "entry")
        cnt = c.fresh("count") if self.counted else None
        c.touch(e.f["segment"].f["pointer"].ref)
        for f, _ in self.pre(v, e, cnt):
            c.assume(f)
        c.touch(e.f["leaf"].f["pointer"].ref)
        self.q = self.target(v, e, cnt)
        s = e.f["segment"].f["pointer"].ref
        self.E = v.rd("st", s) + v.rd("cnt", s) if self.dir > 0 else v.rd("st", s)
        return [self.entry_cell(e.copy())] + ([cnt] if self.counted else [])

    def post(self, r):
        c, v = self.c, self.L.view()
        e = self.cell.v
        c.touch(e.f["segment"].f["pointer"].ref)
        self.P(v.entry_at(e, self.q), "designates the target", self.cat)

    def at_call(self, fn, this, vals):
        c, L = self.c, self.L
        if len(vals) != (2 if self.counted else 1):
            return NotImplemented
        e = L.I.load_nocopy(vals[0])
        if not isinstance(e, Rec) or "segment" not in e.f:
            return NotImplemented
        cnt = vals[1] if self.counted else None
        v = L.view()
        c.touch(e.f["segment"].f["pointer"].ref)
        for f, nm in self.pre(v, e, cnt):
            self.pre_at_call(f, nm)
        q = self.target(v, e, cnt)
        e2 = new_entry(c, "moved")
        c.touch(e2.f["segment"].f["pointer"].ref)
        c.assume(v.entry_at(e2, q))
        L.I.store(vals[0], e2)
        return None


@contract
class MoveNextLeaf(LeafMove):
    names = ("move_next_leaf",)
    dir, counted = 1, False
    loops = (NextLoop,)


@contract
class MovePrevLeaf(LeafMove):
    names = ("move_prev_leaf",)
    dir, counted = -1, False
    loops = (PrevLoop,)


@contract
class MoveNextLeafCount(LeafMove):
    names = ("move_next_leaf_count",)
    dir, counted = 1, True
    loops = (NextCountLoop,)


@contract
class MovePrevLeafCount(LeafMove):
    names = ("move_prev_leaf_count",)
    dir, counted = -1, True
    loops = (PrevCountLoop,)


class IterMove(MoveContract):
    """whole iterators: from a valid iterator at position p to a valid iterator at the documented position"""
    cat = "move"

    def valid(self, v, it, p):
        return AND(v.entry_at(it.f["entry"], p), eq(it.f["pos"], p))

    def setup(self):
        c = self.c
        v = self.base_setup()
        it = new_iter(c, "it")
        self.p = c.fresh("p")
        c.touch(it.f["entry"].f["segment"].f["pointer"].ref)
        c.assume(self.valid(v, it, self.p))
        c.touch(it.f["entry"].f["leaf"].f["pointer"].ref)
        self.it0 = it.copy()
        self.cell = Cell(it, "it", "it")
        extra = []
        self.n = None
        if self.arg:
            self.n = c.fresh("n")
            lim = 1 << 60
            c.assume(AND(-lim <= self.n, self.n <= lim) if self.arg == "signed" else AND(0 <= self.n, self.n <= lim))
            extra = [self.n]
        self.q = self.target(v, it)
        c.assume(self.range(v, it))
        return [LVar(self.cell)] + extra

    def range(self, v, it):
        return AND(0 <= self.q, self.q <= v.sz)

    arg = None

    def post(self, r):
        v = self.L.view()
        it = self.cell.v
        self.c.touch(it.f["entry"].f["segment"].f["pointer"].ref)
        self.P(v.entry_at(it.f["entry"], self.q), "designates the target", self.cat)
        self.P(eq(it.f["pos"], self.q), "stored position", self.poscat)

    poscat = "pos"

    def at_call(self, fn, this, vals):
        return NotImplemented


@contract
class MoveNextIterator(IterMove):
    names = ("move_next_iterator",)

    def target(self, v, it):
        return self.p + 1


@contract
class MovePrevIterator(IterMove):
    names = ("move_prev_iterator",)

    def target(self, v, it):
        return self.p - 1


@contract
class MoveIteratorCount(IterMove):
    names = ("move_iterator_count",)
    arg = "signed"

    def target(self, v, it):
        return self.p + self.n


@contract
class MoveNextIteratorCount(IterMove):
    names = ("move_next_iterator_count",)
    arg = "unsigned"

    def target(self, v, it):
        return self.p + self.n


@contract
class MovePrevIteratorCount(IterMove):
    names = ("move_prev_iterator_count",)
    arg = "unsigned"

    def target(self, v, it):
        return self.p - self.n


class SegMove(IterMove):
    cat = "segmove"

    def here(self, it):
        g = it.f["entry"].f["segment"].f
        return g["pointer"].ref, g["index"], g["length"]


@contract
class MoveAfterSegment(SegMove):
    """first position after the segment"""
    names = ("move_after_segment",)

    def target(self, v, it):
        s, i, n = self.here(it)
        return self.p - i + n


@contract
class MoveAfterSegmentCount(SegMove):
    names = ("move_after_segment_count",)
    arg = "unsigned"

    def target(self, v, it):
        s, i, n = self.here(it)
        return self.p - i + n + self.n


@contract
class MoveBeforeSegment(SegMove):
    """last position of the previous segment"""
    names = ("move_before_segment",)

    def target(self, v, it):
        s, i, n = self.here(it)
        return self.p - i - 1


@contract
class MoveBeforeSegmentCount(SegMove):
    """count positions before the last position of the previous segment"""
    names = ("move_before_segment_count",)
    arg = "unsigned"

    def target(self, v, it):
        s, i, n = self.here(it)
        return self.p - i - 1 - self.n


@contract
class Dereference(IterMove):
    names = ("dereference", "current_element", "first_element", "last_element")
    cat = "find"

    def target(self, v, it):
        return self.p

    def setup(self):
        v = self.setup2()
        return [self.cell.v]

    def setup2(self):
        vals = IterMove.setup(self)
        self.cell.v = self.cell.v.copy()
        return vals

    def range(self, v, it):
        # begin/end of the segment are also used on end()
        return AND(0 <= self.q, self.q < v.sz)

    def post(self, r):
        s, i, n = SegMove.here(self, self.it0)
        ref, off = r.ref, r.off
        want = {"dereference": i, "current_element": i, "first_element": 0, "last_element": n}[self.name]
        self.P(AND(eq(ref, s), eq(off, want)), "designates its element", "segmove" if self.name.endswith("_element") else "find")


@contract
class DereferenceCount(IterMove):
    names = ("dereference_count",)
    arg = "signed"

    def target(self, v, it):
        return self.p + self.n

    def setup(self):
        vals = IterMove.setup(self)
        return [self.cell.v, self.n]

    def range(self, v, it):
        return AND(0 <= self.q, self.q < v.sz)

    def post(self, r):
        v = self.L.view()
        self.c.touch(r.ref)
        self.P(AND(v.rd("own", r.ref), eq(v.rd("ht", r.ref), 1), 0 <= r.off, r.off < v.rd("cnt", r.ref), eq(v.rd("st", r.ref) + r.off, self.q)),
               "designates the element at the distance", "move")


@contract
class Difference(IterMove):
    names = ("difference",)

    def setup(self):
        c = self.c
        self.base_setup()
        a, b = new_iter(c, "a"), new_iter(c, "b")
        c.assume(AND(0 <= a.f["pos"], a.f["pos"] < (1 << 60), 0 <= b.f["pos"], b.f["pos"] < (1 << 60)))
        self.a, self.b = a.f["pos"], b.f["pos"]
        return [a, b]

    def post(self, r):
        self.P(eq(r, self.a - self.b), "difference of positions", "compare")


class BlockHooks(TreeHooks):
    def freed(self, I, r, kind):
        pass

    def allocated(self, I, r, kind):
        pass


@contract
class Capacity(Contract):
    """the capacities derived from the template parameters, for every target and every element size"""
    names = ("capacities",)

    def verify(self, name):
        L, c = self.L, self.c
        self.name = name
        sym = {k: c.fresh(k) for k in ("segment_target", "base_target", "sizeof(T)")}
        c.assume(AND([0 <= v for v in sym.values()] + [v < (1 << 60) for v in sym.values()] + [sym["sizeof(T)"] >= 1]))
        L.I.symbolic = sym

        def value(n):
            fs = [f for f in L.u.funcs if f.get("name") == n and not params_of(f)]
            if not fs:
                raise Unsupported("no function " + n)
            return unc(L.I.invoke(fs[0], None, []))
        for lo, hi, least in (("segment_min", "segment_max", 1), ("base_min", "base_max", 3)):
            a = value(hi)
            b = value(lo)
            self.P(a >= least, hi + " at least %d" % least, "tree")
            if hi == "segment_max":
                sym["block"] = a
            else:
                top = a
            self.P(2 * b >= a, lo + " is at least half", "tree")
            self.P(2 * b <= a + 1, "two %s less one fit" % lo, "tree")
        # every index and length fits the fields of a node
        p, x = c.fresh("p"), c.fresh("x")
        c.touch(p)
        c.assume(AND(ne(p, 0), eq(c.read("al", p), NODE), 0 <= x, x <= top))
        for n in ("length", "parent_index"):
            L.I.invoke(self.only(n, 1), LNode(p), [x])
            self.P(eq(unc(L.I.invoke(self.only(n, 0), LNode(p), [])), x), n + " fits its field", "tree")
        # a segment is given back with the count it was taken with
        L.I.hooks = BlockHooks(L)
        c.on_write = None
        this = L.make_seq()
        try:
            s = L.I.invoke(self.only("allocate_segment", 0), this, [])
        except CppThrow:
            return "throw"
        L.I.invoke(self.only("deallocate_segment", 1), this, [s])
        return "return"

    def only(self, n, k):
        fs = [f for f in self.L.u.funcs if f.get("name") == n and len(params_of(f)) == k]
        if len(fs) != 1:
            raise Unsupported("no function " + n)
        return fs[0]

    def at_call(self, *a):
        return NotImplemented
