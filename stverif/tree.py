"""Contracts of the tree level: the real internal functions of the header against a ghost view of the tree.

Ghost maps (never read by the code): own (reachable from the root), ht (height, segments 1), spar/spidx (parent and
index, also for segments), cnt (elements below), mk (offset of one arbitrary tracked element below, or -1), st
(absolute start position), need (nodes a split starting here allocates), cnt0/mk0 (cnt and mk when the running
operation began), crank (rank in a chain of spare nodes).
"""
import z3
from .core import *
from .interp import *
from .frontend import qual, params_of, ty


class Shape:
    def __init__(self, cfg):
        self.BM, self.SM = cfg["BM"], cfg["SM"]
        self.BMIN, self.SMIN = (self.BM + 1) // 2, (self.SM + 1) // 2
        self.sym = self.SM == 0         # for every capacity of a segment
        self.symnode = self.BM == 0     # for every capacity of a node: functions that do not write nodes
        self.elem = cfg["elem"]
        self.nodef = ["parent_pointer", "parent_index_", "length_"] + \
            ["sizes_%d" % j for j in range(self.BM)] + ["pointers_%d" % j for j in range(self.BM)]
        self.segf = ["elem_%d" % k for k in range(self.SM)] + ["cons_%d" % k for k in range(self.SM)]
        if self.sym:
            # tp: where in the segment the tracked element is (or -1); cons: which elements exist
            self.segf = ["tp", "cons"]
        if self.symnode:
            self.nodef += ["sizes", "pointers"]
        self.ghost = ["own", "ht", "spar", "spidx", "cnt", "mk", "st", "need", "cnt0", "mk0", "crank", "cat"]

    def init_maps(self, c):
        if self.sym:
            self.SM, self.SMIN = c.fresh("segment_max"), c.fresh("segment_min")
            c.assume(AND(self.SM >= 1, self.SM < (1 << 56), 2 * self.SMIN >= self.SM, 2 * self.SMIN <= self.SM + 1))
            c.anyoff = z3.Int("anyoff")
            c.touch_off(c.anyoff)
        if self.symnode:
            self.BM, self.BMIN = c.fresh("base_max"), c.fresh("base_min")
            c.assume(AND(self.BM >= 3, self.BM < (1 << 56), 2 * self.BMIN >= self.BM, 2 * self.BMIN <= self.BM + 1))
            c.maps["before"] = c.fresh_map("before", "node")    # elements below the children before one
        for n in self.nodef + self.segf + ["al"] + self.ghost:
            c.maps[n] = c.fresh_map(n, "node" if n in ("sizes", "pointers") else "range" if n == "cons" else "bool" if n.startswith("cons_") or n == "own" else "int")


class V:
    """formulas over one snapshot of the state"""

    def __init__(self, sh, S, root, sz, ht, m):
        self.sh, self.S, self.root, self.sz, self.HT, self.m = sh, S, root, sz, ht, m

    def rd(self, n, x):
        return self.S.rd(n, x)

    # ---- the elements of a segment, whether its capacity is a number or a symbol
    def live_upto(self, x, n, least=False):
        """exactly (or at least) the first n elements exist"""
        sh = self.sh
        if not sh.sym:
            return AND([eq(self.rd("cons_%d" % k, x), k < n) for k in range(sh.SM)])
        return AND([IMP(AND(0 <= o, o < n), self.S.rd2("cons", x, o)) if least else
                    IMP(AND(0 <= o, o < sh.SM), eq(self.S.rd2("cons", x, o), o < n)) for o in sh.offsets()])

    def none_live(self, x):
        return self.live_upto(x, 0)

    def holds(self, x, i, tok):
        """element i of segment x is tok"""
        sh = self.sh
        if not sh.sym:
            return OR([AND(eq(i, k), eq(self.rd("elem_%d" % k, x), tok)) for k in range(sh.SM)])
        if tok is self.m:
            return AND(0 <= i, eq(self.rd("tp", x), i))
        return IMP(eq(tok, self.m), eq(self.rd("tp", x), i))        # for a token that may be the tracked one

    def same_map(self, v0, n, x):
        if n == "cons":
            return AND([IMP(AND(0 <= o, o < self.sh.SM), eq(v0.S.rd2(n, x, o), self.S.rd2(n, x, o))) for o in self.sh.offsets()])
        return eq(v0.rd(n, x), self.rd(n, x))

    def kid(self, x, j):
        if self.sh.symnode:
            return self.S.rd2("pointers", x, j)
        return self.rd("pointers_%d" % j, x)

    def size(self, x, j):
        if self.sh.symnode:
            return self.S.rd2("sizes", x, j)
        return self.rd("sizes_%d" % j, x)

    def len(self, x):
        return self.rd("length_", x)

    def prefix(self, x, i):
        if self.sh.symnode:
            if isc(i) and i == 0:
                return 0
            self.sh.touch_off(i)
            return self.S.rd2("before", x, i)
        if isc(i):
            return SUM([self.size(x, j) for j in range(i)])
        return SUM([ITE(j < i, self.size(x, j), 0) for j in range(self.sh.BM)])

    def kid_at(self, x, i):
        """pointer at symbolic index"""
        if isc(i) or self.sh.symnode:
            return self.kid(x, i)
        r = self.kid(x, self.sh.BM - 1)
        for j in reversed(range(self.sh.BM - 1)):
            r = ITE(eq(i, j), self.kid(x, j), r)
        return r

    def indices(self):
        return self.sh.offsets() if self.sh.symnode else range(self.sh.BM)

    # ---- local well-formedness
    def combine(self, parts):
        """parts: list of (present, size, mark): (mark of the concatenation, at-most-one condition)"""
        r = -1
        uniq = []
        offs = 0
        items = []
        for (pres, size, mark) in parts:
            items.append((AND(pres, mark >= 0), add_(offs, mark)))
            offs = add_(offs, ITE(pres, size, 0))
        for (c, v) in reversed(items):
            r = ITE(c, v, r)
        for i in range(len(items)):
            for j in range(i + 1, len(items)):
                uniq.append(NOT(AND(items[i][0], items[j][0])))
        return r, AND(uniq)

    # sub = (P, i, count, mark): at node P the recorded child i counts as (count, mark) (its size is still the old one)
    # skip = (P, i): at node P child i is dead and not part of the node any more
    def at(self, x, j, pi):
        return AND(eq(x, pi[0]), eq(pi[1], j))

    def kids(self, x, sub=None, skip=None):
        """(present, size, mark) of the children of x"""
        out = []
        n = self.len(x)
        for j in range(self.sh.BM):
            c = self.kid(x, j)
            size, mark = self.size(x, j), self.rd("mk", c)
            if sub is not None:
                mark = ITE(self.at(x, j, sub), sub[3], mark)
            pres = j < n
            if skip is not None:
                pres = AND(pres, NOT(self.at(x, j, skip)))
            out.append((pres, size, mark))
        return out

    def f_kind(self, x):
        h = self.rd("ht", x)
        return IMP(self.rd("own", x), AND(ne(x, 0), h >= 1, h <= self.HT, ITE(eq(h, 1), eq(self.rd("al", x), SEG), eq(self.rd("al", x), NODE)),
                                          IMP(eq(h, self.HT), eq(x, self.root))))

    def isnode(self, x):
        return AND(self.rd("own", x), self.rd("ht", x) >= 2)

    def isseg(self, x):
        return AND(self.rd("own", x), eq(self.rd("ht", x), 1))

    def f_occ(self, x):
        n = self.len(x)
        sh = self.sh
        lo = ITE(eq(x, self.root), 2, sh.BMIN)
        c = self.rd("cnt", x)
        slo = ITE(eq(x, self.root), 1, sh.SMIN)
        return AND(IMP(self.isnode(x), AND(n >= lo, n <= sh.BM)), IMP(self.isseg(x), AND(c >= slo, c <= sh.SM)))

    def f_links(self, x, skip=None):
        n = self.len(x)
        h = self.rd("ht", x)
        out = []
        for j in self.indices():
            c = self.kid(x, j)
            g = AND(0 <= j, j < n)
            if skip is not None:
                g = AND(g, NOT(self.at(x, j, skip)))
            out.append(IMP(g, AND(self.rd("own", c), ne(c, 0), eq(self.rd("ht", c), h - 1), eq(self.rd("spar", c), x), eq(self.rd("spidx", c), j),
                                  IMP(h > 2, AND(eq(self.rd("parent_pointer", c), x), eq(self.rd("parent_index_", c), j))))))
        return IMP(self.isnode(x), AND(out))

    def f_sizes(self, x, sub=None, skip=None):
        n = self.len(x)
        out = []
        for j in self.indices():
            c = self.kid(x, j)
            cc = self.rd("cnt", c)
            if sub is not None:
                cc = ITE(self.at(x, j, sub), sub[2], cc)
            g = AND(0 <= j, j < n)
            if skip is not None:
                g = AND(g, NOT(self.at(x, j, skip)))
            out.append(IMP(g, AND(eq(self.size(x, j), cc), self.size(x, j) >= 1)))
            out.append(IMP(AND(g, eq(self.rd("ht", x), 2)), AND(self.size(x, j) <= self.sh.SM, self.size(x, j) >= self.sh.SMIN)))
        if self.sh.symnode:
            # by definition, and by lemma_prefix
            at = lambda j: self.S.rd2("before", x, j)
            for j in self.indices():
                out.append(IMP(AND(0 <= j, j < n), AND(eq(at(j + 1), at(j) + self.size(x, j)), at(j) >= 0, at(j + 1) <= at(n))))
            out += [eq(at(0), 0), eq(at(n), self.rd("cnt", x))]
            return IMP(self.isnode(x), AND(out))
        tot = SUM([ITE(p, sz, 0) for (p, sz, _) in self.kids(x, None, skip)])
        if skip is not None:
            tot = tot + ITE(eq(x, skip[0]), 1, 0)
        out.append(eq(self.rd("cnt", x), tot))
        return IMP(self.isnode(x), AND(out))

    def f_mark(self, x, sub=None, skip=None, op=None):
        mk, cnt = self.rd("mk", x), self.rd("cnt", x)
        kids = self.kids(x, sub, skip)
        node, uniq = self.combine(kids)
        uniq = AND(uniq, [IMP(p, AND(m >= -1, m < z)) for (p, z, m) in kids])
        seg, suniq = self.segmark(x, cnt)
        rng = AND(mk >= -1, mk < cnt)
        want = mk
        if skip is not None:
            want = ITE(eq(x, skip[0]), op.F(mk, op.A - self.rd("st", x)), mk)
        return AND(IMP(self.isnode(x), AND(rng, eq(want, node), uniq)), IMP(self.isseg(x), AND(rng, eq(mk, seg), suniq)))

    def segmark(self, x, cnt):
        if self.sh.sym:
            tp = self.rd("tp", x)
            return ITE(AND(0 <= tp, tp < cnt), tp, -1), True
        return self.combine([(k < cnt, 1, ITE(eq(self.rd("elem_%d" % k, x), self.m), 0, -1)) for k in range(self.sh.SM)])

    def f_live(self, x):
        if self.sh.elem == "Triv" and not self.sh.sym:
            return True
        return IMP(self.isseg(x), self.live_upto(x, self.rd("cnt", x), self.sh.elem == "Triv"))

    def f_up(self, x):
        p, i = self.rd("spar", x), self.rd("spidx", x)
        node = self.rd("ht", x) >= 2
        return IMP(self.rd("own", x), AND(
            IMP(eq(x, self.root), AND(eq(p, 0), eq(self.rd("ht", x), self.HT), IMP(node, eq(self.rd("parent_pointer", x), 0)))),
            IMP(ne(x, self.root), AND(ne(p, 0), self.rd("own", p), eq(self.rd("ht", p), self.rd("ht", x) + 1), 0 <= i, i < self.len(p),
                                      eq(self.kid_at(p, i), x),
                                      IMP(node, AND(eq(self.rd("parent_pointer", x), p), eq(self.rd("parent_index_", x), i)))))))

    def f_st(self, x, hmin=1, cnt="cnt"):
        p = self.rd("spar", x)
        return IMP(AND(self.rd("own", x), self.rd("ht", x) >= hmin), AND(self.rd("st", x) >= 0, self.rd("st", x) + self.rd(cnt, x) <= self.sz,
            ITE(eq(x, self.root), eq(self.rd("st", x), 0), eq(self.rd("st", x), self.rd("st", p) + self.prefix(p, self.rd("spidx", x))))))

    def f_rootmark(self, x, hmin=1):
        """lemma: the mark of a subtree is the mark of the whole tree relative to its start"""
        a = self.rd("mk0", self.root)
        st, n = self.rd("st", x), self.rd("cnt0", x)
        return IMP(AND(self.rd("own", x), self.rd("ht", x) >= hmin), eq(self.rd("mk0", x), ITE(AND(st <= a, a < st + n), a - st, -1)))

    def f_op(self, x, h):
        """above height h nothing has been recomputed since the operation began"""
        return IMP(AND(self.rd("own", x), self.rd("ht", x) > h), AND(eq(self.rd("cnt", x), self.rd("cnt0", x)), eq(self.rd("mk", x), self.rd("mk0", x))))

    def f_chain(self, x, K):
        k = self.rd("crank", x)
        cat = lambda i: self.rd("cat", i)
        return AND(k >= 0, k <= K, IMP(k > 0, AND(ne(x, 0), eq(self.rd("al", x), NODE), NOT(self.rd("own", x)), eq(x, cat(k)),
                   eq(self.rd("parent_pointer", x), ITE(eq(k, 1), 0, cat(k - 1))), IMP(k >= 2, eq(self.rd("crank", cat(k - 1)), k - 1)))))

    def chain_head(self, a, K):
        return AND(K >= 0, IMP(eq(K, 0), eq(a, 0)), IMP(K >= 1, AND(ne(a, 0), eq(a, self.rd("cat", K)), eq(self.rd("crank", a), K))))

    def f_need(self, x, hmin=1):
        p = self.rd("spar", x)
        up = ITE(eq(x, self.root), 1, self.rd("need", p))
        return IMP(AND(self.rd("own", x), self.rd("ht", x) >= hmin, self.rd("ht", x) >= 2), AND(self.rd("need", x) >= 0,
            eq(self.rd("need", x), ITE(self.len(x) < self.sh.BM, 0, 1 + up)), up >= 0))

    def root_facts(self, cnt="cnt"):
        r = self.root
        return AND(self.sz >= 0, self.HT >= 0, 
                   IMP(eq(self.HT, 0), AND(eq(r, 0), eq(self.sz, 0))),
                   IMP(self.HT >= 1, AND(ne(r, 0), self.rd("own", r), eq(self.rd("ht", r), self.HT), eq(self.rd(cnt, r), self.sz),
                                         eq(self.rd("spar", r), 0), self.sz >= 1)))

    PARTS = ("kind", "occ", "links", "sizes", "mark", "live", "up")
    CATS = {"kind": "safe", "occ": "struct", "links": "tree", "sizes": "tree", "mark": "content", "live": "safe", "up": "tree",
            "st": "tree", "need": "tree"}

    def wf_facts(self, parts=PARTS, st=None, need=None, op=None, sub=None, skip=None, child=None, hop=None, stcnt="cnt", rootmark=False, chain=None):
        """facts of well-formedness, or of the intermediate states of an operation"""
        fns = {p: getattr(self, "f_" + p) for p in parts}
        if sub is not None:
            fns["sizes"] = lambda x: self.f_sizes(x, sub)
            fns["mark"] = lambda x: self.f_mark(x, sub)
        if skip is not None:
            fns["links"] = lambda x: self.f_links(x, skip)
            fns["sizes"] = lambda x: self.f_sizes(x, None, skip)
            fns["mark"] = lambda x: self.f_mark(x, None, skip, op)
        notchild = (lambda x: True) if child is None else (lambda x: ne(x, child))
        if child is not None:
            fns["kind"] = lambda x: ITE(eq(x, child), AND(self.rd("own", x), ne(x, 0), self.rd("ht", x) >= 1,
                                        eq(self.rd("al", x), ITE(eq(self.rd("ht", x), 1), SEG, NODE))), self.f_kind(x))
            fns["up"] = lambda x: IMP(notchild(x), self.f_up(x))
        out = [Fact("wf." + p, self.CATS[p], fns[p]) for p in parts]
        if hop is not None:
            out.append(Fact("unchanged above", "tree", lambda x: self.f_op(x, hop)))
        if st is not None:
            out.append(Fact("wf.st", "tree", lambda x: IMP(notchild(x), self.f_st(x, st, stcnt))))
        if need is not None:
            out.append(Fact("wf.need", "tree", lambda x: self.f_need(x, need)))
        if op is not None and op.ins:
            out.append(Fact("new element is new", "content", lambda x: IMP(AND(self.rd("own", x), notchild(x), op.isnew, True if hop is None else self.rd("ht", x) > hop), eq(self.rd("mk0", x), -1))))
        if rootmark:
            out.append(Fact("lemma.rootmark", "tree", lambda x: IMP(notchild(x), self.f_rootmark(x))))
        if chain is not None:
            out.append(Fact("spare nodes", "leak", lambda x: self.f_chain(x, chain)))
        return out

    # ---- positions
    def entry_at(self, e, q, end_ok=True):
        """e designates absolute position q, canonically"""
        s, idx, ln = e.f["segment"].f["pointer"], e.f["segment"].f["index"], e.f["segment"].f["length"]
        lp, li = e.f["leaf"].f["pointer"], e.f["leaf"].f["index"]
        r = s.ref
        body = AND(self.rd("own", r), eq(self.rd("ht", r), 1), eq(s.off, 0), eq(ln, self.rd("cnt", r)), eq(self.rd("st", r) + idx, q), 0 <= idx,
                   OR(lt(idx, ln), AND(eq(q, self.sz), eq(idx, ln))) if end_ok else lt(idx, ln),
                   eq(lp.ref, self.rd("spar", r)), eq(lp.off, 0), eq(li, ITE(eq(self.rd("spar", r), 0), 0, self.rd("spidx", r))))
        return OR(AND(self.HT >= 1, body), AND(self.no_entry(e), eq(q, 0))) if end_ok else body

    def no_entry(self, e):
        s, idx, ln = e.f["segment"].f["pointer"], e.f["segment"].f["index"], e.f["segment"].f["length"]
        lp, li = e.f["leaf"].f["pointer"], e.f["leaf"].f["index"]
        return AND(eq(self.HT, 0), eq(s.ref, 0), eq(s.off, 0), eq(idx, 0), eq(ln, 0), eq(lp.ref, 0), eq(lp.off, 0), eq(li, 0))

    def seg_entry(self, e, idxrange=True):
        """e designates an owned segment with its links right (index anywhere in 0..length)"""
        s, idx, ln = e.f["segment"].f["pointer"], e.f["segment"].f["index"], e.f["segment"].f["length"]
        lp, li = e.f["leaf"].f["pointer"], e.f["leaf"].f["index"]
        r = s.ref
        return AND(self.rd("own", r), eq(self.rd("ht", r), 1), eq(s.off, 0), eq(ln, self.rd("cnt", r)), 0 <= idx, idx <= ln,
                   eq(lp.ref, self.rd("spar", r)), eq(lp.off, 0), eq(li, ITE(eq(self.rd("spar", r), 0), 0, self.rd("spidx", r))))


def add_(a, b):
    if isc(a) and isc(b):
        return a + b
    if isc(a) and a == 0:
        return b
    return a + b


class Op:
    """one insertion or deletion at absolute position A: how the position of the tracked element changes"""

    def __init__(self, ins, isnew, A):
        self.ins, self.isnew, self.A = ins, isnew, A
        self.delta = 1 if ins else -1

    def F(self, vm, q):
        if self.ins:
            return ITE(self.isnew, q, ITE(vm < 0, -1, ITE(vm >= q, vm + 1, vm)))
        return ITE(vm < 0, -1, ITE(eq(vm, q), -1, ITE(vm > q, vm - 1, vm)))


def new_entry(c, tag, empty=False):
    return Rec("entry", {
        "segment": Rec("seg", {"pointer": Ptr(c.fresh(tag + ".seg")), "index": c.fresh(tag + ".idx"), "length": c.fresh(tag + ".len")}),
        "leaf": Rec("leaf", {"pointer": Ptr(c.fresh(tag + ".leaf")), "index": c.fresh(tag + ".lidx")})})


def new_iter(c, tag):
    return Rec("it", {"entry": new_entry(c, tag), "pos": c.fresh(tag + ".pos")})


class TreeHooks:
    """level hooks: one seq object"""

    def __init__(self, L):
        self.L = L

    def allocated(self, I, r, kind):
        L = self.L
        I.c.write("own", r, False)
        if kind == NODE and L.chaining:
            L.K = add(L.K, 1)
            I.c.write("crank", r, L.K)
            I.c.maps["cat"] = I.c.maps["cat"].write(L.K, r)
        else:
            I.c.write("crank", r, 0)

    def freed(self, I, r, kind):
        I.c.write("own", r, False)
        I.c.write("crank", r, 0)

    def check_allocator(self, I, lv, kind):
        tok = I.load(lv)
        I.c.prove(eq(tok, self.L.aletok if kind == SEG else self.L.nodtok), "allocator:own", "alloc")

    def tracked(self):
        return self.L.m

    def needs_destroy(self, I, t):
        return False

    def destroy_local(self, I, cell):
        pass

    def construct(self, I, t, ctor, args, n):
        return None

    def new_value(self, I, vals):
        return I.c.fresh("val")

    def intrinsic(self, I, *a):
        return NotImplemented

    def assign(self, I, dst, src, t, n):
        return NotImplemented

    def ctor_inits(self, I, fn, this):
        raise Unsupported("constructor at tree level")

    def same_object(self, I, a, b):
        raise Unsupported("address comparison")


class Level:
    """one verification run of one function at tree level"""

    def __init__(self, unit, ctx, cfg, skip=()):
        self.u, self.c, self.cfg = unit, ctx, cfg
        self.sh = Shape(cfg)
        self.I = Interp(unit, ctx, cfg)
        self.I.hooks = TreeHooks(self)
        self.sh.offsets, self.sh.touch_off = (lambda: self.c.offsets()), (lambda o: self.c.touch_off(o))
        self.sh.init_maps(ctx)
        if self.sh.sym:
            self.I.SM = self.sh.SM
        if self.sh.symnode:
            self.I.BM = self.sh.BM
        self.aletok, self.nodtok = 1, 2
        self.structmaps = set(self.sh.nodef)
        self.shapemaps = self.structmaps - {"parent_pointer", "parent_index_"}
        self.dirty = {}
        self.K = 0
        self.op = None
        self.chaining = False
        ctx.on_write = self.on_write
        self.m = z3.Int("m")
        ctx.assume(self.m >= 0)
        from . import contracts as K
        for name, cls in K.TREE.items():
            if name not in skip:
                self.I.contracts[name] = self.handler(cls)
        if self.sh.sym:
            # proved for all template parameters by the contract "capacities"
            self.I.contracts["segment_max"] = lambda I, fn, this, vals: NotImplemented if params_of(fn) else self.sh.SM
        if self.sh.symnode:
            self.I.contracts["base_max"] = lambda I, fn, this, vals: NotImplemented if params_of(fn) else self.sh.BM

    # the seq object
    def make_seq(self):
        c = self.c
        self.root0, self.sz0, self.ht0 = c.fresh("root"), c.fresh("sz"), c.fresh("HT")
        c.assume(AND(self.sz0 < (1 << 60), self.ht0 < (1 << 60)))
        rec = Rec("seq", {"root_": Ptr(self.root0),
                          "size_pair_": Rec("size_pair", {"base": self.aletok, "sz": self.sz0}),
                          "height_pair_": Rec("height_pair", {"base": self.nodtok, "ht": self.ht0})})
        self.cell = Cell(rec, "this", "seq")
        return LVar(self.cell)

    def scal(self):
        r = self.cell.v
        return r.f["root_"].ref, r.f["size_pair_"].f["sz"], r.f["height_pair_"].f["ht"]

    def set_scal(self, root, sz, ht):
        r = self.cell.v
        r.f["root_"] = Ptr(root)
        r.f["size_pair_"].f["sz"] = sz
        r.f["height_pair_"].f["ht"] = ht

    def view(self, scal=None):
        root, sz, ht = scal or self.scal()
        return V(self.sh, self.c.snap(), root, sz, ht, self.m)

    def handler(self, cls):
        def h(I, fn, this, vals):
            k = cls(self)
            return k.at_call(fn, this, vals)
        return h

    # ---- quantified obligations
    def prove_all(self, facts, label, refs):
        """each fact at every reference of refs and at one arbitrary other reference"""
        c = self.c
        for f in facts:
            for r in refs.values():
                c.touch(r)
        if c.replaying:
            pass
        x = c.fresh("x")
        c.touch(x)
        c.touch(c.maps["spar"].baseval(x))
        for i, (k, r) in enumerate(refs.items()):
            c.prove_group([(f.fn(r), "%s:%s" % (label, f.name), f.cat) for f in facts], r)
        dist = AND([ne(x, r) for r in refs.values()])
        c.prove_group([(IMP(dist, f.fn(x)), "%s:%s" % (label, f.name), f.cat) for f in facts])

    def written(self, since=None):
        out = {}
        for name, m in self.c.maps.items():
            if name == "cat":
                continue
            for (w, _) in m.writes:
                k = key(w)
                if k not in out and not (isc(w) and w == 0):
                    out[k] = w
        return out

    # ---- ghost updates: recompute the ghosts of what the code wrote
    def on_write(self, name, r):
        if name in self.structmaps or name.startswith("elem_") or name == "tp":
            k = key(r)
            self.dirty.setdefault(k, (r, set()))[1].add(name)

    def dirty_refs(self, exclude):
        """the live blocks written since the last sync, aliases merged: (nodes, segs)"""
        c = self.c
        items, self.dirty = list(self.dirty.values()), {}
        nodes, segs = [], []
        for r, names in items:
            if c.entails(eq(c.read("al", r), 0)):
                continue
            if any(self.same(r, e) for e in exclude):
                continue
            out = segs if c.entails(eq(c.read("al", r), SEG)) else nodes
            if out is nodes and not (names & self.shapemaps):
                continue
            if not any(self.same(r, o) for o in out):
                out.append(r)
        return nodes, segs

    def same(self, a, b):
        c = self.c
        r = c.alias(a, b)
        if r is None:
            r = c.branch(eq(a, b), "alias")
        return r

    def put(self, name, r, v):
        """ghost write unless it changes nothing"""
        c = self.c
        cur = c.read(name, r)
        if key(unc(cur)) == key(unc(v)) or c.entails(eq(cur, v)):
            return
        c.write(name, r, v)

    def seg_mark(self, s):
        c = self.c
        n = c.read("cnt", s)
        if self.sh.sym:
            tp = c.read("tp", s)
            mk = ITE(AND(0 <= tp, tp < n), tp, -1)
        else:
            mk, _ = self.view().combine([(k < n, 1, ITE(eq(c.read("elem_%d" % k, s), self.m), 0, -1)) for k in range(self.sh.SM)])
        c.write("mk", s, mk if isc(mk) else z3.simplify(mk))

    def sync(self, exclude=(), skip=None, counts=()):
        """recompute the ghosts of everything written since the last sync, children before parents.
        counts: (segment or node, new count) given by the contract; skip: (node, dead index), whose children only are synced"""
        c, sh = self.c, self.sh
        for (x, n) in counts:
            if c.entails(eq(c.read("ht", x), 1)):
                c.write("cnt", x, n)
                self.dirty.setdefault(key(x), (x, set()))[1].add("elem_0")
        nodes, segs = self.dirty_refs(list(exclude) + ([skip[0]] if skip else []))
        hs = []
        for q in nodes:
            h = c.read("ht", q)
            if not c.entails(c.read("own", q)):
                k0 = unc(c.read("pointers_0", q))
                if isc(k0):
                    raise Unsupported("null child")
                h = add(c.read("ht", k0), 1)
            hs.append((q, h))
        order = []
        for q, h in hs:
            i = 0
            while i < len(order) and not c.entails(h < order[i][1]):
                i += 1
            order.insert(i, (q, h))
        # element counts of segments come from the node that records them
        par = list(order) + ([(skip[0], c.read("ht", skip[0]))] if skip else [])
        leafkids = []
        for q, h in par:
            if not c.entails(eq(h, 2)):
                if not c.entails(h >= 3):
                    raise Unsupported("height of a written node unknown")
                continue
            n = c.concretize(c.read("length_", q), 0, sh.BM, "length at sync")
            for j in range(n):
                if skip and self.same(q, skip[0]) and c.branch(eq(skip[1], j), "dead child"):
                    continue
                ch = unc(c.read("pointers_%d" % j, q))
                if isc(ch):
                    raise Unsupported("null child")
                c.touch(ch)
                self.put("cnt", ch, c.read("sizes_%d" % j, q))
        for s in segs:
            if not c.entails(c.read("own", s)):
                root, sz, ht = self.scal()
                if c.alias(root, s) is True:
                    c.write("own", s, True)
                    c.write("ht", s, 1)
                    c.write("cnt", s, sz)
                else:
                    continue
            self.seg_mark(s)
        for q, h in order:
            self.fix(q, h)

    def sync_exit(self):
        self.sync()
        c = self.c
        root = unc(self.scal()[0])
        if not isc(root):
            c.touch(root)
            if c.entails(ne(root, 0)):
                self.put("spar", root, 0)

    def new_scal(self, dsz):
        """scalars after a callee changed the tree: size known, root and height fresh"""
        c = self.c
        root, sz, ht = c.fresh("root"), add(self.scal()[1], dsz), c.fresh("HT")
        c.assume(AND(ht >= 0, ht < (1 << 60)))
        self.set_scal(root, sz, ht)

    def fix(self, q, h):
        """recompute the ghosts of node q from its current fields; its children must be done"""
        c, sh = self.c, self.sh
        n = c.concretize(c.read("length_", q), 0, sh.BM, "length at fix")
        tot = 0
        parts = []
        for j in range(n):
            ch = unc(c.read("pointers_%d" % j, q))
            if isc(ch):
                raise Unsupported("null child")
            c.touch(ch)
            self.put("spar", ch, q)
            self.put("spidx", ch, j)
            size = c.read("sizes_%d" % j, q)
            parts.append((True, size, c.read("mk", ch)))
            tot = add_(tot, size)
        mk, _ = self.view().combine(parts)
        if not c.entails(c.read("own", q)):
            c.write("own", q, True)
            c.write("ht", q, h)
            c.write("spar", q, 0)
            c.write("spidx", q, 0)
        if c.entails(c.read("crank", q) > 0):
            if not c.entails(eq(c.read("crank", q), self.K)):
                raise Unsupported("spare nodes used out of order")
            c.write("crank", q, 0)
            self.K = sub(self.K, 1)
        c.write("cnt", q, z3.simplify(tot) if not isc(tot) else tot)
        c.write("mk", q, mk if isc(mk) else z3.simplify(mk))

    def scal_snapshot(self):
        return self.scal() if hasattr(self, "cell") else None

    def same_scal(self, old, loop):
        if old is None:
            return True
        new = self.scal()
        return AND([eq(a, b) for a, b in zip(old, new)])

    def written_since(self, maps):
        out = {}
        for name, m in self.c.maps.items():
            if name == "cat":
                continue
            old = maps[name]
            ws = m.writes[len(old.writes):] if m.base is old.base else m.writes
            # a write replaced in place
            if m.base is old.base and old.writes and len(m.writes) >= len(old.writes) and m.writes[:len(old.writes)] != old.writes:
                ws = m.writes
            for (w, _) in ws:
                k = key(w)
                if k not in out and not (isc(w) and w == 0):
                    out[k] = w
        return out
