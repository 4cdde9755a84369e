"""Contracts of the functions that change the tree."""
import z3
from .core import *
from .interp import *
from .tree import *
from .loops import LoopContract
from .contracts import contract, Contract, TREE


class Mut(Contract):
    static = False
    havocs = ()

    # ---- pieces shared by verification and call sites
    def maps_for(self, groups):
        sh = self.sh
        out = []
        for g in groups:
            if g == "sizes":
                out += ["sizes_%d" % j for j in range(sh.BM)]
            elif g == "nodes":
                out += sh.nodef
            else:
                out.append(g)
        return out

    def unchanged(self, v0, v1, x, skip=()):
        names = [n for n in self.sh.nodef + ["own", "ht", "spar", "spidx", "cnt", "mk"] if n not in skip]
        return AND([eq(v0.rd(n, x), v1.rd(n, x)) for n in names if v0.S.m[n] is not v1.S.m[n]])

    LINKS = ("parent_pointer", "parent_index_", "spar", "spidx")

    def frame_pend(self, v0, v1, h):
        names = ["sizes_%d" % j for j in range(self.sh.BM)] + ["cnt", "mk"]
        return [Fact("frame", "tree", lambda x: IMP(OR(NOT(v0.rd("own", x)), v0.rd("ht", x) <= h),
                                                     AND([eq(v0.rd(n, x), v1.rd(n, x)) for n in names if v0.S.m[n] is not v1.S.m[n]])))]

    def frame_split(self, v0, v1, h):
        """h: height of the split child"""
        return [
            Fact("frame.foreign", "tree", lambda x: IMP(AND(NOT(v0.rd("own", x)), eq(v0.rd("crank", x), 0)),
                                                         AND(self.unchanged(v0, v1, x), NOT(v1.rd("own", x)), eq(v1.rd("crank", x), 0)))),
            Fact("frame.below", "tree", lambda x: IMP(v0.rd("own", x), AND(
                v1.rd("own", x), eq(v0.rd("ht", x), v1.rd("ht", x)),
                IMP(v0.rd("ht", x) < h, self.unchanged(v0, v1, x)),
                IMP(eq(v0.rd("ht", x), h), self.unchanged(v0, v1, x, self.LINKS))))),
            Fact("no leak", "leak", lambda x: IMP(v0.rd("crank", x) > 0, OR(v1.rd("own", x), v1.rd("crank", x) > 0)))]

    def frame_merge(self, v0, v1, h):
        """h: height of the node that lost a child"""
        return [
            Fact("frame.foreign", "tree", lambda x: IMP(NOT(v0.rd("own", x)), AND(self.unchanged(v0, v1, x), NOT(v1.rd("own", x)), eq(v0.rd("al", x), v1.rd("al", x))))),
            Fact("frame.below", "tree", lambda x: IMP(v0.rd("own", x), AND(
                IMP(v1.rd("own", x), AND(eq(v0.rd("ht", x), v1.rd("ht", x)), eq(v0.rd("al", x), v1.rd("al", x)))),
                IMP(v0.rd("ht", x) < h - 1, self.unchanged(v0, v1, x)),
                IMP(eq(v0.rd("ht", x), h - 1), self.unchanged(v0, v1, x, self.LINKS))))),
            Fact("no leak", "leak", lambda x: IMP(AND(v0.rd("own", x), NOT(v1.rd("own", x))), eq(v1.rd("al", x), 0)))]

    # ---- set up the operation under way (functions below the top of an operation)
    def free_op(self, ins=None):
        c, L = self.c, self.L
        if ins is None:
            ins = c.free_choice("kind of operation", (True, False))
        L.op = Op(ins, z3.Bool("isnew") if ins else False, z3.Int("A"))
        return L.op

    def make_this(self):
        return self.L.make_seq()

    def begin(self):
        """start of the verified function: remember the state"""
        self.v0 = self.L.view()
        self.maps0 = dict(self.c.maps)

    def assume_facts(self, facts):
        for f in facts:
            self.c.add_fact(f)

    def exit_refs(self):
        r = self.L.written_since(self.maps0)
        if getattr(self, "dbg", 0):
            print("refs", len(r))
        return r

    def exit(self, facts, scalar=()):
        c, L = self.c, self.L
        refs = self.exit_refs()
        root = unc(L.scal()[0])
        if not isc(root):
            c.touch(root)
        for (f, what, cat) in scalar:
            self.P(f, what, cat)
        L.prove_all(facts, self.name, refs)

    def root_post(self, v, delta):
        op = self.L.op
        mk0root = self.v0.rd("mk0", self.v0.root)
        return [(v.root_facts(), "root", "tree"), (eq(v.sz, self.v0.sz + delta), "size", "content"),
                (self.content(v, mk0root), "content", "content")]

    def content(self, v, mk0root):
        op = self.L.op
        return ITE(eq(v.HT, 0), op.F(mk0root, op.A) < 0 if not op.ins else False, eq(v.rd("mk", v.root), op.F(mk0root, op.A)))


# ------------------------------------------------------------------ sizes along the path to the root
class PendMixin:
    def pend_scalar(self, v, P, i, c0, delta, op, sized=False):
        """[(formula, what, cat)]; sized: the element count of the container is updated already"""
        rd = v.rd
        if sized:
            v.sz = v.sz - delta
        out = [(v.root_facts("cnt0"), "root", "pre"), (v.HT >= 1, "not empty", "pre"),
               (AND(ne(c0, 0), rd("own", c0)), "child owned", "pre"),
               (eq(delta, op.delta), "count changes by one", "content"),
               (eq(rd("cnt", c0), rd("cnt0", c0) + op.delta), "count of the child", "content"),
               (eq(rd("mk", c0), op.F(rd("mk0", c0), op.A - rd("st", c0))), "content of the child", "content"),
               (AND(rd("st", c0) <= op.A, op.A < rd("st", c0) + rd("cnt0", c0) + (1 if op.ins else 0)), "position", "content"),
               (ITE(eq(P, 0), eq(c0, v.root), AND(rd("own", P), eq(rd("ht", P), rd("ht", c0) + 1), 0 <= i, i < v.len(P), eq(v.kid_at(P, i), c0))), "parent", "pre")]
        return out

    def pend_facts(self, v, P, i, c0, op):
        rd = v.rd
        h = rd("ht", c0)
        return v.wf_facts(op=op, sub=(P, i, rd("cnt0", c0), rd("mk0", c0)), hop=h, st=h, stcnt="cnt0")


class UpdateLoop(LoopContract, PendMixin):
    name = "update-sizes"
    variants = (False, True)
    roles = {"ptr": ("node", ["pointer"]), "index": ("int", ["index"])}

    @property
    def havoc_maps(self):
        return self.contract.maps_for(("sizes", "cnt", "mk"))

    def at_entry(self, r):
        self.cur = self.contract.child0

    def at_head(self, r):
        self.cur = self.c.fresh("cur")
        self.c.touch(self.cur)

    def at_back(self, r, head):
        c, L, op = self.c, self.L, self.L.op
        q = head["ptr"]
        v = L.view()
        cnt = add(c.read("cnt", q), op.delta)
        mk = op.F(v.rd("mk0", q), op.A - v.rd("st", q))
        c.write("cnt", q, cnt)
        c.write("mk", q, mk)
        self.cur = q
        c.touch(r["ptr"])

    def measure(self, r):
        return self.L.view().HT - self.c.read("ht", self.cur)

    def inv(self, r):
        c, L = self.c, self.L
        c.touch(r["ptr"])
        v = L.view()
        return [(f, nm, "content" if cat == "content" else "nav") for f, nm, cat in
                self.pend_scalar(v, r["ptr"], r["index"], self.cur, self.contract.delta, L.op, self.variant)]

    def facts(self, r):
        v = self.L.view()
        k = self.contract
        if self.variant:
            v.sz = v.sz - k.delta
        return self.pend_facts(v, r["ptr"], r["index"], self.cur, self.L.op) + k.frame_pend(k.v0, v, k.v0.rd("ht", k.child0))


@contract
class UpdateSizes(Mut, PendMixin):
    names = ("update_sizes",)
    loops = (UpdateLoop,)

    def setup(self):
        c, L = self.c, self.L
        op = self.free_op()
        P, i, self.child0 = c.fresh("pointer"), c.fresh("index"), c.fresh("child")
        self.delta = op.delta
        v = L.view()
        for r in (self.child0, P, v.root):
            c.touch(r)
        self.assume_facts(self.pend_facts(v, P, i, self.child0, op))
        for f, _, _ in self.pend_scalar(v, P, i, self.child0, op.delta, op):
            c.assume(f)
        c.assume(AND(i >= 0, i < (1 << 63)))
        self.begin()
        return [Ptr(P), i, op.delta % (1 << 64)]

    def post(self, r):
        L = self.L
        L.sync_exit()
        v = L.view()
        self.exit(v.wf_facts() + self.frame_pend(self.v0, v, self.v0.rd("ht", self.child0)), self.root_post(v, L.op.delta))

    def at_call(self, fn, this, vals):
        c, L = self.c, self.L
        op = L.op
        if op is None or len(vals) != 3 or not isinstance(vals[0], Ptr):
            return NotImplemented
        P, i = unc(vals[0].ref), unc(vals[1])
        d = L.I.signed64(vals[2])
        v = L.view()
        c.touch(P)
        # the child at (P, i)
        null = P == 0 if isc(P) else c.branch(eq(P, 0), "no parent")
        if null:
            child = v.root
            P = 0
        else:
            i = c.concretize(i, 0, self.sh.BM - 1, "index of the child")
            child = unc(c.read("pointers_%d" % i, P))
        c.touch(child)
        for (w, _) in list(L.dirty.values()):
            if c.alias(w, child) is True:
                child = w
                break
        cnts = [(child, add(c.read("cnt0", child), op.delta))] if c.entails(eq(c.read("ht", child), 1)) else []
        L.sync(exclude=[P] if not null else [], counts=cnts)
        v = L.view()
        for f, nm, cat in self.pend_scalar(v, P, i, child, d, op):
            self.pre_at_call(f, nm, cat)
        L.prove_all(self.pend_facts(v, P, i, child, op), "pre(update_sizes)", L.written())
        for n in self.maps_for(("sizes", "cnt", "mk")):
            c.havoc(n)
        root, sz, ht = L.scal()
        L.set_scal(root, add(sz, op.delta), ht)
        v1 = L.view()
        c.touch(root)
        h = v.rd("ht", child)
        self.assume_facts(v1.wf_facts() + self.frame_pend(v, v1, h))
        c.assume(v1.root_facts())
        c.assume(self.content(v1, v.rd("mk0", v.root)))
        L.pend_done = True
        return None


# ------------------------------------------------------------------ spare nodes for a split
class BuildLoop(LoopContract):
    name = "take spare nodes"
    roles = {"ptr": ("node", ["pointer"]), "alloc": ("node", ["alloc"])}

    @property
    def havoc_maps(self):
        return self.contract.maps_for(("nodes", "al", "crank", "cat"))

    def at_entry(self, r):
        pass

    def at_head(self, r):
        self.L.K = self.c.fresh("K")

    def measure(self, r):
        return sub(self.contract.need0, self.L.K)

    def inv(self, r):
        c, L, k = self.c, self.L, self.contract
        p = r["ptr"]
        for x in r.values():
            c.touch(x)
        v = L.view()
        return [(v.chain_head(r["alloc"], L.K), "chain", "leak"),
                (IMP(ne(p, 0), AND(v.rd("own", p), v.rd("ht", p) >= 2)), "node or null", "nav"),
                (eq(k.need0, L.K + ITE(eq(p, 0), 1, v.rd("need", p))), "nodes still needed", "alloc-count")]

    def facts(self, r):
        v = self.L.view()
        return self.contract.built_facts(v)


class UndoLoop(LoopContract):
    name = "give spare nodes back"
    roles = {"alloc": ("node", ["alloc"])}

    @property
    def havoc_maps(self):
        return self.contract.maps_for(("al", "crank", "own"))

    def at_head(self, r):
        self.L.K = self.c.fresh("K")

    def at_back(self, r, head):
        self.L.K = sub(self.L.K, 1)

    def measure(self, r):
        return self.L.K

    def inv(self, r):
        c, L = self.c, self.L
        c.touch(r["alloc"])
        v = L.view()
        return [(v.chain_head(r["alloc"], L.K), "chain", "leak")]

    def facts(self, r):
        return self.contract.built_facts(self.L.view(), self.segal)

    def at_entry(self, r):
        # whether the segment was given back before or is given back after this loop
        c = self.c
        self.segal = 0 if c.entails(eq(c.read("al", self.contract.seg), 0)) else SEG


@contract
class AllocNodesSingle(Mut):
    names = ("alloc_nodes_single",)
    loops = (BuildLoop, UndoLoop)

    def pre(self, v, p, s):
        return [(IMP(ne(p, 0), AND(v.rd("own", p), eq(v.rd("ht", p), 2))), "node or null", "pre"),
                (AND(ne(s, 0), eq(v.rd("al", s), SEG), NOT(v.rd("own", s)),
                     v.none_live(s) if self.sh.elem != "Triv" else True), "spare segment", "pre"),
                (v.root_facts(), "root", "pre")]

    def needed(self, v, p):
        return ITE(eq(p, 0), 1, v.rd("need", p))

    def built_facts(self, v, segal=SEG):
        """spare nodes are the only new blocks; owned blocks and their fields are as before"""
        v0, L = self.v0, self.L
        own_same = lambda x: eq(v.rd("own", x), v0.rd("own", x))

        def blocks(x):
            return AND(own_same(x), ITE(v.rd("crank", x) > 0, AND(eq(v0.rd("al", x), 0), ne(x, self.seg)),
                                        eq(v.rd("al", x), ITE(eq(x, self.seg), segal, v0.rd("al", x)))),
                       IMP(v0.rd("al", x) != 0, self.unchanged(v0, v, x)))
        K = L.K
        return [Fact("spare nodes", "leak", lambda x: v.f_chain(x, K)), Fact("blocks", "leak", blocks)]

    def setup(self):
        c, L = self.c, self.L
        p, self.seg = c.fresh("pointer"), c.fresh("segment")
        v = L.view()
        for r in (p, self.seg, v.root):
            c.touch(r)
        self.assume_facts(v.wf_facts(parts=("kind", "occ", "links", "sizes", "up"), need=2, chain=0))
        for f, _, _ in self.pre(v, p, self.seg):
            c.assume(f)
        self.need0 = self.needed(v, p)
        c.assume(AND(self.need0 >= 0, self.need0 < (1 << 60)))
        c.assume(eq(v.rd("al", self.seg), SEG))
        L.K = 0
        L.chaining = True
        self.begin()
        return [Ptr(p), Ptr(self.seg)]

    def result_facts(self, v0, v, K):
        return [Fact("spare nodes", "leak", lambda x: v.f_chain(x, K)),
                Fact("blocks", "leak", lambda x: AND(eq(v.rd("own", x), v0.rd("own", x)),
                     IMP(eq(v.rd("crank", x), 0), eq(v.rd("al", x), v0.rd("al", x))),
                     IMP(v.rd("crank", x) > 0, eq(v0.rd("al", x), 0)),
                     IMP(v0.rd("al", x) != 0, self.unchanged(v0, v, x))))]

    def thrown_facts(self, v0, v, seg):
        return [Fact("nothing kept", "exc", lambda x: AND(eq(v.rd("own", x), v0.rd("own", x)), eq(v.rd("crank", x), 0),
                     eq(v.rd("al", x), ITE(eq(x, seg), 0, v0.rd("al", x))),
                     IMP(v0.rd("al", x) != 0, self.unchanged(v0, v, x))))]

    def post(self, r):
        c, L = self.c, self.L
        v = L.view()
        self.exit(self.result_facts(self.v0, v, L.K), [(v.chain_head(r.ref, L.K), "chain", "leak"), (eq(L.K, self.need0), "as many nodes as the split needs", "alloc-count")])

    def post_throw(self, what):
        v = self.L.view()
        self.exit(self.thrown_facts(self.v0, v, self.seg), [(v.root_facts(), "root", "exc")])

    def forget(self, v):
        c = self.c
        for n in self.sh.nodef:
            c.havoc_keep(n, lambda r: OR(v.rd("own", r), v.rd("al", r) != 0))
        for n in ("al", "crank", "cat"):
            c.havoc(n)

    def at_call(self, fn, this, vals):
        c, L = self.c, self.L
        if len(vals) != 2 or not isinstance(vals[0], Ptr) or not isinstance(vals[1], Ptr):
            return NotImplemented
        p, s = vals[0].ref, vals[1].ref
        c.touch(p)
        c.touch(s)
        v = L.view()
        for f, nm, cat in self.pre(v, p, s):
            self.pre_at_call(f, nm, cat)
        L.prove_all(v.wf_facts(parts=("kind", "occ", "links", "sizes", "up"), need=2, chain=0), "pre(alloc_nodes_single)", L.written())
        if L.I.allow_throw and c.free_choice("allocation of a node fails"):
            self.forget(v)
            v1 = L.view()
            self.assume_facts(self.thrown_facts(v, v1, s))
            raise CppThrow("bad_alloc")
        self.forget(v)
        v1 = L.view()
        K = c.fresh("K")
        a = c.fresh("chain")
        c.touch(a)
        L.K = K
        self.assume_facts(self.result_facts(v, v1, K))
        c.assume(v1.chain_head(a, K))
        c.assume(AND(eq(K, self.needed(v, p)), K < (1 << 60)))
        return Ptr(a)


# ------------------------------------------------------------------ a child was split
class SplitMixin:
    def split_scalar(self, v, P, i, base, child, csize, alloc, K, op):
        """child is the new right neighbour of base = child i-1 of P (or the root)"""
        rd = v.rd
        cat, uniq = v.combine([(True, rd("cnt", base), rd("mk", base)), (True, rd("cnt", child), rd("mk", child))])
        return [(v.root_facts("cnt0"), "root", "pre"),
                (AND(ne(base, 0), rd("own", base), ne(child, 0), rd("own", child), ne(base, child), ne(child, v.root), eq(rd("spar", child), 0)), "children owned", "pre"),
                (eq(rd("ht", child), rd("ht", base)), "same height", "struct"),
                (IMP(eq(rd("ht", base), 1), rd("cnt", base) >= v.sh.SMIN), "the old half is large enough", "struct"),
                (AND(rd("ht", base) >= 1, v.HT >= 1), "height", "pre"),
                (ITE(eq(P, 0), eq(base, v.root), AND(rd("own", P), eq(rd("ht", P), rd("ht", base) + 1), 1 <= i, i <= v.len(P), eq(v.kid_at(P, i - 1), base))), "parent", "pre"),
                (AND(rd("st", base) <= op.A, op.A <= rd("st", base) + rd("cnt0", base)), "position", "content"),
                (eq(csize, rd("cnt", child)), "count of the new child", "content"),
                (eq(rd("cnt", base) + rd("cnt", child), rd("cnt0", base) + 1), "counts of the halves", "content"),
                (AND(uniq, eq(cat, op.F(rd("mk0", base), op.A - rd("st", base)))), "content of the halves", "content"),
                (v.chain_head(alloc, K), "spare nodes", "leak"),
                (eq(K, ITE(eq(P, 0), 1, rd("need", P))), "enough spare nodes", "alloc-count")]

    def split_facts(self, v, P, i, base, child, K, op):
        rd = v.rd
        h = rd("ht", base)
        return v.wf_facts(op=op, sub=(P, i - 1, rd("cnt0", base), rd("mk0", base)), child=child, hop=h, st=h, stcnt="cnt0", need=2 if False else h + 1, chain=K)


class SplitLoop(LoopContract, SplitMixin):
    name = "split upwards"
    roles = {"base": ("node", ["base"]), "ptr": ("node", ["pointer"]), "index": ("int", ["index"]), "alloc": ("node", ["alloc"]),
             "child": ("node", ["child_pointer"]), "csize": ("int", ["child_size"])}

    @property
    def havoc_maps(self):
        return self.contract.maps_for(("nodes", "own", "ht", "spar", "spidx", "cnt", "mk", "crank"))

    def at_entry(self, r):
        pass

    def at_head(self, r):
        self.L.K = self.c.fresh("K")
        self.L.dirty = {}

    def at_back(self, r, head):
        c, L = self.c, self.L
        c.touch(r["ptr"])
        L.sync(exclude=[r["ptr"]] if not isc(unc(r["ptr"])) else [])

    def measure(self, r):
        return self.L.K

    def inv(self, r):
        c, L = self.c, self.L
        for n in ("ptr", "base", "child", "alloc"):
            c.touch(r[n])
        v = L.view()
        return self.split_scalar(v, r["ptr"], r["index"], r["base"], r["child"], r["csize"], r["alloc"], L.K, L.op) + [
            (v.rd("ht", r["base"]) >= self.contract.v0.rd("ht", self.contract.base0), "moving up", "nav")]

    def facts(self, r):
        L, k = self.L, self.contract
        v = L.view()
        return self.split_facts(v, r["ptr"], r["index"], r["base"], r["child"], L.K, L.op) + k.frame_split(k.v0, v, k.v0.rd("ht", k.base0))


class Split(Mut, SplitMixin):
    leaf = False

    def setup(self):
        c, L = self.c, self.L
        op = self.free_op(True)
        self.base0, P, i, alloc, child, csize = [c.fresh(n) for n in ("base", "pointer", "index", "alloc", "child", "child_size")]
        K = c.fresh("K")
        L.K = K
        v = L.view()
        for r in (self.base0, P, alloc, child, v.root):
            c.touch(r)
        self.assume_facts(self.split_facts(v, P, i, self.base0, child, K, op))
        for f, _, _ in self.split_scalar(v, P, i, self.base0, child, csize, alloc, K, op):
            c.assume(f)
        c.assume(AND(i >= 0, i < (1 << 60), K < (1 << 60)))
        h = v.rd("ht", self.base0)
        c.assume(eq(h, 1) if self.leaf else h >= 2)
        args = [Ptr(self.base0), Ptr(P), i, Ptr(alloc), Ptr(child), csize]
        if self.leaf:
            e = new_entry(c, "entry")
            self.side = c.free_choice("entry in the new half")
            e.f["segment"].f["pointer"] = Ptr(child if self.side else self.base0)
            e.f["leaf"].f["pointer"] = Ptr(P)
            e.f["leaf"].f["index"] = i if self.side else i - 1
            c.assume(i >= 1)
            c.assume(IMP(eq(P, 0), eq(i, 1)))
            self.e0 = e.copy()
            self.cell = Cell(e, "entry", "entry")
            args = [LVar(self.cell)] + args
        self.begin()
        return args

    def post(self, r):
        c, L = self.c, self.L
        L.sync_exit()
        v = L.view()
        h = self.v0.rd("ht", self.base0)
        scal = self.root_post(v, 1) + [(eq(L.K, 0), "all spare nodes used", "leak")]
        if self.leaf:
            e, e0 = self.cell.v, self.e0
            s = e0.f["segment"].f["pointer"].ref
            scal += [(AND(eq(e.f["segment"].f["pointer"].ref, s), eq(e.f["segment"].f["pointer"].off, 0), eq(e.f["segment"].f["index"], e0.f["segment"].f["index"]),
                          eq(e.f["segment"].f["length"], e0.f["segment"].f["length"])), "returned segment", "content"),
                     (AND(eq(e.f["leaf"].f["pointer"].ref, v.rd("spar", s)), eq(e.f["leaf"].f["pointer"].off, 0), eq(e.f["leaf"].f["index"], v.rd("spidx", s))), "returned leaf position", "content")]
        self.exit(v.wf_facts(chain=0) + self.frame_split(self.v0, v, h), scal)

    def at_call(self, fn, this, vals):
        c, L = self.c, self.L
        op = L.op
        if op is None or len(vals) != (7 if self.leaf else 6):
            return NotImplemented
        e = None
        if self.leaf:
            e = L.I.load_nocopy(vals[0])
            vals2 = vals[1:]
        else:
            vals2 = vals
        base, P, i, alloc, child, csize = [unc(x.ref) if isinstance(x, Ptr) else x for x in vals2]
        for r in (base, P, alloc, child):
            c.touch(r)
        null = P == 0 if isc(P) else c.branch(eq(P, 0), "no parent")
        if null:
            P = 0
        counts = []
        if self.leaf:
            if not c.entails(c.read("own", child)):
                c.write("own", child, True)
                c.write("ht", child, 1)
                c.write("spar", child, 0)
                c.write("spidx", child, 0)
            counts = [(child, csize), (base, sub(add(c.read("cnt0", base), 1), csize))]
        L.sync(exclude=[P] if not null else [], counts=counts)
        v = L.view()
        for f, nm, cat in self.split_scalar(v, P, i, base, child, csize, alloc, L.K, op):
            self.pre_at_call(f, nm, cat)
        if self.leaf:
            lp, li, s = e.f["leaf"].f["pointer"], e.f["leaf"].f["index"], e.f["segment"].f["pointer"].ref
            self.pre_at_call(OR(AND(eq(s, base), eq(li, i - 1)), AND(eq(s, child), eq(li, i))), "position of the entry in the leaf", "content")
            self.pre_at_call(AND(eq(lp.ref, P), eq(lp.off, 0), IMP(eq(P, 0), eq(i, 1))), "leaf of the entry", "content")
        L.prove_all(self.split_facts(v, P, i, base, child, L.K, op), "pre(%s)" % self.names[0], L.written())
        for n in self.maps_for(("nodes", "own", "ht", "spar", "spidx", "cnt", "mk", "crank")):
            c.havoc(n)
        L.new_scal(1)
        v1 = L.view()
        c.touch(v1.root)
        L.K = 0
        L.dirty = {}
        h = v.rd("ht", base)
        self.assume_facts(v1.wf_facts(chain=0) + self.frame_split(v, v1, h))
        c.assume(v1.root_facts())
        c.assume(self.content(v1, v.rd("mk0", v.root)))
        if self.leaf:
            s = e.f["segment"].f["pointer"].ref
            c.touch(s)
            e.f["leaf"].f["pointer"] = Ptr(v1.rd("spar", s))
            e.f["leaf"].f["index"] = v1.rd("spidx", s)
            c.touch(v1.rd("spar", s))
        return None


@contract
class InsertSingleBranch(Split):
    names = ("insert_single_branch",)
    loops = (SplitLoop,)


@contract
class InsertSingleLeaf(Split):
    names = ("insert_single_leaf",)
    leaf = True


# ------------------------------------------------------------------ insertion into a segment
@contract
class InsertSingleSegment(Mut):
    names = ("insert_single_segment",)

    def setup(self):
        c, L = self.c, self.L
        e = new_entry(c, "entry")
        val = c.fresh("value")
        s = e.f["segment"].f["pointer"].ref
        c.maps["mk0"], c.maps["cnt0"] = c.maps["mk"], c.maps["cnt"]
        v = L.view()
        for r in (s, v.root):
            c.touch(r)
        L.op = Op(True, eq(val, L.m), z3.Int("A"))
        self.assume_facts(v.wf_facts(st=1, need=2, chain=0, rootmark=True, op=L.op))
        c.assume(v.root_facts())
        c.assume(v.sz < (1 << 59))
        c.assume(OR(v.seg_entry(e), v.no_entry(e)))
        c.assume(eq(L.op.A, ITE(eq(s, 0), 0, v.rd("st", s) + e.f["segment"].f["index"])))
        c.assume(val >= 0)
        # the new value is not the tracked element of the old sequence
        c.assume(IMP(eq(val, L.m), IMP(v.HT >= 1, eq(v.rd("mk0", v.root), -1))))
        c.assume(IMP(eq(v.HT, 0), eq(v.rd("mk0", 0), -1)))
        c.touch(e.f["leaf"].f["pointer"].ref)
        self.val = val
        self.e0 = e.copy()
        self.cell = Cell(e, "entry", "entry")
        L.K = 0
        self.begin()
        return [LVar(self.cell), val]

    def post(self, r):
        c, L = self.c, self.L
        L.sync_exit()
        v = L.view()
        e = self.cell.v
        s, idx = e.f["segment"].f["pointer"].ref, e.f["segment"].f["index"]
        c.touch(s)
        v0 = self.v0
        slot = 0
        x = v.holds(s, idx, self.val)
        scal = [(v.root_facts(), "root", "tree"), (eq(v.sz, v0.sz + 1), "size", "content"),
                (eq(v.rd("mk", v.root), L.op.F(v0.rd("mk0", v0.root), L.op.A)), "content", "content"),
                (v.seg_entry(e), "returned entry", "content"), (x, "returned entry holds the new value", "content")]
        self.exit(v.wf_facts(chain=0) + self.block_frame(v0, v), scal)

    def block_frame(self, v0, v):
        """foreign blocks untouched, nothing lost"""
        names = self.sh.nodef + self.sh.segf
        return [Fact("no leak", "leak", lambda x: AND(IMP(AND(v.rd("al", x) != 0, NOT(v.rd("own", x))), AND(v0.rd("al", x) != 0, NOT(v0.rd("own", x)))),
                                                       IMP(AND(v0.rd("al", x) != 0, NOT(v0.rd("own", x))), AND(eq(v.rd("al", x), v0.rd("al", x)), NOT(v.rd("own", x)))),
                                                       IMP(AND(v0.rd("own", x), NOT(v.rd("own", x))), eq(v.rd("al", x), 0)))),
                Fact("foreign blocks", "safe", lambda x: IMP(AND(v0.rd("al", x) != 0, NOT(v0.rd("own", x))),
                                                              AND([v.same_map(v0, n, x) for n in names if v0.S.m[n] is not v.S.m[n]])))]

    def post_throw(self, what):
        c, L = self.c, self.L
        v, v0 = L.view(), self.v0
        names = self.sh.nodef + self.sh.segf
        self.exit([Fact("unchanged after failure", "exc", lambda x: AND(eq(v.rd("al", x), v0.rd("al", x)), eq(v.rd("own", x), v0.rd("own", x)),
                   IMP(v0.rd("al", x) != 0, AND([v.same_map(v0, n, x) for n in names if v0.S.m[n] is not v.S.m[n]]))))],
                  [(AND(eq(v.root, v0.root), eq(v.sz, v0.sz), eq(v.HT, v0.HT)), "unchanged after failure", "exc")])

    def at_call(self, fn, this, vals):
        return NotImplemented


# ------------------------------------------------------------------ a child was lost
class MergeMixin:
    def merge_scalar(self, v, P, i, op):
        """child i of node P is gone; P itself is as it was before the operation"""
        rd = v.rd
        return [(v.root_facts("cnt0"), "root", "pre"),
                (AND(ne(P, 0), rd("own", P), rd("ht", P) >= 2, 0 <= i, i < v.len(P), NOT(rd("own", v.kid_at(P, i)))), "node and dead child", "pre"),
                (AND(rd("st", P) <= op.A, op.A < rd("st", P) + rd("cnt0", P)), "position", "content")]

    def merge_facts(self, v, P, i, op):
        rd = v.rd
        h = rd("ht", P)
        return v.wf_facts(op=op, skip=(P, i), hop=h - 1, st=h, stcnt="cnt0")


class MergeLoop(LoopContract, MergeMixin):
    name = "merge upwards"
    roles = {"ptr": ("node", ["pointer"]), "index": ("int", ["index"])}

    @property
    def havoc_maps(self):
        return self.contract.maps_for(("nodes", "al", "own", "ht", "spar", "spidx", "cnt", "mk", "crank"))

    def at_head(self, r):
        self.L.dirty = {}

    def at_back(self, r, head):
        self.c.touch(r["ptr"])
        self.L.sync(skip=(r["ptr"], r["index"]))

    def measure(self, r):
        v = self.L.view()
        return v.HT - v.rd("ht", r["ptr"])

    def inv(self, r):
        c, L = self.c, self.L
        c.touch(r["ptr"])
        v = L.view()
        k = self.contract
        return self.merge_scalar(v, r["ptr"], r["index"], L.op) + [
            (v.rd("ht", r["ptr"]) >= k.v0.rd("ht", k.P0), "moving up", "nav")]

    def facts(self, r):
        L, k = self.L, self.contract
        v = L.view()
        return self.merge_facts(v, r["ptr"], r["index"], L.op) + k.frame_merge(k.v0, v, k.v0.rd("ht", k.P0))


class Merge(Mut, MergeMixin):
    leaf = False

    def setup(self):
        c, L = self.c, self.L
        op = self.free_op(False)
        self.P0, i = c.fresh("pointer"), c.fresh("index")
        v = L.view()
        for r in (self.P0, v.root):
            c.touch(r)
        self.assume_facts(self.merge_facts(v, self.P0, i, op))
        for f, _, _ in self.merge_scalar(v, self.P0, i, op):
            c.assume(f)
        h = v.rd("ht", self.P0)
        c.assume(eq(h, 2) if self.leaf else h >= 3)
        args = [Ptr(self.P0), i]
        if self.leaf:
            self.s = c.fresh("entry.segment")
            c.touch(self.s)
            li = c.fresh("entry.lidx")
            c.assume(self.entry_pre(v, self.P0, i, self.s, Ptr(self.P0), li))
            self.cell = Cell(Rec("leaf", {"pointer": Ptr(self.P0), "index": li}), "entry", "entry")
            args = [LVar(self.cell)] + args
        self.begin()
        return args

    def entry_pre(self, v, P, i, s, lp, li):
        return AND(eq(li + 1, i), li >= 0, eq(lp.ref, P), eq(lp.off, 0), v.rd("own", s), eq(v.rd("ht", s), 1), eq(v.rd("spar", s), P), eq(v.rd("spidx", s), li))

    def leaf_post(self, v, leaf, s):
        p = v.rd("spar", s)
        return AND(eq(leaf.f["pointer"].ref, p), eq(leaf.f["pointer"].off, 0), eq(leaf.f["index"], ITE(eq(p, 0), 0, v.rd("spidx", s))))

    def post(self, r):
        c, L = self.c, self.L
        L.sync_exit()
        v = L.view()
        h = self.v0.rd("ht", self.P0)
        scal = self.root_post(v, -1)
        if self.leaf:
            scal += [(self.leaf_post(v, self.cell.v, self.s), "returned leaf position", "content")]
        self.exit(v.wf_facts() + self.frame_merge(self.v0, v, h), scal)

    def at_call(self, fn, this, vals):
        c, L = self.c, self.L
        op = L.op
        if op is None or op.ins or len(vals) != (3 if self.leaf else 2):
            return NotImplemented
        leaf = None
        if self.leaf:
            leaf = L.I.load_nocopy(vals[0])
            vals = vals[1:]
        P, i = unc(vals[0].ref), unc(vals[1])
        c.touch(P)
        L.sync(skip=(P, i))
        v = L.view()
        for f, nm, cat in self.merge_scalar(v, P, i, op):
            self.pre_at_call(f, nm, cat)
        if self.leaf:
            lp, li = leaf.f["pointer"], unc(leaf.f["index"])
            li = c.concretize(li, 0, self.sh.BM - 1, "leaf index of the entry")
            s = unc(c.read("pointers_%d" % li, P))
            c.touch(s)
            self.pre_at_call(self.entry_pre(v, P, i, s, lp, li), "position of the entry in the leaf", "content")
        L.prove_all(self.merge_facts(v, P, i, op), "pre(%s)" % self.names[0], L.written())
        for n in self.maps_for(("nodes", "al", "own", "ht", "spar", "spidx", "cnt", "mk")):
            c.havoc(n)
        L.new_scal(-1)
        v1 = L.view()
        c.touch(v1.root)
        L.dirty = {}
        h = v.rd("ht", P)
        self.assume_facts(v1.wf_facts() + self.frame_merge(v, v1, h))
        c.assume(v1.root_facts())
        c.assume(self.content(v1, v.rd("mk0", v.root)))
        if self.leaf:
            c.touch(s)
            p = v1.rd("spar", s)
            c.touch(p)
            leaf.f["pointer"] = Ptr(p)
            leaf.f["index"] = c.fresh("lidx")
            c.assume(self.leaf_post(v1, leaf, s))
        return None


@contract
class EraseSingleBranch(Merge):
    names = ("erase_single_branch",)
    loops = (MergeLoop,)


@contract
class EraseSingleLeaf(Merge):
    names = ("erase_single_leaf",)
    leaf = True


@contract
class EraseSingleSegment(InsertSingleSegment):
    names = ("erase_single_segment",)
    loops = ()

    def setup(self):
        c, L = self.c, self.L
        e = new_entry(c, "entry")
        s = e.f["segment"].f["pointer"].ref
        c.maps["mk0"], c.maps["cnt0"] = c.maps["mk"], c.maps["cnt"]
        v = L.view()
        for r in (s, v.root):
            c.touch(r)
        L.op = Op(False, False, z3.Int("A"))
        self.assume_facts(v.wf_facts(st=1, rootmark=True, op=L.op))
        c.assume(v.root_facts())
        c.assume(AND(v.seg_entry(e), e.f["segment"].f["index"] < e.f["segment"].f["length"]))
        c.assume(eq(L.op.A, v.rd("st", s) + e.f["segment"].f["index"]))
        c.touch(e.f["leaf"].f["pointer"].ref)
        self.e0 = e.copy()
        self.cell = Cell(e, "entry", "entry")
        self.begin()
        return [LVar(self.cell)]

    def post(self, r):
        c, L = self.c, self.L
        L.sync_exit()
        v = L.view()
        v0, op = self.v0, self.L.op
        e = self.cell.v
        s, idx, ln = e.f["segment"].f["pointer"].ref, e.f["segment"].f["index"], e.f["segment"].f["length"]
        c.touch(s)
        a = v0.rd("mk0", v0.root)
        at, before = v.holds(s, idx, v.m), v.holds(s, idx - 1, v.m)
        scal = [(v.root_facts(), "root", "tree"), (eq(v.sz, v0.sz - 1), "size", "content"),
                (IMP(eq(v.HT, 0), op.F(a, op.A) < 0), "content", "content"),
                (IMP(v.HT >= 1, eq(v.rd("mk", v.root), op.F(a, op.A))), "content", "content"),
                (ITE(eq(v.HT, 0), v.no_entry(e), v.seg_entry(e)), "returned entry", "content"),
                (IMP(AND(v.HT >= 1, idx < ln, eq(a, op.A + 1)), at), "returned entry designates the next element", "content"),
                (IMP(AND(v.HT >= 1, idx >= 1, eq(a, op.A - 1)), before), "returned entry follows the previous element", "content"),
                (IMP(AND(v.HT >= 1, eq(op.A, 0)), idx < ln), "returned entry:first element erased", "content"),
                (IMP(AND(v.HT >= 1, eq(op.A, v.sz)), eq(idx, ln)), "returned entry:last element erased", "content")]
        self.exit(v.wf_facts() + self.block_frame(v0, v), scal)

    def post_throw(self, what):
        self.c.prove(False, self.name + ":no exception", "exc")
