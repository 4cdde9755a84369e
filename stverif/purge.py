"""Contracts of the functions that destroy a tree, and the lemmas about ghost positions (induction over the height)."""
import z3
from .core import *
from .interp import *
from .tree import *
from .loops import LoopContract
from .contracts import contract, Contract, TREE
from .frontend import params_of


class KeepHooks(TreeHooks):
    """while a tree is destroyed, own keeps naming the blocks it had"""

    def freed(self, I, r, kind):
        pass

    def allocated(self, I, r, kind):
        raise Unsupported("allocation while a tree is destroyed")


class Purging(Contract):
    static = False

    def quiet(self):
        self.L.I.hooks = KeepHooks(self.L)
        self.L.on_write = lambda *a: None
        self.c.on_write = None

    # ---- vocabulary: v0 is a view of the state before, v of the state now
    def moving(self):
        return ["al", "cons", "tp"] if self.sh.sym else ["al"] + ["cons_%d" % k for k in range(self.sh.SM)]

    def inside(self, v, x, p):
        """block x belongs to the subtree of node p"""
        return OR(eq(x, p), AND(v.rd("own", x), v.rd("ht", x) < v.rd("ht", p), v.rd("st", p) <= v.rd("st", x), v.rd("st", x) < v.rd("st", p) + v.rd("cnt", p)))

    def alive(self, v, x):
        seg = eq(v.rd("ht", x), 1)
        out = [eq(v.rd("al", x), ITE(seg, SEG, NODE))]
        if self.sh.elem != "Triv":
            out.append(IMP(seg, v.live_upto(x, v.rd("cnt", x))))
        return AND(out)

    def gone(self, v, x, seg=None):
        if self.sh.elem == "Triv":
            return eq(v.rd("al", x), 0)
        seg = eq(v.rd("ht", x), 1) if seg is None else seg
        return AND(eq(v.rd("al", x), 0), IMP(seg, v.none_live(x)))

    def same(self, v0, v, x):
        return AND([v.same_map(v0, n, x) for n in self.moving() if n != "tp" and not (n.startswith("cons") and self.sh.elem == "Triv")])

    def shape(self, v):
        """the tree as it was when its destruction began"""
        def kind(x):
            h = v.rd("ht", x)
            return IMP(v.rd("own", x), AND(ne(x, 0), h >= 1, h <= v.HT, IMP(eq(h, v.HT), eq(x, v.root))))
        return [Fact("kind", "tree", kind)] + v.wf_facts(parts=("occ", "links", "sizes", "up"), st=1)

    def effect(self, v0, v, cond, seg=None):
        """exactly the blocks with cond are gone (the cells of a node block mean nothing)"""
        return [Fact("released", "leak", lambda x: IMP(cond(x), self.gone(v, x, seg))),
                Fact("rest untouched", "safe", lambda x: IMP(NOT(cond(x)), self.same(v0, v, x)))]

    def level_lemma(self, v, q):
        """two blocks of one height do not overlap (lemma_level)"""
        def f(x):
            return IMP(AND(v.rd("own", x), v.rd("own", q), eq(v.rd("ht", x), v.rd("ht", q)), v.rd("st", q) <= v.rd("st", x), v.rd("st", x) < v.rd("st", q) + v.rd("cnt", q)), eq(x, q))
        return Fact("lemma.level", "tree", f)

    def forget(self):
        for n in self.moving():
            self.c.havoc(n)

    def setup_tree(self):
        c, L = self.c, self.L
        self.quiet()
        v = L.view()
        c.touch(v.root)
        for f in self.shape(v):
            c.add_fact(f)
        c.assume(v.root_facts())
        self.v0 = v
        return v

    def finish(self, cond, seg=None):
        c, L = self.c, self.L
        v = L.view()
        for n, m in c.maps.items():
            if n not in self.moving() and m is not self.v0.S.m[n]:
                raise Unsupported("destruction writes " + n)
        L.prove_all(self.effect(self.v0, v, cond, seg), self.name, L.written())
        c.prove(AND([eq(a, b) for a, b in zip(L.scal(), (self.v0.root, self.v0.sz, self.v0.HT))]), self.name + ":scalars", "safe")


@contract
class PurgeSegment(Purging):
    names = ("purge_segment",)

    def accept(self, f):
        return len(params_of(f)) == 2

    def pre(self, v, s, n):
        out = [(AND(ne(s, 0), eq(v.rd("al", s), SEG)), "allocated segment", "safe"), (AND(1 <= n, n <= self.sh.SM), "number of elements", "safe")]
        if self.sh.elem != "Triv":
            out.append((v.live_upto(s, n), "exactly these elements live", "leak"))
        return out

    def setup(self):
        c = self.c
        self.quiet()
        s, n = c.fresh("pointer"), c.fresh("sz")
        c.touch(s)
        self.v0 = self.L.view()
        for f, _, _ in self.pre(self.v0, s, n):
            c.assume(f)
        if self.sh.sym and self.sh.elem != "Triv":
            c.add_fact(Fact("exactly these elements live", "leak", lambda x: IMP(eq(x, s), self.v0.live_upto(s, n))))
        self.s = s
        return [Ptr(s), n]

    def post(self, r):
        self.finish(lambda x: eq(x, self.s), True)

    def at_call(self, fn, this, vals):
        c, L = self.c, self.L
        if len(vals) != 2 or not isinstance(vals[0], Ptr):
            return NotImplemented
        s, n = unc(vals[0].ref), unc(vals[1])
        c.prove(eq(vals[0].off, 0), "pre(purge_segment):start", "safe")
        c.touch(s)
        v0 = L.view()
        for f, nm, cat in self.pre(v0, s, n):
            self.pre_at_call(f, nm, cat)
        self.forget()
        v = L.view()
        for f in self.effect(v0, v, lambda x: eq(x, s), True):
            c.add_fact(f)
        return None


class ChildrenLoop(LoopContract):
    """a node of any capacity: the children below the counter (or from it on) are gone"""
    name = "children"
    roles = {"i": ("int", ["i", "index"])}
    variants = ("up", "down")

    @property
    def havoc_maps(self):
        return self.contract.moving()

    def bound(self, v, r):
        return v.rd("st", self.contract.p) + v.prefix(self.contract.p, r["i"])

    def inv(self, r):
        v = self.contract.v0
        n = v.len(self.contract.p)
        start = eq(r["i"], 0 if self.variant == "up" else n)
        return [(AND(0 <= r["i"], r["i"] <= n), "index", "tree")] + ([(start, "start", "tree")] if self.entering else [])

    entering = True

    def facts(self, r):
        k = self.contract
        v0, p = k.v0, k.p
        b = self.bound(v0, r)
        v = self.L.view()

        def done(x):
            s = v0.rd("st", x)
            return AND(v0.rd("own", x), v0.rd("ht", x) < v0.rd("ht", p), v0.rd("st", p) <= s, s < v0.rd("st", p) + v0.rd("cnt", p),
                       s < b if self.variant == "up" else s >= b)
        return k.effect(v0, v, done)

    def measure(self, r):
        n = self.contract.v0.len(self.contract.p)
        return n - r["i"] if self.variant == "up" else r["i"]

    def at_head(self, r):
        self.entering = False
        k = self.contract
        i = unc(r["i"] if self.variant == "up" else z3.simplify(r["i"] - 1))
        self.c.touch_off(i)
        q = k.v0.kid(k.p, i)
        self.c.touch(q)
        self.c.add_fact(k.level_lemma(k.v0, q))


@contract
class PurgeNode(Purging):
    names = ("purge_node",)

    @property
    def loops(self):
        return (ChildrenLoop,) if self.sh.symnode else ()

    def pre(self, v, p, ht):
        return [(AND(ne(p, 0), v.rd("own", p)), "node of the tree", "safe"), (AND(ht >= 2, eq(v.rd("ht", p), ht)), "height", "tree")]

    def live_facts(self, v, p):
        return [Fact("subtree allocated", "safe", lambda x: IMP(self.inside(v, x, p), self.alive(v, x)))]

    def setup(self):
        c, L = self.c, self.L
        v = self.setup_tree()
        p, ht = c.fresh("pointer"), c.fresh("ht")
        self.p = p
        c.touch(p)
        for f in self.live_facts(v, p):
            c.add_fact(f)
        for f, _, _ in self.pre(v, p, ht):
            c.assume(f)
        self.ht = ht
        for j in () if self.sh.symnode else range(self.sh.BM):
            q = v.kid(p, j)
            c.touch(q)
            c.add_fact(self.level_lemma(v, q))
        self.level = True
        L.purge_root = self
        return [Ptr(p), ht]

    def post(self, r):
        self.finish(lambda x: self.inside(self.v0, x, self.p))

    def at_call(self, fn, this, vals):
        c, L = self.c, self.L
        if len(vals) != 2 or not isinstance(vals[0], Ptr):
            return NotImplemented
        p, ht = unc(vals[0].ref), unc(vals[1])
        caller = getattr(L, "purge_root", None)
        if caller is None:
            raise Unsupported("purge_node called from elsewhere")
        for n, m in c.maps.items():
            if n not in self.moving() and m is not caller.v0.S.m[n]:
                raise Unsupported("destruction writes " + n)
        c.prove(eq(vals[0].off, 0), "pre(purge_node):start", "safe")
        c.touch(p)
        v0 = L.view()
        for f, nm, cat in self.pre(v0, p, ht):
            self.pre_at_call(f, nm, cat)
        if getattr(caller, "ht", None) is not None:
            c.prove(ht < caller.ht, "pre(purge_node):recursion ends", "tree")
        L.prove_all(self.live_facts(v0, p), "pre(purge_node)", L.written())
        self.forget()
        v = L.view()
        for f in self.effect(v0, v, lambda x: self.inside(v0, x, p)):
            c.add_fact(f)
        return None


class Whole(Purging):
    def setup_whole(self):
        c, L = self.c, self.L
        v = self.setup_tree()
        L.purge_root = self
        for f in v.wf_facts(parts=("kind", "live")):
            c.add_fact(f)
        return v


@contract
class PurgeRoot(Whole):
    names = ("purge_root",)

    def setup(self):
        v = self.setup_whole()
        self.c.assume(v.HT >= 1)
        return [Ptr(v.root), v.sz, v.HT]

    def post(self, r):
        self.finish(lambda x: self.v0.rd("own", x))

    def at_call(self, fn, this, vals):
        return NotImplemented


@contract
class Purge(Whole):
    names = ("purge",)

    def setup(self):
        self.setup_whole()
        return []

    def post(self, r):
        self.finish(lambda x: self.v0.rd("own", x))

    def at_call(self, fn, this, vals):
        return NotImplemented


# ------------------------------------------------------------------ lemmas by induction over the height, from the root down
class Lemma(Contract):
    """base: the root; step: from the parents to their children"""

    def verify(self, name):
        L, c = self.L, self.c
        self.name = name
        L.make_seq()
        v = L.view()
        c.touch(v.root)
        for f in v.wf_facts(parts=("kind", "occ", "links", "sizes", "up")):
            c.add_fact(f)
        c.assume(AND(v.root_facts(), v.HT >= 1))
        xs = []
        for i in range(self.arity):
            x = c.fresh("x")
            c.touch(x)
            c.assume(v.rd("own", x))
            p = v.rd("spar", x)
            c.touch(p)
            xs.append((x, p))
        self.state(v)
        base = c.free_choice("case", (True, False))
        roots = AND([eq(x, v.root) for x, _ in xs])
        if base:
            c.assume(OR([eq(x, v.root) for x, _ in xs]))
        else:
            c.assume(AND([ne(x, v.root) for x, _ in xs]))
            self.definition(v, xs)
            c.assume(self.claim(v, [p for _, p in xs]))
            for x, _ in xs:
                if self.sh.symnode:
                    c.touch_off(v.rd("spidx", x))
                    for y, q in xs:      # lemma_prefix
                        i, j, at = v.rd("spidx", x), v.rd("spidx", y), lambda k: v.S.rd2("before", q, k)
                        c.assume(IMP(AND(0 <= i, i < j, j <= v.len(q)), at(i) + v.size(q, i) <= at(j)))
                else:
                    c.concretize(v.rd("spidx", x), 0, self.sh.BM - 1, "index")
        if base:
            self.definition(v, xs)
        if not c.feasible():
            return "vacuous-precondition"
        self.P(self.claim(v, [x for x, _ in xs]), "base" if base else "step", "tree")
        return "return"

    def state(self, v):
        pass

    def start(self, v, x):
        """definition of st"""
        p = v.rd("spar", x)
        return ITE(eq(x, v.root), eq(v.rd("st", x), 0), eq(v.rd("st", x), v.rd("st", p) + v.prefix(p, v.rd("spidx", x))))

    def definition(self, v, xs):
        for x, _ in xs:
            self.c.assume(self.start(v, x))

    def at_call(self, *a):
        return NotImplemented


@contract
class LemmaRange(Lemma):
    """every subtree lies inside the sequence"""
    names = ("lemma_range",)
    arity = 1

    def claim(self, v, xs):
        x, = xs
        return AND(v.rd("st", x) >= 0, v.rd("st", x) + v.rd("cnt", x) <= v.sz, v.rd("cnt", x) >= 1)


@contract
class LemmaPrefix(Contract):
    """prefix sums of positive sizes do not fall: induction over the distance of two children"""
    names = ("lemma_prefix",)

    def verify(self, name):
        L, c = self.L, self.c
        self.name = name
        L.make_seq()
        if not self.sh.symnode:
            raise Unsupported("prefix sums are written out")
        v = L.view()
        x, i, j, n = c.fresh("x"), c.fresh("i"), c.fresh("j"), v.len(c.fresh("x0"))
        at, size = (lambda k: v.S.rd2("before", x, k)), (lambda k: v.size(x, k))
        n = v.len(x)
        c.assume(AND(n >= 0, 0 <= i, i <= j, j <= n))
        c.assume(eq(at(0), 0))
        for k in (i, j):
            c.assume(IMP(k < n, AND(eq(at(k + 1), at(k) + size(k)), size(k) >= 1)))
        claim = lambda a, b: IMP(AND(0 <= a, a <= b, b <= n), AND(at(b) >= at(a), IMP(a < b, at(a) + size(a) <= at(b))))
        self.P(claim(i, i), "base", "tree")
        c.assume(claim(i, j))
        self.P(claim(i, j + 1), "step", "tree")
        # what the facts of a node use of it
        c.assume(AND(claim(0, j), claim(j + 1, n)))
        self.P(IMP(j < n, AND(at(j) >= 0, at(j + 1) <= at(n))), "used", "tree")
        return "return"

    def at_call(self, *a):
        return NotImplemented


@contract
class LemmaLevel(Lemma):
    """two subtrees of one height do not overlap"""
    names = ("lemma_level",)
    arity = 2

    def claim(self, v, xs):
        x, y = xs
        overlap = AND(v.rd("st", x) < v.rd("st", y) + v.rd("cnt", y), v.rd("st", y) < v.rd("st", x) + v.rd("cnt", x))
        return IMP(AND(eq(v.rd("ht", x), v.rd("ht", y)), overlap), eq(x, y))

    def verify(self, name):
        return Lemma.verify(self, name)


@contract
class LemmaRootmark(Lemma):
    """the mark of a subtree is the mark of the whole tree relative to its start"""
    names = ("lemma_rootmark",)
    arity = 1

    def state(self, v):
        for f in v.wf_facts(parts=("mark",)):
            self.c.add_fact(f)

    def claim(self, v, xs):
        x, = xs
        a = v.rd("mk", v.root)
        st, n = v.rd("st", x), v.rd("cnt", x)
        return AND(eq(v.rd("mk", x), ITE(AND(st <= a, a < st + n), a - st, -1)), v.rd("mk", x) < n, v.rd("mk", x) >= -1)


@contract
class LemmaNeed(Lemma):
    """the number of nodes a split would take is not negative"""
    names = ("lemma_need",)
    arity = 1

    def definition(self, v, xs):
        c = self.c
        for x, p in xs:
            up = ITE(eq(x, v.root), 1, v.rd("need", p))
            c.assume(eq(v.rd("need", x), ITE(v.len(x) < self.sh.BM, 0, 1 + up)))

    def claim(self, v, xs):
        return v.rd("need", xs[0]) >= 0
