"""Loops over the children of a node whose capacity is a symbol.

One iteration is tried in a sandbox: which local counts the children, which ones lose or gain the size of a child, which
ones hold the size of the current child.  The sums are closed with the ghost prefix sums of the node ("before"); bounds
are candidates that are dropped until what is left is inductive.  The invariant is then proved on the real body
(obligations "scan loop:*"); a loop that does not fit is left to be unrolled, which leaves the function undecided.
"""
import z3
from .core import *
from .interp import *
from .elemloops import ElemLoop, NoFit


def cells_of(lv, out):
    if isinstance(lv, Cell):
        out.append(lv)
    elif isinstance(lv, LVar):
        out.append(lv.cell)
    elif isinstance(lv, LField):
        cells_of(lv.base, out)


class ScanLoop(ElemLoop):
    def counters(self):
        I, assigned = self.I, set()
        for part in (self.cond, self.inc, self.body):
            if part is not None:
                assigned |= I.assigned(part)
        out = []
        for i in assigned:
            v = I.frames[-1].vars.get(i)
            if v is None:
                continue            # declared inside
            if isinstance(v, LVar):
                v = v.cell
            if not isinstance(v, Cell):
                raise NoFit("object")
            if isinstance(v.v, Rec):
                continue            # must not change on the way back
            if v.v is UNINIT or isinstance(v.v, (Ptr, LPtr, Opaque, bool)) or not (isc(v.v) or z3.is_int(v.v)):
                raise NoFit("kind of " + v.name)
            if strip_type(v.type) not in INTS:
                raise NoFit("type of " + v.name)
            out.append(v)
        if not out:
            raise NoFit("nothing counts")
        return out

    def iteration(self):
        try:
            return ElemLoop.iteration(self)
        except NoFit:
            return "exit"           # break
        except (Return, CppThrow):
            return "exit"

    def sandbox(self, run):
        cells = []
        for fr in self.I.frames:
            for v in list(fr.vars.values()):
                cells_of(v, cells)
        recs = [(c, c.v, c.v.copy()) for c in cells if isinstance(c.v, Rec)]

        def again(sub):
            for c, r, v in recs:
                c.v = v.copy()
            run(sub)
        try:
            ElemLoop.sandbox(self, again)
        finally:
            for c, r, v in recs:
                c.v = r
                r.f.clear()
                r.f.update(v.copy().f)

    def node_term(self, t):
        """(node, index) if t is the size of a child"""
        if not isc(t) and z3.is_app(t) and t.num_args() == 2 and t.decl().eq(self.c.maps["sizes"].base):
            return t.arg(0), t.arg(1)
        return None

    def infer(self):
        syms = [z3.Int("sc!%d" % i) for i in range(len(self.cells))]
        ends = []

        def steps(sub):
            for v, x in zip(self.cells, syms):
                self.put(v, x)
                sub.assume(AND(x >= 1, x < (1 << 57)))
            if self.iteration() == "back" and sub.feasible():
                ends.append([z3.simplify(sub_(self.get(v), 0)) for v in self.cells])
        self.sandbox(steps)
        if not ends:
            raise NoFit("no way back")
        first = ends[0]
        if any(not a.eq(b) for e in ends for a, b in zip(e, first)):
            raise NoFit("paths differ")
        cnt = [(i, d) for i, x in enumerate(syms) for d in [unc(z3.simplify(first[i] - x))] if isc(d) and d in (1, -1)]
        self.count = None
        for i, d in cnt:
            links, ok, node = [], True, None
            # a local that holds the size of the current child stands for it
            held = []
            for j, x in enumerate(syms):
                nt = self.node_term(first[j])
                if j != i and nt is not None and isc(unc(z3.simplify(nt[1] - syms[i]))):
                    held.append((x, self.c.maps["sizes"].raw(nt[0], z3.simplify(nt[1] - d))))
            for j, x in enumerate(syms):
                if j == i:
                    continue
                e = first[j]
                if self.node_term(e) is None and held:
                    e = z3.simplify(z3.substitute(e, *held))
                dj = z3.simplify(e - x)
                hit = None
                if isc(unc(dj)) and unc(dj) == 0:
                    hit = ("same", None)
                for what, t, s in (("size", e, 0), ("sum", dj, 1), ("sum", z3.simplify(-dj), -1)):
                    nt = self.node_term(t)
                    if hit is None and nt is not None:
                        k = unc(z3.simplify(nt[1] - syms[i]))
                        if isc(k) and not any(y.get_id() == z.get_id() for y in subterms(nt[0]) for z in syms):
                            if node is None or node.eq(nt[0]):
                                node = nt[0]
                                hit = (what, (k, s))
                if hit is None:
                    ok = False
                    break
                links.append((j, hit))
            if ok and node is not None:
                self.count = (i, d)
                self.links, self.node = links, node
                break
        if self.count is None:
            raise NoFit("steps %s" % first)

    def candidates(self):
        """[(name, formula of the current values)], strongest first"""
        c, (ci, d) = self.c, self.count
        p = self.node
        n = c.maps["length_"]
        before = c.maps["before"]
        cell = self.cells[ci]
        out = []
        idx = lambda: self.get(cell)
        ln = c.read("length_", p)
        for k in (0, 1):
            out.append(("at least %d" % k, lambda k=k: idx() >= k))
        out.append(("below the length", lambda: lt(idx(), ln)))
        out.append(("at most the length", lambda: le(idx(), ln)))
        for j, (what, arg) in self.links:
            v = self.cells[j]
            a0 = self.start[j]
            if what == "same":
                out.append(("unchanged", lambda v=v, a0=a0: eq(self.get(v), a0)))
                continue
            k, s = arg
            if what == "size":
                # the size loaded at the end of the iteration, for the counter after it
                out.append(("size", lambda v=v, k=k: eq(self.get(v), c.maps["sizes"].raw(p, add(idx(), k - d)))))
                continue
            c0 = self.start[ci]

            def closed(v=v, a0=a0, k=k, s=s):
                # counting up: a' = a + s*size(c + k); down: the child taken lies above the next counter
                sh = k if d == 1 else k + 1
                at = lambda i: before.raw(p, add(i, sh))
                self.c.touch_off(add(idx(), sh))
                return eq(self.get(v), a0 + s * d * (at(idx()) - at(c0)))
            out.append(("sum", closed))
            for k2 in (0, 1):
                out.append(("sum at least %d" % k2, lambda v=v, k2=k2: self.get(v) >= k2))
        return out

    def head(self, ctx, live, tag):
        for v in self.cells:
            x = ctx.fresh(tag + v.name)
            self.put(v, x)
            ctx.assume(AND(x >= 0, x < (1 << 62)))
        ctx.touch_off(self.get(self.cells[self.count[0]]))
        for _, f in live:
            ctx.assume(f())

    def try_apply(self):
        c, I = self.c, self.I
        try:
            self.cells = self.counters()
            self.start = [self.get(v) for v in self.cells]
            self.infer()
            c.touch(self.node)
            c.touch_off(self.start[self.count[0]])
            live = [x for x in self.candidates() if c.entails(x[1]())]
            for _ in range(6):
                bad = set()

                def step(sub):
                    self.head(sub, live, "trial.")
                    if self.iteration() == "back":
                        sub.touch_off(self.get(self.cells[self.count[0]]))
                        for i, (nm, f) in enumerate(live):
                            if i not in bad and not sub.entails(f()):
                                bad.add(i)
                self.sandbox(step)
                if not bad:
                    break
                live = [x for i, x in enumerate(live) if i not in bad]
            else:
                raise NoFit("no invariant")
        except NoFit as e:
            if c.cfg.get("debug"):
                print("scan loop:", I.where(self.n), e)
            return False
        if c.cfg.get("debug"):
            print("scan loop:", I.where(self.n), [nm for nm, _ in live])
        for nm, f in live:
            c.prove(f(), "scan loop:entry:" + nm, "loopinv")
        c.res.exits["loop:scan"] = c.res.exits.get("loop:scan", 0) + 1
        maps0, scal = dict(c.maps), self.L.scal_snapshot()
        recs = [(v, v.v.copy()) for fr in I.frames for v in fr.vars.values() if isinstance(v, Cell) and isinstance(v.v, Rec)]
        ci, d = self.count
        self.head(c, live, "scan.")
        i0 = self.get(self.cells[ci])
        ln = c.read("length_", self.node)
        I.active_loop += 1
        try:
            if not self.post and self.cond is not None and not I.truth(I.ev(self.cond), I.where(self.n)):
                return True
            try:
                I.exec(self.body)
            except Break:
                return True
            except Continue:
                pass
            if self.inc is not None:
                I.ev(self.inc)
            if self.post and not I.truth(I.ev(self.cond), I.where(self.n)):
                return True
        finally:
            I.active_loop -= 1
        i1 = self.get(self.cells[ci])
        c.touch_off(i1)
        m0, m1 = (sub(ln, i0), sub(ln, i1)) if d == 1 else (i0, i1)
        c.prove(AND(m1 >= 0, m1 < m0), "scan loop:ends", "term")
        for nm, f in live:
            c.prove(f(), "scan loop:step:" + nm, "loopinv")
        from .loops import same_value
        for v, old in recs:
            c.prove(same_value(v.v, old), "scan loop:frame:object", "loopinv")
        for nm, m in c.maps.items():
            if m is not maps0[nm]:
                raise Unsupported("a loop over the children changes " + nm)
        if scal is not None:
            c.prove(self.L.same_scal(scal, None), "scan loop:frame:scalars", "loopinv")
        raise PathEnd()


def sub_(a, b):
    return (z3.IntVal(a) if isc(a) else a) - b


from .elemloops import subterms
