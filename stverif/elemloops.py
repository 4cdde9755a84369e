"""Loops over the elements of a segment whose capacity is a symbol.

One iteration is tried in a sandbox: which locals move by what, and which element goes where.  From that follows what j
iterations have done: a block of elements moved from one place to another, created and destroyed.  The closed form is
then proved by induction over j on the real body (obligations "element loop:*"); a loop that does not fit is left to be
unrolled, which leaves the function undecided for a symbolic capacity.
"""
import z3
from .core import *
from .interp import *


class NoFit(Exception):
    pass


def subterms(t):
    out, todo = [], [] if isc(t) else [t]
    while todo:
        x = todo.pop()
        out.append(x)
        todo += x.children()
    return out


class ElemLoop:
    def __init__(self, I, n, cond, inc, body, post):
        self.I, self.n, self.cond, self.inc, self.body, self.post = I, n, cond, inc, body, post
        self.L = I.hooks.L

    @property
    def c(self):
        return self.I.c

    # ---- the locals the loop changes
    def moving(self):
        I, assigned = self.I, set()
        for part in (self.cond, self.inc, self.body):
            if part is not None:
                assigned |= I.assigned(part)
        out = []
        for i in assigned:
            v = I.frames[-1].vars.get(i)
            if v is None:
                continue            # declared inside
            if not isinstance(v, Cell):
                raise NoFit("object")
            if isinstance(v.v, Ptr):
                if not any(strip_type(v.type).rstrip("* ") == e for e in ELEMS):
                    raise NoFit("node pointer")
            elif v.v is UNINIT or isinstance(v.v, (Rec, LPtr, Opaque, bool)) or not (isc(v.v) or z3.is_int(v.v)):
                raise NoFit("kind of " + v.name)
            out.append(v)
        return out

    def get(self, v):
        return v.v.off if isinstance(v.v, Ptr) else v.v

    def put(self, v, x):
        v.v = Ptr(v.v.ref, x) if isinstance(v.v, Ptr) else x

    def iteration(self):
        I = self.I
        I.active_loop += 1
        try:
            if not self.post and self.cond is not None and not I.truth(I.ev(self.cond), I.where(self.n)):
                return "exit"
            try:
                I.exec(self.body)
            except Break:
                raise NoFit("break")
            except Continue:
                pass
            if self.inc is not None:
                I.ev(self.inc)
            if self.post and not I.truth(I.ev(self.cond), I.where(self.n)):
                return "exit"
            return "back"
        finally:
            I.active_loop -= 1

    # ---- one iteration in a sandbox
    def sandbox(self, run):
        I, L, outer = self.I, self.L, self.I.c
        vals = [(v, v.v) for v in self.cells]
        frames = [(fr, dict(fr.vars), list(fr.locals)) for fr in I.frames]
        depth, handlers, active, dirty, hooks_K = I.depth, I.handlers, I.active_loop, dict(L.dirty), L.K
        scal = L.cell.v.copy() if hasattr(L, "cell") and isinstance(getattr(L.cell, "v", None), Rec) else None
        work, n = [([], [])], 0
        asserts = list(outer.s.assertions())
        try:
            while work:
                n += 1
                if n > 8:
                    raise NoFit("too many paths")
                dec, log = work.pop()
                sub = Ctx(Result(), dec, log, dict(outer.cfg, debug=False, blame=None))
                for a in asserts:
                    sub.s.add(a)
                sub.maps, sub.facts, sub.refs, sub.offs = dict(outer.maps), list(outer.facts), dict(outer.refs), dict(outer.offs)
                sub.fresh_n, sub.anyoff = outer.fresh_n + 1000000, outer.anyoff
                sub.alias_cache = dict(outer.alias_cache)
                I.c = L.c = sub
                I.elem_trace = []
                for v, x in vals:
                    v.v = x
                try:
                    run(sub)
                except PathEnd:
                    pass
                except Unsupported as e:
                    if sub.feasible():
                        raise NoFit(str(e))
                except (Return, CppThrow):
                    raise NoFit("leaves the loop")
                finally:
                    outer.res.queries += sub.res.queries
                    outer.res.solver_s += sub.res.solver_s
                    I.frames[:] = [fr for fr, _, _ in frames]
                    for fr, vs, lo in frames:
                        fr.vars, fr.locals = dict(vs), list(lo)
                work.extend(sub.alts)
        finally:
            I.c = L.c = outer
            I.elem_trace = None
            I.depth, I.handlers, I.active_loop, L.dirty, L.K = depth, handlers, active, dirty, hooks_K
            for v, x in vals:
                v.v = x
            if scal is not None:
                L.cell.v = scal

    def delta(self, sub, a, b):
        d = z3.simplify(b - a) if not (isc(a) and isc(b)) else b - a
        d = unc(d)
        if isc(d):
            return d
        if sub.s.check() != z3.sat:
            raise NoFit("step")
        v = sub.s.model().eval(d, True)
        if z3.is_int_value(v) and sub.entails(d == v):
            return v.as_long()
        raise NoFit("step")

    def infer(self):
        self.bounds, ds = [], []
        syms = [z3.Int("it!%d" % i) for i in range(len(self.cells))]

        def steps(sub):
            for v, x in zip(self.cells, syms):
                self.put(v, x)
                sub.assume(AND(x >= 2, x < (1 << 57)))
            if self.iteration() == "back" and sub.feasible():
                ds.append([self.delta(sub, x, self.get(v)) for v, x in zip(self.cells, syms)])
        self.sandbox(steps)
        if not ds or any(d != ds[0] for d in ds):
            raise NoFit("steps %s" % ds)
        self.deltas = ds[0]
        if not any(self.deltas) or not set(self.deltas) <= {0, 1, -1}:
            raise NoFit("steps")
        self.J = z3.Int("it!j")
        evs = []

        def where(sub):
            sub.assume(AND(self.J >= 0, self.J < (1 << 57)))
            self.at(self.J)
            for v, d in zip(self.cells, self.deltas):
                sub.assume(AND(self.get(v) >= (1 if d < 0 else 0), self.get(v) < (1 << 57)))
            if self.iteration() == "back" and sub.feasible():
                evs.append([(w, unc(r), unc(o)) for (w, r, o) in self.I.elem_trace])
        self.sandbox(where)
        if not evs or any([(e[0], key(e[1]), key(e[2])) for e in ev] != [(e[0], key(e[1]), key(e[2])) for e in evs[0]] for ev in evs):
            raise NoFit("paths differ")
        # one element per iteration: read and written elsewhere, or only destroyed; the proof below decides
        self.events = ev = evs[0]
        pick = lambda *k: [e for e in ev if e[0] in k]
        writes, kills, gone = pick("construct", "assign"), pick("destroy"), pick("move")
        if not ev or len(writes) > 1 or len(kills) > 1 or (not writes and not kills):
            raise NoFit("more than one element at a time")
        reads = [e for e in ev[:ev.index(writes[0])] if e[0] == "read"] if writes else []
        if writes and (not reads or not gone):
            raise NoFit("elements are not moved")
        self.move = (reads[-1], writes[0]) if writes else None
        self.kill = kills[0] if kills else None
        used = list(self.move or ()) + kills
        dirs = {self.offdelta(e[2]) for e in used}
        if len(dirs) != 1 or not dirs <= {1, -1}:
            raise NoFit("offsets do not move together %s %s %s" % (dirs, used, self.deltas))
        self.dir = dirs.pop()
        self.blocks = []
        for e in used:
            if self.J.get_id() in [x.get_id() for x in subterms(e[1])]:
                raise NoFit("block changes")
            if not any(key(e[1]) == key(r) for r in self.blocks):
                self.blocks.append(e[1])

    def at(self, j):
        """the locals after j iterations"""
        for v, a, d in zip(self.cells, self.start, self.deltas):
            self.put(v, add(a, j if d == 1 else mul(d, j)) if d else a)

    def subst(self, o, j):
        """o after j iterations"""
        if isc(o):
            return o
        return unc(z3.simplify(z3.substitute(o, (self.J, z3.IntVal(j) if isc(j) else j))))

    def offdelta(self, o):
        d = sub(self.subst(o, self.J + 1), o)
        if not isc(unc(d)):
            raise NoFit("offset")
        return unc(d)

    # ---- the state after j iterations, from the maps at the entry of the loop
    def span(self, o, j):
        a = self.subst(o, 0)
        return (a, add(a, j)) if self.dir == 1 else (add(sub(a, j), 1), add(a, 1))

    def closed(self, j):
        """write what j iterations do on top of the maps at entry"""
        I, c = self.I, self.c
        c.maps = dict(self.maps0)
        if self.move:
            (_, rs, ks), (kind, rd, kd) = self.move
            slo, shi = self.span(ks, j)
            dlo, dhi = self.span(kd, j)
            I.sym_move(rs, slo, rd, dlo, sub(shi, slo), self.kill is not None, kind == "construct" or not I.tracks_cons())
        elif self.kill:
            _, r, k = self.kill
            lo, hi = self.span(k, j)
            t = c.read("tp", r)
            c.write2("cons", r, lo, hi, False)
            c.write("tp", r, ITE(AND(le(lo, t), lt(t, hi)), -1, t))

    def invariants(self, j):
        """bounds between the locals of the condition"""
        return [AND(j >= 0, j < (1 << 57))] + [le(self.subst(a, j), self.subst(b, j)) for a, b in self.bounds]

    def find_bounds(self):
        """what the condition compares stays ordered"""
        c, cand = self.c, []

        def run(sub):
            sub.assume(AND(self.J >= 0, self.J < (1 << 57)))
            self.at(self.J)
            if self.cond is None:
                return
            t = self.I.ev(self.cond)

            def terms(t):
                if z3.is_expr(t):
                    if z3.is_eq(t) or z3.is_distinct(t) or z3.is_le(t) or z3.is_ge(t) or z3.is_lt(t) or z3.is_gt(t):
                        if z3.is_int(t.arg(0)) and t.num_args() == 2:
                            cand.append((t.arg(0), t.arg(1)))
                    elif z3.is_not(t) or z3.is_and(t) or z3.is_or(t):
                        for ch in t.children():
                            terms(ch)
            terms(t)
        try:
            self.sandbox(run)
        except NoFit:
            pass
        out = []
        for a, b in cand:
            d = self.offdelta(b) - self.offdelta(a)
            lo, hi = (a, b) if d < 0 else (b, a)
            if d:
                if c.entails(le(self.subst(lo, 0), self.subst(hi, 0))):
                    out.append((lo, hi))
        return out

    def try_apply(self):
        c, I = self.c, self.I
        try:
            self.cells = self.moving()
            self.start = [self.get(v) for v in self.cells]
            self.infer()
        except NoFit as e:
            if c.cfg.get("debug"):
                print("element loop:", I.where(self.n), e)
            return False
        self.bounds = self.find_bounds()
        self.maps0 = dict(c.maps)
        rs = self.blocks
        if self.move and c.alias(self.move[0][1], self.move[1][1]) is None:
            return False
        if not self.bounds or self.post:
            return False
        for f in self.invariants(0):
            c.prove(f, "element loop:entry", "model")
        c.res.exits["loop:elements"] = c.res.exits.get("loop:elements", 0) + 1
        j = c.fresh("j")
        for f in self.invariants(j):
            c.assume(f)
        self.at(j)
        self.closed(j)
        if self.iteration() == "exit":
            return True
        # the step: the real body leads from j to j + 1
        after = c.maps
        for f in self.invariants(j + 1):
            c.prove(f, "element loop:bounds", "model")
        lo, hi = self.bounds[0]
        c.prove(AND(sub(self.subst(hi, j + 1), self.subst(lo, j + 1)) < sub(self.subst(hi, j), self.subst(lo, j)),
                    le(0, sub(self.subst(hi, j + 1), self.subst(lo, j + 1)))), "element loop:ends", "term")
        for v, a, d in zip(self.cells, self.start, self.deltas):
            c.prove(eq(self.get(v), add(a, d * (j + 1))), "element loop:locals", "model")
        self.closed(j + 1)
        want, c.maps = c.maps, after
        for n in after:
            if after[n] is want[n]:
                continue
            for r in rs:
                if n == "cons":
                    o = c.anyoff
                    c.prove(eq(after[n].raw(r, o, c.alias), want[n].raw(r, o, c.alias)), "element loop:elements", "model")
                elif n == "tp":
                    c.prove(eq(after[n].raw(r), want[n].raw(r)), "element loop:elements", "model")
                else:
                    raise Unsupported("element loop changes " + n)
            extra = [w for (w, _) in after[n].writes if not any(c.alias(w, r) is True for r in rs) and
                     not any(w is w0 for (w0, _) in self.maps0[n].writes)]
            if extra:
                raise Unsupported("element loop changes another block")
        raise PathEnd()
