"""Loops at sequence level: an inductive invariant is inferred, then proved.

The state at the head of the loop after k >= 1 iterations is described in closed form: integers and positions move by a
constant per iteration, iterators stay canonical, every tree undergoes one operation of one kind per iteration at a
position that moves by a constant, so its contents are the initial contents with one block inserted, erased or assigned.
The constants and the inserted values are read off from trial iterations in a sandbox; bounds between the integers come
from a Houdini loop.  What counts is the proof afterwards: iteration 0 establishes the closed form for k = 1, and an
iteration from the closed form for an arbitrary k >= 1 re-establishes it for k + 1.  A loop that does not fit is unrolled
a few times and reported as undecided.
"""
import z3
from .core import *
from .interp import *
from .seqcore import *

BIG = 1 << 62
OFFSET = 1000000


class NoFit(Exception):
    pass


class Slot:
    __slots__ = ("kind", "cell", "path")

    def __init__(self, kind, cell, path):
        self.kind, self.cell, self.path = kind, cell, path

    def get(self):
        v = self.cell.v
        for p in self.path:
            if not isinstance(v, Rec) or p not in v.f:
                raise NoFit("shape of " + self.cell.name)
            v = v.f[p]
        return v

    def put(self, x):
        if not self.path:
            self.cell.v = x
            return
        v = self.cell.v
        for p in self.path[:-1]:
            v = v.f[p]
        v.f[self.path[-1]] = x

    def name(self):
        return ".".join([self.cell.name] + list(self.path))


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool) or z3.is_expr(v) and z3.is_int(v)


def symbols(t, out=None, seen=None):
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if isc(t):
        return out
    if t.get_id() in seen:
        return out
    seen.add(t.get_id())
    if z3.is_app(t):
        out.add(t.decl().name())
        for ch in t.children():
            symbols(ch, out, seen)
    return out


def sandboxed(t):
    for s in symbols(t):
        if "!" in s:
            try:
                if int(s.rsplit("!", 1)[1]) > OFFSET:
                    return True
            except ValueError:
                pass
    return False


class LoopInfer:
    CACHE = {}
    KP = z3.Int("k_probe")

    def __init__(self, I, n, cond, inc, body, post):
        self.I, self.n, self.cond, self.inc, self.body, self.post = I, n, cond, inc, body, post
        self.L = I.L

    @property
    def c(self):
        return self.I.c

    # ---------------------------------------------------------------- state
    def cells(self):
        out, seen = [], set()

        def add_cell(c):
            if id(c) not in seen:
                seen.add(id(c))
                out.append(c)
                ptrs(c.v)

        def ptrs(v):
            if isinstance(v, LPtr):
                lv(v.lv)
            elif isinstance(v, Rec):
                for x in v.f.values():
                    ptrs(x)

        def lv(v):
            while isinstance(v, LField):
                v = v.base
            if isinstance(v, LVar):
                add_cell(v.cell)
        for fr in self.I.frames:
            if fr.this is not None:
                lv(fr.this)
            for v in fr.vars.values():
                if isinstance(v, Cell):
                    add_cell(v)
                else:
                    lv(v)
        for c in self.L.cells:
            add_cell(c)
        return out

    def snap(self):
        I = self.I
        return ([(c, c.v.copy() if isinstance(c.v, Rec) else c.v) for c in self.cells()],
                [(fr, dict(fr.vars), list(fr.locals)) for fr in I.frames], I.depth, I.handlers, I.active_loop, self.L.save())

    def back(self, st):
        I = self.I
        cells, frames, I.depth, I.handlers, I.active_loop, ghost = st
        I.frames[:] = [fr for fr, _, _ in frames]
        for fr, vs, lo in frames:
            fr.vars, fr.locals = dict(vs), list(lo)
        for c, v in cells:
            c.v = v.copy() if isinstance(v, Rec) else v
        self.L.restore(ghost)

    def slots(self):
        out = []

        def walk(cell, path, v):
            if isinstance(v, Rec):
                if "entry" in v.f and "pos" in v.f:
                    out.append(Slot("iter", cell, path))
                elif "root_" in v.f and "size_pair_" in v.f and "height_pair_" in v.f:
                    out.append(Slot("seq", cell, path))
                elif v.f:
                    for k, x in v.f.items():
                        walk(cell, path + (k,), x)
                else:
                    out.append(Slot("other", cell, path))
            elif is_int(v):
                out.append(Slot("int", cell, path))
            elif isinstance(v, ExtPtr):
                out.append(Slot("ext", cell, path))
            else:
                out.append(Slot("other", cell, path))
        for c in self.cells():
            walk(c, (), c.v)
        return out

    # ---------------------------------------------------------------- one iteration
    def iteration(self):
        I = self.I
        I.active_loop += 1
        try:
            if not self.post and self.cond is not None and not I.truth(I.ev(self.cond), I.where(self.n)):
                return "exit"
            try:
                I.exec(self.body)
            except Break:
                return "exit"
            except Continue:
                pass
            if self.inc is not None:
                I.ev(self.inc)
            if self.post and not I.truth(I.ev(self.cond), I.where(self.n)):
                return "exit"
            return "back"
        finally:
            I.active_loop -= 1

    def trial(self, setup, callback):
        """every path of one iteration in a sandbox; callback at those that reach the back edge"""
        I, L = self.I, self.L
        outer = I.c
        st = self.snap()
        asserts = list(outer.s.assertions())
        work, n, hits = [([], [])], 0, 0
        tf = I.trial_frames
        I.trial_frames = tf + (I.frames[-1],)
        try:
            while work:
                n += 1
                if n > 400:
                    raise NoFit("too many paths")
                dec, log = work.pop()
                sub = Ctx(Result(), dec, log, dict(outer.cfg, debug=False, blame=None))
                sub.fresh_n = outer.fresh_n + OFFSET
                for a in asserts:
                    sub.s.add(a)
                I.c = L.c = sub
                self.back(st)
                try:
                    setup()
                    if self.iteration() == "back" and sub.feasible():
                        hits += 1
                        callback()
                except (PathEnd, Return, CppThrow):
                    pass
                except Unsupported as e:
                    if sub.feasible():
                        raise NoFit(str(e))
                finally:
                    outer.res.queries += sub.res.queries
                    outer.res.solver_s += sub.res.solver_s
                work.extend(sub.alts)
        finally:
            I.trial_frames = tf
            I.c = L.c = outer
            self.back(st)
        return hits

    # ---------------------------------------------------------------- comparison of values
    def same(self, a, b):
        c = self.c
        if isinstance(a, Rec) and isinstance(b, Rec):
            return set(a.f) == set(b.f) and all(self.same(a.f[k], b.f[k]) for k in a.f)
        if is_int(a) and is_int(b):
            e = eq(a, b)
            return e if isinstance(e, bool) else c.entails(e)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return self.same(a.ref, b.ref) and self.same(a.off, b.off)
        if isinstance(a, ExtPtr) and isinstance(b, ExtPtr):
            return a.arr is b.arr and self.same(a.off, b.off)
        if isinstance(a, RootPtr) and isinstance(b, RootPtr):
            return a.tree is b.tree
        if z3.is_expr(a) and z3.is_expr(b):
            return a.eq(b)
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, LPtr) and isinstance(b, LPtr):
            return True if a is b else self.I.hooks.same_object(self.I, a.lv, b.lv) is True
        return a is b

    def delta(self, a, b):
        d = S(sub(b, a))
        if isc(d):
            return d
        c = self.c
        if c.s.check() != z3.sat:
            return None
        v = c.s.model().eval(d, True)
        if not z3.is_int_value(v):
            return None
        v = v.as_long()
        return v if c.entails(d == v) else None

    def canon_tree(self, it):
        """index of the tree in which the iterator is canonical, or None"""
        L = self.L
        try:
            sp = it.f["entry"].f["segment"].f["pointer"]
        except (KeyError, AttributeError):
            return None
        if not isinstance(sp, Ptr) or isc(sp.ref):
            return None
        d = L.decode_ptr(sp.ref)
        if d is None:
            return None
        t = L.vertree.get(d[0])
        if t is None or t.ver != d[0]:
            return None
        f = L.iter_is(it, t.ver, it.f["pos"])
        if f is True or f is not False and self.c.entails(f):
            return L.trees.index(t)
        return None

    # ---------------------------------------------------------------- inference
    def infer(self):
        L = self.L
        slots = self.slots()
        pre = [(s.get().copy() if isinstance(s.get(), Rec) else s.get()) for s in slots]
        ntree = len(L.trees)
        loglen = [len(t.log) for t in L.trees]
        owner0 = [t.owner for t in L.trees]
        streams0 = [s.cur for s in L.streams]
        shapes, ops0, owners, sdelta = [None] * len(slots), [None] * ntree, [None] * ntree, [None] * len(L.streams)
        first = [True]

        def merge(lst, i, v):
            if first[0]:
                lst[i] = v
            elif lst[i] != v:
                lst[i] = ("poison",)

        def shape(s, a):
            b = s.get()
            if s.kind == "int" and is_int(b):
                d = self.delta(a, b)
                return ("poison",) if d is None else ("int", d)
            if s.kind == "ext" and isinstance(b, ExtPtr) and a.arr is b.arr:
                d = self.delta(a.off, b.off)
                return ("poison",) if d is None else ("ext", d)
            if s.kind == "iter":
                if self.same(a, b):
                    return ("iter", self.canon_tree(b), 0, True)
                t = self.canon_tree(b)
                d = self.delta(a.f["pos"], b.f["pos"])
                return ("poison",) if t is None or d is None else ("iter", t, d, False)
            if s.kind == "seq":
                try:
                    r = b.f["root_"]
                    if isinstance(r, RootPtr) and self.same(a.f["size_pair_"].f["base"], b.f["size_pair_"].f["base"]) \
                       and self.same(a.f["height_pair_"].f["base"], b.f["height_pair_"].f["base"]):
                        f = AND(eq(b.f["size_pair_"].f["sz"], r.tree.len), eq(b.f["height_pair_"].f["ht"], r.tree.ht))
                        if f is True or f is not False and self.c.entails(f):
                            return ("seq", L.trees.index(r.tree) if r.tree in L.trees[:ntree] else None)
                except KeyError:
                    pass
                return ("other",) if self.same(a, b) else ("poison",)
            return ("other",) if self.same(a, b) else ("poison",)

        def at_back():
            if len(L.trees) != ntree:
                raise NoFit("containers created in the loop")
            for i, (s, a) in enumerate(zip(slots, pre)):
                merge(shapes, i, shape(s, a))
            for i, t in enumerate(L.trees):
                lg = t.log[loglen[i]:]
                if len(lg) > 1 or lg and lg[0][0] not in ("ins", "del", "asg") or not t.alive and not lg:
                    if lg or t.alive:
                        raise NoFit("operations of one iteration")
                o = lg[0] if lg else None
                if first[0]:
                    ops0[i] = o
                    owners[i] = t.owner
                else:
                    if (o is None) != (ops0[i] is None) or o and o[0] != ops0[i][0]:
                        raise NoFit("operations differ")
                    if owners[i] is not t.owner and (owners[i] is None or t.owner is None or not self.same(owners[i], t.owner)):
                        raise NoFit("owner")
            for i, s in enumerate(L.streams):
                d = self.delta(streams0[i], s.cur)
                if d is None:
                    raise NoFit("source position")
                merge(sdelta, i, d)
            first[0] = False

        if not self.trial(lambda: None, at_back):
            return None                                   # never iterates
        for i, o in enumerate(owners):
            if o is not None and sandboxed(o):
                raise NoFit("owner")
        for (s, sh) in zip(slots, shapes):
            if s.kind == "seq" and (sh[0] == "poison" or sh[0] == "seq" and sh[1] is None):
                raise NoFit("container fields")
        if any(isinstance(d, tuple) for d in sdelta):
            raise NoFit("source position")
        tpl = {"shapes": shapes, "owners": owners, "streams": sdelta, "ops": [None] * ntree, "cands": [],
               "changed": [o is not None and o[0] in ("ins", "del") for o in ops0], "kinds": [o and o[0] for o in ops0]}
        tpl["exprs"] = self.exprs(slots, shapes, pre, tpl)
        self.find_ops(tpl, ops0, slots, pre)
        tpl["cands"] = self.candidates(tpl)
        self.houdini(tpl)
        self.validate(tpl)
        return tpl

    def exprs(self, slots, shapes, pre, tpl):
        """(initial value, change per iteration)"""
        out = [(0, 0), (BIG, 0)]
        for s, sh, a in zip(slots, shapes, pre):
            if sh[0] == "int":
                out.append((a, sh[1]))
            elif sh[0] == "ext":
                out.append((a.off, sh[1]))
                out.append((a.arr.n, 0))
            elif sh[0] == "iter":
                out.append((a.f["pos"], sh[2]))
        for i, s in enumerate(self.L.streams):
            out.append((s.cur, tpl["streams"][i]))
            out.append((s.n, 0))
        for i, t in enumerate(self.L.trees):
            out.append((t.len, {"ins": 1, "del": -1}.get(tpl["kinds"][i], 0)))
        seen, res = set(), []
        for (a, d) in out:
            if isinstance(a, bool) or not is_int(a):
                continue
            a = S(a)
            k = (key(a), d)
            if k not in seen:
                seen.add(k)
                res.append((a, d))
        return res

    def diff(self, cand, k):
        (a, da), (b, db) = cand
        return S(add(sub(a, b), mul(da - db, k)))

    def candidates(self, tpl):
        ex = tpl["exprs"]
        cands, seen = [], {}
        for x in ex:
            for y in ex:
                if x[1] != y[1]:
                    if (isc(y[0]) and y[0] == BIG) or (isc(x[0]) and x[0] == 0 and y[1] > 0) or (isc(x[0]) and x[0] == BIG and y[1] < 0):
                        continue
                    f = self.diff((x, y), self.KP)
                    if key(f) not in seen:
                        seen[key(f)] = f
                        cands.append((x, y))
        keep = [True] * len(cands)

        def cb():
            self.sift([(i, self.diff(cd, 1) >= 0) for i, cd in enumerate(cands) if keep[i]], lambda i: keep.__setitem__(i, False))
        self.trial(lambda: None, cb)
        return [cd for cd, k in zip(cands, keep) if k]

    def closed(self, op, f, k):
        kind, p0, d, V = op
        val = (lambda i: V(i)) if V else None
        if kind == "ins":
            if d == 1:
                return lambda j: ITE(lt(j, p0), f(j), ITE(lt(j, add(p0, k)), val(sub(j, p0)), f(sub(j, k))))
            return lambda j: ITE(lt(j, p0), f(j), ITE(lt(j, add(p0, k)), val(sub(sub(add(p0, k), 1), j)), f(sub(j, k))))
        if kind == "del":
            q = p0 if d == 0 else S(add(sub(p0, k), 1))
            return lambda j: ITE(lt(j, q), f(j), f(add(j, k)))
        if d == 1:
            return lambda j: ITE(AND(le(p0, j), lt(j, add(p0, k))), val(sub(j, p0)), f(j))
        return lambda j: ITE(AND(lt(sub(p0, k), j), le(j, p0)), val(sub(p0, j)), f(j))

    def find_ops(self, tpl, ops0, slots, pre):
        L = self.L
        todo = [i for i, k in enumerate(tpl["kinds"]) if k]
        if not todo:
            return
        loglen = [len(t.log) for t in L.trees]
        p0s = {}
        # positions: relative to a known integer
        for i in todo:
            p0s[i] = None
        got = {i: None for i in todo}

        def base(i, p):
            for (a, d) in tpl["exprs"]:
                for off in (0, -1, 1):
                    q = S(add(a, off))
                    e = eq(q, p)
                    if e is True or e is not False and self.c.entails(e):
                        yield q

        cand = {i: None for i in todo}

        def cb0():
            for i in todo:
                p = L.trees[i].log[loglen[i]][1]
                if cand[i] is None:
                    cand[i] = list(base(i, p))
                else:
                    cand[i] = [q for q in cand[i] if eq(q, p) is True or self.c.entails(eq(q, p))]
        self.trial(lambda: None, cb0)
        for i in todo:
            if not cand[i]:
                raise NoFit("position of the operation")
            p0s[i] = cand[i][0]
        kp = self.KP
        for rnd in range(3):
            vals, ds = {i: None for i in todo}, {i: None for i in todo}
            bad = set()

            def cb():
                for i in todo:
                    lg = L.trees[i].log[loglen[i]:]
                    lg = [x for x in lg if x[0] != "loop"]
                    if len(lg) != 1 or lg[0][0] != tpl["kinds"][i]:
                        raise NoFit("operations of a later iteration")
                    _, p, v = lg[0]
                    opts = ds[i] if ds[i] is not None else [0, 1, -1]
                    ds[i] = [d for d in opts if self.entailed(eq(S(add(p0s[i], mul(d, kp))), p))]
                    if v is not None:
                        v = S(v)
                        if vals[i] is None:
                            vals[i] = v
                        elif not self.entailed(eq(vals[i], v)):
                            if self.clean(v) and not self.clean(vals[i]):
                                vals[i] = v
                            else:
                                bad.add(i)
            hits = self.trial(lambda: self.apply(tpl, kp, assume=True), cb)
            if not hits:
                # a second iteration is impossible: any closed form is right
                for i in todo:
                    ds[i], vals[i] = [1 if tpl["kinds"][i] != "del" else 0], z3.IntVal(0)
                    bad.discard(i)
            for i in todo:
                allowed = {"ins": (0, 1), "del": (0, -1), "asg": (1, -1)}[tpl["kinds"][i]]
                d = [x for x in ds[i] or [] if x in allowed]
                if not d:
                    raise NoFit("position of the operation")
                if i in bad:
                    continue
                v = vals[i]
                if tpl["kinds"][i] == "del":
                    tpl["ops"][i] = ("del", p0s[i], d[0], None)
                elif self.clean(v):
                    tpl["ops"][i] = (tpl["kinds"][i], p0s[i], d[0], self.valfn(v))
            if all(tpl["ops"][i] for i in todo):
                return
        raise NoFit("value of the operation")

    def valfn(self, v):
        if isc(v):
            return lambda i: v
        return lambda i: z3.substitute(v, (self.KP, z3.IntVal(i) if isc(i) else i))

    def clean(self, v):
        return not sandboxed(v) and not any(s.startswith("opaque_content") for s in symbols(v))

    def entailed(self, f):
        return f is True or f is not False and self.c.entails(f)

    def sift(self, items, drop):
        """report the formulas that are not entailed; models throw out many at a time"""
        live = []
        for i, f in items:
            if f is False:
                drop(i)
            elif f is not True:
                live.append((i, f))
        s = self.c.s
        while live:
            s.push()
            s.add(z3.Or([z3.Not(f) for _, f in live]))
            self.c.res.queries += 1
            r = s.check()
            m = s.model() if r == z3.sat else None
            s.pop()
            if r == z3.unsat:
                return
            if m is None:
                for i, _ in live:
                    drop(i)
                return
            keep = []
            for i, f in live:
                if z3.is_false(m.eval(f, True)):
                    drop(i)
                else:
                    keep.append((i, f))
            if len(keep) == len(live):
                for i, _ in live:
                    drop(i)
                return
            live = keep

    def houdini(self, tpl):
        kp = self.KP
        while True:
            drop = set()

            def cb():
                self.sift([(i, self.diff(cd, add(kp, 1)) >= 0) for i, cd in enumerate(tpl["cands"]) if i not in drop], drop.add)
            self.trial(lambda: self.apply(tpl, kp, assume=True), cb)
            if not drop:
                return
            tpl["cands"] = [cd for i, cd in enumerate(tpl["cands"]) if i not in drop]

    def validate(self, tpl):
        """the proof the real path will make, tried first"""
        st = self.snap()
        bad = []

        def cb(k):
            items = self.inv_after(tpl, k, st)
            self.sift([(i, f) for i, (f, _) in enumerate(items)], lambda i: bad.append(items[i][1]))
        self.trial(lambda: None, lambda: cb(1))
        self.trial(lambda: self.apply(tpl, self.KP, assume=True), lambda: cb(add(self.KP, 1)))
        if bad:
            raise NoFit("not inductive: " + bad[0])

    # ---------------------------------------------------------------- closed form
    def apply(self, tpl, k, assume):
        """put the state after k iterations in place of the initial one"""
        L, c = self.L, self.c
        c.assume(k >= 1)
        slots = self.slots()
        shapes = tpl["shapes"]
        if len(slots) != len(shapes):
            raise NoFit("shape")
        self.pre = [(s.get().copy() if isinstance(s.get(), Rec) else s.get()) for s in slots]
        for cd in tpl["cands"]:
            c.assume(self.diff(cd, k) >= 0)
        for i, t in enumerate(L.trees):
            kind = tpl["kinds"][i]
            if not kind:
                continue
            t.owner = tpl["owners"][i]
            op = tpl["ops"][i]
            f = t.content
            if op is None:
                g = z3.Function("opaque_content%d" % i, z3.IntSort(), z3.IntSort())
                t.content = (lambda g: lambda j: g(z3.IntVal(j) if isc(j) else j))(g)
            else:
                t.content = self.closed(op, f, k)
            t.log.append(("loop", 0, None))
            if kind != "asg":
                t.len = S(add(t.len, k if kind == "ins" else mul(-1, k)))
                c.assume(le(0, t.len))
                L.bump(t)
        for i, s in enumerate(L.streams):
            s.cur = S(add(s.cur, mul(tpl["streams"][i], k)))
        for s, sh, a in zip(slots, shapes, self.pre):
            if sh[0] == "int":
                s.put(S(add(a, mul(sh[1], k))))
            elif sh[0] == "ext":
                s.put(ExtPtr(a.arr, S(add(a.off, mul(sh[1], k)))))
            elif sh[0] == "iter":
                if not (sh[3] and sh[2] == 0 and (sh[1] is None or not tpl["changed"][sh[1]])):
                    if sh[1] is None or sh[3]:
                        continue                          # left as it was, possibly stale
                    t = L.trees[sh[1]]
                    s.put(L.canonical(t.ver, S(add(a.f["pos"], mul(sh[2], k)))))
            elif sh[0] == "seq":
                v = s.get()
                t = L.trees[sh[1]]
                v.f["root_"] = RootPtr(t)
                v.f["size_pair_"].f["sz"] = t.len
                v.f["height_pair_"].f["ht"] = t.ht
            elif sh[0] == "poison":
                s.put(UNINIT)

    def inv_after(self, tpl, k, st):
        """[(formula, name)]: the state now is the closed form for k, starting from snapshot st"""
        L, c = self.L, self.c
        cells, frames, _, _, _, ghost = st
        old = {id(cell): v for cell, v in cells}
        tree0 = {id(t): s for t, s in ghost[5]}
        stream0 = [cur for _, cur in ghost[6]]
        out = []
        if len(L.trees) != len(tpl["kinds"]):
            return [(False, "containers created in the loop")]
        for i, t in enumerate(L.trees):
            ln0, f0, ow0, alive0, ver0, ht0 = tree0[id(t)][:6]
            kind = tpl["kinds"][i]
            out.append((t.alive == alive0, t.name + ":exists"))
            ow = tpl["owners"][i] if kind else ow0
            if ow is None or t.owner is None:
                out.append((ow is t.owner, t.name + ":owner"))
            else:
                out.append((eq(t.owner, ow), t.name + ":owner"))
            if not kind:
                out.append((t.ver == ver0, t.name + ":structure"))
                if t.content is not f0:
                    j = c.fresh("j")
                    out.append((eq(t.content(j), f0(j)), t.name + ":elements"))
                continue
            ln = S(add(ln0, mul({"ins": 1, "del": -1, "asg": 0}[kind], k)))
            out.append((eq(t.len, ln), t.name + ":size"))
            if kind == "asg":
                out.append((t.ver == ver0, t.name + ":structure"))
            j = c.fresh("j")
            g = self.closed(tpl["ops"][i], f0, k)
            out.append((IMP(AND(j >= 0, lt(j, ln)), eq(t.content(j), g(j))), t.name + ":elements"))
        for i, s in enumerate(L.streams):
            out.append((eq(s.cur, S(add(stream0[i], mul(tpl["streams"][i], k)))), "source position"))
        for cd in tpl["cands"]:
            out.append((self.diff(cd, k) >= 0, "bound"))
        # the slots, in the order of the initial state
        slots = self.slots_of(cells)
        for s, sh in zip(slots, tpl["shapes"]):
            a = self.nav(old[id(s.cell)], s.path)
            if sh[0] == "poison":
                continue
            try:
                b = s.get()
            except NoFit:
                out.append((False, s.name()))
                continue
            if sh[0] == "int":
                out.append((eq(b, S(add(a, mul(sh[1], k)))) if is_int(b) else False, s.name()))
            elif sh[0] == "ext":
                out.append((eq(b.off, S(add(a.off, mul(sh[1], k)))) if isinstance(b, ExtPtr) and b.arr is a.arr else False, s.name()))
            elif sh[0] == "iter":
                if sh[3]:
                    out.append((self.same(a, b), s.name()))
                else:
                    t = L.trees[sh[1]]
                    out.append((L.iter_is(b, t.ver, S(add(a.f["pos"], mul(sh[2], k)))), s.name()))
            elif sh[0] == "seq":
                t = L.trees[sh[1]]
                try:
                    ok = b.f["root_"].tree is t and self.same(a.f["size_pair_"].f["base"], b.f["size_pair_"].f["base"]) \
                        and self.same(a.f["height_pair_"].f["base"], b.f["height_pair_"].f["base"])
                    out.append((AND(ok, eq(b.f["size_pair_"].f["sz"], t.len), eq(b.f["height_pair_"].f["ht"], t.ht)), s.name()))
                except (KeyError, AttributeError):
                    out.append((False, s.name()))
            else:
                out.append((self.same(a, b), s.name()))
        return out

    def nav(self, v, path):
        for p in path:
            v = v.f[p]
        return v

    def slots_of(self, cells):
        """slots as they were at the snapshot"""
        out = []

        def walk(cell, path, v):
            if isinstance(v, Rec):
                if "entry" in v.f and "pos" in v.f:
                    out.append(Slot("iter", cell, path))
                elif "root_" in v.f and "size_pair_" in v.f and "height_pair_" in v.f:
                    out.append(Slot("seq", cell, path))
                elif v.f:
                    for k, x in v.f.items():
                        walk(cell, path + (k,), x)
                else:
                    out.append(Slot("other", cell, path))
            elif is_int(v):
                out.append(Slot("int", cell, path))
            elif isinstance(v, ExtPtr):
                out.append(Slot("ext", cell, path))
            else:
                out.append(Slot("other", cell, path))
        for c, v in cells:
            walk(c, (), v)
        return out

    # ---------------------------------------------------------------- entry point
    def run(self):
        I, L = self.I, self.L
        L.loopcount += 1
        c = self.c
        nested = I.active_loop > 0
        k = (c.cfg.get("ukey"), L.name, tuple(map(str, c.dec[:c.ndec])), L.loopcount, c.fresh_n)
        if k in self.CACHE and not nested:
            tpl = self.CACHE[k]
        else:
            try:
                tpl = self.infer()
            except NoFit as e:
                if c.cfg.get("debug"):
                    print("LOOP", I.where(self.n), "no closed form:", e)
                tpl = None
            if not nested:
                self.CACHE[k] = tpl
        if tpl is None:
            I.unroll(self.n, self.cond, self.inc, self.body, self.post)
            return
        st = self.snap()
        n = 0
        if c.free_choice("loop: a later iteration"):
            n = c.fresh("iterations")
            self.apply(tpl, n, assume=True)
        if not c.feasible():
            raise PathEnd()
        c.res.exits["loop"] = c.res.exits.get("loop", 0) + 1
        if self.iteration() == "exit":
            return
        # a proved bound that shrinks with every iteration: the loop ends
        ends = [cd for cd in tpl["cands"] if cd[0][1] - cd[1][1] < 0 and not any(isc(x[0]) and x[0] == BIG for x in cd)]
        c.prove(bool(ends), "loop:ends", "term")
        for f, what in self.inv_after(tpl, S(add(n, 1)), st):
            c.prove(f, "loop:%s:%s" % ("first" if isc(n) else "step", what), "loopinv")
        raise PathEnd()
