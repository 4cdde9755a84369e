"""Verification-condition engine: symbolic execution of clang ASTs with contracts, discharged by z3.

One *run* of a function explores its paths by deterministic re-execution (a list of decisions per path).  Every
obligation (callee preconditions, loop invariants, postconditions, memory safety) is sent to the solver under the
path condition; quantified facts are instantiated at the references the path touches and proved at the touched
references plus one arbitrary reference.
"""
import sys, time
import z3
from .frontend import ty, params_of, body_of, has_body

sys.setrecursionlimit(20000)

NODE, SEG = 1, 2
MOVED = -1
U64 = 1 << 64
I63 = 1 << 63


class Unsupported(Exception):
    """the code left the subset / the contracts no longer fit: undecided, never a violation"""


class PathEnd(Exception):
    pass


class CppThrow(Exception):
    def __init__(self, what):
        self.what = what


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


# ---------------------------------------------------------------- terms
def isc(x):
    return isinstance(x, (int, bool))


def key(x):
    return ('c', int(x)) if isc(x) else x.get_id()


def add(a, b):
    if isc(a) and isc(b):
        return a + b
    if isc(b) and b == 0:
        return a
    if isc(a) and a == 0:
        return b
    return z3.simplify(a + b)


def sub(a, b):
    if isc(a) and isc(b):
        return a - b
    if isc(b) and b == 0:
        return a
    return z3.simplify(a - b)


def mul(a, b):
    if isc(a) and isc(b):
        return a * b
    if not isc(a) and not isc(b):
        raise Unsupported("nonlinear product")
    return z3.simplify(a * b)


def unc(x):
    """python int if the term is a numeral"""
    if isc(x):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def eq(a, b):
    if isc(a) and isc(b):
        return a == b
    if not isc(a) and not isc(b) and a.eq(b):
        return True
    return a == b


def ne(a, b):
    r = eq(a, b)
    return (not r) if isinstance(r, bool) else z3.Not(r)


def lt(a, b):
    return a < b


def le(a, b):
    return a <= b


def AND(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = AND(*x)
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def OR(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = OR(*x)
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def NOT(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def IMP(a, b):
    if a is True:
        return b
    if a is False or b is True:
        return True
    if b is False:
        return NOT(a)
    return z3.Implies(a, b)


def ITE(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isc(a) and isc(b) and a == b:
        return a
    if not isc(a) and not isc(b) and a.eq(b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or (not isc(a) and z3.is_bool(a)):
        return z3.If(c, z3.BoolVal(a) if isinstance(a, bool) else a, z3.BoolVal(b) if isinstance(b, bool) else b)
    return z3.If(c, a, b)


def SUM(xs):
    r = 0
    for x in xs:
        if isc(x) and x == 0:
            continue
        r = x if (isc(r) and r == 0) else r + x
    return r


# ---------------------------------------------------------------- heap maps
class Map:
    """total map reference -> value: an uninterpreted base function plus a list of updates"""
    __slots__ = ("base", "writes", "sort")

    def __init__(self, base, sort, writes=()):
        self.base, self.sort, self.writes = base, sort, writes

    def write(self, r, v):
        w = self.writes
        if w and key(w[-1][0]) == key(r):
            w = w[:-1]
        return Map(self.base, self.sort, w + ((r, v),))

    def baseval(self, r):
        if callable(self.base) and not isinstance(self.base, z3.FuncDeclRef):
            return self.base(r)
        return self.base(z3.IntVal(r) if isc(r) else r)

    def raw(self, r):
        k = key(r)
        rest = []
        v = None
        for (w, val) in reversed(self.writes):
            if key(w) == k:
                v = val
                break
            if isc(w) and isc(r):
                continue
            rest.append((w, val))
        if v is None:
            v = self.baseval(r)
        for (w, val) in reversed(rest):
            v = ITE(eq(r, w), val, v)
        return v

    def written(self):
        out = {}
        for (w, _) in self.writes:
            out[key(w)] = w
        return out


class Map2:
    """total map (reference, offset) -> bool: a base predicate plus updates of ranges of one block"""
    __slots__ = ("base", "writes", "sort")

    def __init__(self, base, writes=()):
        self.base, self.sort, self.writes = base, "range", writes

    def write(self, r, lo, hi, v):
        return Map2(self.base, self.writes + ((r, (lo, hi, v)),))

    def raw(self, r, o, alias=None):
        v = None
        pend = []
        for (w, (lo, hi, val)) in reversed(self.writes):
            same = True if key(w) == key(r) else alias(w, r) if alias else None
            if same is False:
                continue
            at = AND(True if same else eq(w, r), le(lo, o), lt(o, hi))
            at = unc(at if isinstance(at, bool) else z3.simplify(at))
            if at is True:
                v = val
                break
            if at is not False:
                pend.append((at, val))
        if v is None:
            v = self.base(z3.IntVal(r) if isc(r) else r, z3.IntVal(o) if isc(o) else o)
        for (at, val) in reversed(pend):
            v = ITE(at, val, v)
        return v


class NodeMap:
    """total map (node, index) -> integer that is never written: the children of a node whose capacity is a symbol"""
    __slots__ = ("base", "writes", "sort")

    def __init__(self, base):
        self.base, self.sort, self.writes = base, "node", ()

    def write(self, *a):
        raise Unsupported("a node of any capacity is written")

    def raw(self, r, j):
        return self.base(z3.IntVal(r) if isc(r) else r, z3.IntVal(j) if isc(j) else j)

    baseval = None


class State:
    """immutable snapshot of all maps"""

    def __init__(self, maps):
        self.m = maps

    def rd(self, name, r):
        return self.m[name].raw(r)

    def rd2(self, name, r, o):
        return self.m[name].raw(r, o)


class Fact:
    """a formula for every reference, over the state it was captured in"""

    def __init__(self, name, cat, fn):
        self.name, self.cat, self.fn = name, cat, fn


# ---------------------------------------------------------------- path context
class Result:
    def __init__(self):
        self.obls = []          # (name, cat, status, detail)
        self.paths = 0
        self.exits = {}         # exit label -> number of feasible paths reaching it
        self.queries = 0
        self.solver_s = 0.0
        self.unsupported = []
        self.assumed = set()
        self.bodies = set()     # functions whose body was executed
        self.contract_calls = set()   # functions called through their contract
        self.smt = []           # sampled discharged queries for the cross-check

    def merge(self, o):
        self.obls += o.obls
        self.paths += o.paths
        for k, v in o.exits.items():
            self.exits[k] = self.exits.get(k, 0) + v
        self.queries += o.queries
        self.solver_s += o.solver_s
        self.unsupported += [u for u in o.unsupported if " bits: " not in u or u not in self.unsupported]
        self.assumed |= o.assumed
        self.smt += o.smt
        self.bodies |= o.bodies
        self.contract_calls |= o.contract_calls


class Ctx:
    TIMEOUT = 20000

    def __init__(self, res, decisions, log, cfg, sample=None):
        self.res = res
        self.dec = list(decisions)
        self.ndec = 0
        self.log = list(log)
        self.nlog = 0
        self.cfg = cfg
        self.alts = []
        self.s = z3.SimpleSolver()
        self.s.set("arith.solver", 2)
        self.s.set("timeout", self.TIMEOUT)
        self.fresh_n = 0
        self.maps = {}
        self.facts = []
        self.refs = {}
        self.offs = {}          # offsets into segments at which quantified facts are instantiated (symbolic capacity)
        self.at_offs = None     # restricts the offsets while facts are instantiated at a new one
        self.ghost = {}
        self.sample = sample
        self.trace = []
        self.in_fact = False
        self.alias_cache = {}
        self.on_write = None

    # naming
    def fresh(self, name):
        self.fresh_n += 1
        return z3.Int("%s!%d" % (name, self.fresh_n))

    def fresh_bool(self, name):
        self.fresh_n += 1
        return z3.Bool("%s!%d" % (name, self.fresh_n))

    def fresh_map(self, name, sort="int"):
        self.fresh_n += 1
        if sort == "node":
            return NodeMap(z3.Function("%s!%d" % (name, self.fresh_n), z3.IntSort(), z3.IntSort(), z3.IntSort()))
        if sort == "range":
            return Map2(z3.Function("%s!%d" % (name, self.fresh_n), z3.IntSort(), z3.IntSort(), z3.BoolSort()))
        return Map(z3.Function("%s!%d" % (name, self.fresh_n), z3.IntSort(),
                               z3.BoolSort() if sort == "bool" else z3.IntSort()), sort)

    # solver
    def query(self, f):
        """status of (path condition and f); deterministic log for re-execution"""
        if f is True or f is False:
            if f is False:
                return "unsat"
        if self.nlog < len(self.log):
            r = self.log[self.nlog]
            self.nlog += 1
            return r
        t = time.time()
        self.s.push()
        if f is not True:
            self.s.add(f)
        r = str(self.s.check())
        self.s.pop()
        self.res.solver_s += time.time() - t
        self.res.queries += 1
        self.log.append(r)
        self.nlog += 1
        return r

    @property
    def replaying(self):
        return self.nlog < len(self.log)

    def assume(self, f):
        if f is True:
            return
        if f is False:
            self.s.add(z3.BoolVal(False))
            return
        self.s.add(f)

    def entails(self, f):
        if f is True:
            return True
        if f is False:
            return self.query(True) == "unsat"
        return self.query(z3.Not(f)) == "unsat"

    def _decide(self, options):
        """options: list of feasible option values (>=1)"""
        if len(options) == 1:
            return options[0]
        if self.ndec < len(self.dec):
            d = self.dec[self.ndec]
        else:
            d = options[0]
            for o in options[1:]:
                self.alts.append((self.dec + [o], list(self.log[:self.nlog])))
            self.dec.append(d)
        self.ndec += 1
        return d

    def branch(self, c, why=""):
        c = unc(c)
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        t = self.query(c)
        if t == "unsat":
            self.assume(z3.Not(c))
            return False
        f = self.query(z3.Not(c))
        if f == "unsat":
            self.assume(c)
            return True
        d = self._decide([True, False])
        self.assume(c if d else z3.Not(c))
        self.trace.append(("br", why, d))
        return d

    def free_choice(self, why, options=(False, True)):
        d = self._decide(list(options))
        self.trace.append(("ch", why, d))
        return d

    def concretize(self, t, lo, hi, why=""):
        """t is known to be in lo..hi: fork on its value"""
        t = unc(t)
        if isc(t):
            return t
        opts = []
        for v in range(lo, hi + 1):
            if self.query(t == v) != "unsat":
                opts.append(v)
        if not opts:
            raise PathEnd()
        if not self.entails(z3.And(t >= lo, t <= hi)):
            raise Unsupported("value not bounded by %d..%d: %s" % (lo, hi, why))
        v = self._decide(opts)
        self.assume(t == v)
        self.trace.append(("val", why, v))
        return v

    def feasible(self):
        return self.query(True) != "unsat"

    # obligations
    def prove(self, f, name, cat):
        """discharge f under the path condition, then assume it"""
        f = unc(f)
        if self.replaying:
            if f is not True:
                self.query(NOT(f) if f is not False else True)
                self.assume(f)
            return
        if f is True:
            self.res.obls.append((name, cat, "ok", None))
            return
        nf = NOT(f)
        t = time.time()
        r = self.query(nf if nf is not False else True)
        if r == "unsat":
            self.res.obls.append((name, cat, "ok", None))
            if self.sample is not None:
                self.sample(self, nf, name)
        else:
            detail = None
            if r == "sat":
                detail = self.explain(nf)
            self.res.obls.append((name, cat, "fail" if r == "sat" else "unknown", detail))
            if self.cfg.get("debug"):
                print("OBL", r, name, cat, "%.2fs" % (time.time() - t), detail, flush=True)
        self.assume(f)

    def prove_group(self, items, ref=None):
        """discharge a list of obligations together; one by one when that fails"""
        conj = AND([f for f, _, _ in items])
        conj = unc(conj)
        if conj is True or self.query(NOT(conj) if conj is not False else True) == "unsat":
            if not self.replaying:
                for f, name, cat in items:
                    self.res.obls.append((name, cat, "ok", None))
            if self.sample is not None and conj is not True:
                self.sample(self, NOT(conj), items[0][1])
            self.assume(conj)
            return
        if self.cfg.get("debug"):
            print("at reference", ref)
        for f, name, cat in items:
            self.prove(f, name, cat)

    def blame(self, f, model, out):
        if z3.is_and(f):
            for ch in f.children():
                self.blame(ch, model, out)
        elif z3.is_implies(f):
            if z3.is_true(model.eval(f.arg(0), True)):
                self.blame(f.arg(1), model, out)
        elif z3.is_app_of(f, z3.Z3_OP_ITE):
            self.blame(f.arg(1) if z3.is_true(model.eval(f.arg(0), True)) else f.arg(2), model, out)
        elif not z3.is_true(model.eval(f, True)):
            out.append(f)

    def explain(self, nf):
        if self.cfg.get("blame") and not isinstance(nf, bool):
            self.s.push()
            self.s.add(nf)
            self.s.check()
            m = self.s.model()
            out = []
            self.blame(nf.arg(0) if z3.is_not(nf) else nf, m, out)
            self.s.pop()
            for f in out[:4]:
                print("   BLAME", str(f)[:int(self.cfg["blame"])])
        return {"path": ["%s:%s=%s" % x for x in self.trace][-40:]}

    # quantified facts
    def touch(self, r):
        r = unc(r)
        if isc(r):
            return
        k = r.get_id()
        if k in self.refs:
            return
        self.refs[k] = r
        for f in self.facts:
            self.assume(f.fn(r))

    def touch_off(self, o):
        """an offset into segments: what is known of all offsets holds for it"""
        o = unc(o)
        k = key(o)
        if k in self.offs:
            return
        self.offs[k] = o
        old, self.at_offs = self.at_offs, [o]
        try:
            for r in list(self.refs.values()):
                for f in self.facts:
                    self.assume(f.fn(r))
        finally:
            self.at_offs = old

    def offsets(self):
        return self.at_offs if self.at_offs is not None else list(self.offs.values())

    def add_fact(self, fact):
        self.facts.append(fact)
        for r in list(self.refs.values()):
            self.assume(fact.fn(r))

    def snap(self):
        return State(dict(self.maps))

    def alias(self, a, b):
        """True / False / None (unknown) for a == b on this path"""
        a, b = unc(a), unc(b)
        if isc(a) and isc(b):
            return a == b
        if key(a) == key(b):
            return True
        k = (key(a), key(b))
        r = self.alias_cache.get(k)
        if r is not None:
            return r
        e = (a == b)
        if self.query(e) == "unsat":
            r = False
        elif self.query(z3.Not(e)) == "unsat":
            r = True
        else:
            return None
        self.alias_cache[k] = r
        self.alias_cache[(k[1], k[0])] = r
        return r

    def read(self, name, r):
        """read with aliases resolved by the solver"""
        self.touch(r)
        m = self.maps[name]
        pend = []
        v = None
        for (w, val) in reversed(m.writes):
            a = self.alias(w, r)
            if a is True:
                v = val
                break
            if a is None:
                pend.append((w, val))
        if v is None:
            v = m.baseval(r)
        for (w, val) in reversed(pend):
            v = ITE(eq(r, w), val, v)
        return v

    def read2(self, name, r, o):
        self.touch(r)
        self.touch_off(o)
        return self.maps[name].raw(r, o, self.alias)

    def write2(self, name, r, lo, hi, v):
        self.touch(r)
        self.maps[name] = self.maps[name].write(r, lo, hi, v)
        if self.on_write:
            self.on_write(name, r)

    def write(self, name, r, v):
        self.touch(r)
        self.maps[name] = self.maps[name].write(r, v)
        if self.on_write:
            self.on_write(name, r)

    def havoc(self, name):
        self.maps[name] = self.fresh_map(name.split("!")[0], self.maps[name].sort)


    def havoc_keep(self, name, keep):
        """forget a map except where keep(reference) holds (keep: over a snapshot)"""
        old = self.maps[name]
        new = self.fresh_map(name.split("!")[0], old.sort)
        memo = {}

        def base(r):
            k = key(r)
            if k not in memo:
                memo[k] = (r, ITE(keep(r), old.raw(r), new.baseval(r)))
            return memo[k][1]
        self.maps[name] = Map(base, old.sort)


def explore(fn, cfg, res=None, max_paths=20000, deadline=None, sample=None, start=None):
    """run fn(ctx) on every feasible path"""
    res = res or Result()
    work = [start or ([], [])]
    while work:
        if deadline and time.time() > deadline:
            res.unsupported.append("time budget exhausted")
            break
        dec, log = work.pop()
        ctx = Ctx(res, dec, log, cfg, sample)
        try:
            label = fn(ctx)
            res.exits[label] = res.exits.get(label, 0) + 1
        except PathEnd:
            res.exits["cut"] = res.exits.get("cut", 0) + 1
        except Unsupported as e:
            if ctx.feasible():
                res.unsupported.append(str(e))
        except (Return, Break, Continue, CppThrow) as e:
            res.unsupported.append("escaped " + repr(e))
        res.paths += 1
        work.extend(ctx.alts)
        if res.paths > max_paths:
            res.unsupported.append("too many paths")
            break
        if len(res.unsupported) > 20:
            break
    return res
