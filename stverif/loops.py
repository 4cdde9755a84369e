"""Loop contracts: cut a loop at its head by an inductive invariant over *roles* (which local plays which part is
inferred, so renaming or re-shaping the loop statement does not matter)."""
import itertools
from .core import *
from .interp import *
from .frontend import ty


def snapshot_value(v):
    return v.copy() if isinstance(v, Rec) else v


def flat(v, pre=""):
    if isinstance(v, Rec):
        out = []
        for k, x in v.f.items():
            out += flat(x, pre + "." + k)
        return out
    return [(pre, v)]


def same_value(a, b):
    """formula: two values are equal"""
    if isinstance(a, Rec) and isinstance(b, Rec):
        return AND([same_value(a.f[k], b.f[k]) if k in a.f and k in b.f else (k in a.f) == (k in b.f) for k in set(a.f) | set(b.f)])
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return AND(eq(a.ref, b.ref), eq(a.off, b.off))
    if isinstance(a, (Ptr, Rec, Opaque, LPtr)) or isinstance(b, (Ptr, Rec, Opaque, LPtr)):
        return a is b
    if a is UNINIT or b is UNINIT:
        return True
    return eq(a, b)


class LoopContract:
    name = "loop"
    roles = {}          # role -> (kind, [preferred names])
    havoc_maps = ()
    nested_ok = False
    variants = (None,)  # forms of the invariant, strongest first
    variant = None

    def __init__(self, L):
        self.L, self.c = L, L.c
        self.used = False

    def inv(self, r):
        """[(formula, name, cat)] over role values r (dict)"""
        raise NotImplementedError

    def facts(self, r):
        """quantified part of the invariant, over the current state"""
        return []

    def measure(self, r):
        """bounded below and falling with every iteration"""
        return None

    def at_entry(self, r):
        """ghost set-up before the invariant is checked at entry (must be repeatable)"""

    def at_head(self, r):
        pass

    def at_back(self, r, head):
        """ghost updates before the invariant is proved again"""

    # ---- roles
    def cells(self, I):
        return {k: v for k, v in I.frames[-1].vars.items() if isinstance(v, Cell) and v.v is not UNINIT}

    def kind_ok(self, kind, cell):
        v = cell.v
        if kind == "node":
            return isinstance(v, Ptr) and not any(strip_type(cell.type).rstrip("* ") == e for e in ELEMS)
        if kind == "int":
            return not isinstance(v, (Ptr, LPtr, Rec, Opaque)) and strip_type(cell.type) in INTS
        return False

    def candidates(self, I):
        cells = self.cells(I)
        names = list(self.roles)
        pref = []
        for rname in names:
            kind, pn = self.roles[rname]
            hit = [i for p in pn for i, c in cells.items() if c.name == p and self.kind_ok(kind, c)]
            pref.append(hit[-1:] if hit else [])
        if all(pref) and len(set(p[0] for p in pref)) == len(pref):
            yield {n: p[0] for n, p in zip(names, pref)}
        opts = []
        for n, p in zip(names, pref):
            kind, _ = self.roles[n]
            o = [i for i, c in cells.items() if self.kind_ok(kind, c)]
            o.sort(key=lambda i: 0 if i in p else 1)
            opts.append(o)
        cnt = 0
        for combo in itertools.product(*opts):
            if len(set(combo)) != len(combo):
                continue
            cnt += 1
            if cnt > 200:
                return
            yield dict(zip(names, combo))

    def values(self, I, mp):
        out = {}
        for r, i in mp.items():
            v = I.frames[-1].vars[i].v
            out[r] = v.ref if self.roles[r][0] == "node" else v
        return out

    def try_apply(self, I, n, cond, inc, body, post):
        if self.used and not self.nested_ok:
            return False
        c = self.c
        chosen = None
        for self.variant, mp in ((va, mp) for va in self.variants for mp in self.candidates(I)):
            vals = self.values(I, mp)
            self.at_entry(vals)
            try:
                ok = all(c.entails(f) for (f, _, _) in self.inv(vals))
            except (Unsupported, KeyError):     # roles that make no sense
                ok = False
            if ok:
                chosen = mp
                break
        if chosen is None:
            return False
        self.used = True
        self.run(I, n, cond, inc, body, post, chosen)
        return True

    def run(self, I, n, cond, inc, body, post, mp):
        c, L = self.c, self.L
        for (f, nm, cat) in self.inv(self.values(I, mp)):
            c.prove(f, "%s:entry:%s" % (self.name, nm), cat)
        L.prove_all(self.facts(self.values(I, mp)), "%s:entry" % self.name, L.written())
        # forget what the loop may change
        assigned = set()
        for part in (cond, inc, body):
            if part is not None:
                assigned |= I.assigned(part)
        fr = I.frames[-1]
        keep = []
        for i in assigned:
            v = fr.vars.get(i)
            if v is None:
                continue
            if isinstance(v, Cell):
                self.havoc_cell(I, v)
            else:
                keep.append((v, snapshot_value(I.load_nocopy(v)) if not isinstance(v, (LElem, LHeap)) else None))
        for nme in self.havoc_maps:
            if nme in c.maps:
                c.havoc(nme)
        vals = self.values(I, mp)
        self.at_head(vals)
        for f in self.facts(vals):
            c.add_fact(f)
        for v in vals.values():
            if not isc(v) and z3.is_int(v):
                pass
        for r, i in mp.items():
            if self.roles[r][0] == "node":
                c.touch(vals[r])
        for (f, nm, cat) in self.inv(vals):
            c.assume(f)
        m0 = self.measure(vals)
        head = dict(vals)
        self.head_vals = head
        head_maps = dict(c.maps)
        scal = L.scal_snapshot() if hasattr(L, "scal_snapshot") else None
        others = {i: snapshot_value(v.v) for i, v in fr.vars.items() if isinstance(v, Cell) and i not in assigned}
        I.active_loop += 1
        if not c.feasible():
            raise PathEnd()
        I.c.res.exits["loop:" + self.name] = I.c.res.exits.get("loop:" + self.name, 0) + 1
        try:
            if not post and cond is not None and not I.truth(I.ev(cond), I.where(n)):
                return
            try:
                I.exec(body)
            except Break:
                return
            except Continue:
                pass
            if inc is not None:
                I.ev(inc)
            if post and not I.truth(I.ev(cond), I.where(n)):
                return
        finally:
            I.active_loop -= 1
        # back edge
        vals = self.values(I, mp)
        self.at_back(vals, head)
        m1 = self.measure(vals)
        c.prove(AND(m0 >= 0, m1 < m0) if m0 is not None else False, "%s:ends" % self.name, "term")
        for (f, nm, cat) in self.inv(vals):
            c.prove(f, "%s:step:%s" % (self.name, nm), cat)
        L.prove_all(self.facts(vals), "%s:step" % self.name, L.written_since(head_maps))
        for (lv, old) in keep:
            if old is not None:
                c.prove(same_value(I.load_nocopy(lv), old), "%s:frame:object" % self.name, "inv")
        if scal is not None:
            c.prove(L.same_scal(scal, self), "%s:frame:scalars" % self.name, "inv")
        for nme, m in c.maps.items():
            if nme in self.havoc_maps:
                continue
            if m is not head_maps[nme]:
                for (w, v) in m.writes[len(head_maps[nme].writes):] if m.base is head_maps[nme].base else [(None, None)]:
                    if w is None:
                        raise Unsupported("loop changes map " + nme)
                    c.prove(eq(c.read(nme, w), head_maps[nme].raw(w)), "%s:frame:%s" % (self.name, nme), "inv")
        raise PathEnd()

    def havoc_cell(self, I, cell):
        cell.v = self.havoc_value(I, cell.v, cell.name, cell.type)

    def havoc_value(self, I, v, name, t):
        c = self.c
        if v is UNINIT:
            return v
        if isinstance(v, Ptr):
            off = 0 if isc(v.off) and v.off == 0 and not any(strip_type(t).rstrip("* ") == e for e in ELEMS) else c.fresh(name + ".off")
            r = c.fresh(name)
            return Ptr(r, off)
        if isinstance(v, bool):
            return c.fresh_bool(name)
        if isinstance(v, Rec):
            return Rec(v.tag, {k: self.havoc_value(I, x, name + "." + k, "") for k, x in v.f.items()})
        if isinstance(v, (LPtr, Opaque)):
            raise Unsupported("loop changes " + name)
        if not isc(v) and z3.is_bool(v):
            return c.fresh_bool(name)
        x = c.fresh(name)
        st = strip_type(t)
        if st in INTS:
            signed, bits = INTS[st]
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
            c.assume(AND(x >= lo, x <= hi))
        return x
