"""Interpreter of clang AST over symbolic state (one path at a time, see core.Ctx)."""
import z3
from .core import *
from .frontend import ty, params_of, body_of, has_body, Unit, SYMBOLIC_BM

ELEMS = ("vt::Elem", "vt::Triv")


# ------------------------------------------------------------- values
class Ptr:
    """pointer into the heap: block reference plus element offset"""
    __slots__ = ("ref", "off")

    def __init__(self, ref, off=0):
        self.ref, self.off = unc(ref), unc(off)

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.ref, self.off)


NULL = Ptr(0, 0)


class LPtr:
    """pointer to an lvalue"""
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv


class Rec:
    __slots__ = ("tag", "f")

    def __init__(self, tag, f=None):
        self.tag, self.f = tag, f if f is not None else {}

    def copy(self):
        return Rec(self.tag, {k: (v.copy() if isinstance(v, Rec) else v) for k, v in self.f.items()})

    def __repr__(self):
        return "%s%r" % (self.tag, self.f)


class Opaque:
    """value of a type the verifier knows nothing about"""
    def __init__(self, tag, **kw):
        self.tag = tag
        self.__dict__.update(kw)

    def copy(self):
        return self


class Uninit:
    def __repr__(self):
        return "<uninit>"


UNINIT = Uninit()


# ------------------------------------------------------------- lvalues
class Cell:
    __slots__ = ("v", "name", "type")

    def __init__(self, v=UNINIT, name="", type=""):
        self.v, self.name, self.type = v, name, type


class LVar:
    __slots__ = ("cell",)

    def __init__(self, cell):
        self.cell = cell


class LField:
    __slots__ = ("base", "name")

    def __init__(self, base, name):
        self.base, self.name = base, name


class LHeap:
    """field of a tree node"""
    __slots__ = ("ref", "field", "idx")

    def __init__(self, ref, field, idx=None):
        self.ref, self.field, self.idx = unc(ref), field, idx


class LNode:
    __slots__ = ("ref",)

    def __init__(self, ref):
        self.ref = unc(ref)


class LElem:
    __slots__ = ("ref", "off")

    def __init__(self, ref, off):
        self.ref, self.off = unc(ref), unc(off)


def strip_type(t):
    t = t.replace("const ", " ").replace("class ", "").replace("struct ", "").strip()
    if t.endswith("const"):
        t = t[:-5].strip()
    return t


INTS = {
    "unsigned long": (False, 64), "long": (True, 64), "unsigned short": (False, 16), "int": (True, 32),
    "unsigned int": (False, 32), "unsigned char": (False, 8), "short": (True, 16), "char": (True, 8),
    "unsigned long long": (False, 64), "long long": (True, 64), "bool": (False, 1), "signed char": (True, 8),
    "std::size_t": (False, 64), "size_type": (False, 64), "difference_type": (True, 64),
    "std::uint16_t": (False, 16), "uint16_t": (False, 16), "std::ptrdiff_t": (True, 64),
    "std::uint8_t": (False, 8), "uint8_t": (False, 8), "std::uint32_t": (False, 32), "uint32_t": (False, 32),
    "std::int8_t": (True, 8), "std::int16_t": (True, 16), "std::int32_t": (True, 32), "std::int64_t": (True, 64), "std::uint64_t": (False, 64),
}


class Frame:
    def __init__(self, fn, this):
        self.fn, self.this = fn, this
        self.vars = {}        # decl id -> Cell
        self.locals = []      # Cells of class type needing destruction


class Interp:
    MAXUNROLL = 40

    def __init__(self, unit, ctx, cfg):
        self.u, self.c, self.cfg = unit, ctx, cfg
        self.BM, self.SM = cfg["BM"], cfg["SM"]     # SM is replaced by a symbol when it is 0
        self.width_ok = set()
        self.nodefields = unit.node_fields() if hasattr(unit, "node_fields") else {}
        self.symcap = cfg["SM"] == 0    # the capacity of a segment is a symbol, its elements are blocks of offsets
        self.fixed = {n for n, k in (("segment_target", "SM"), ("base_target", "BM")) if cfg[k] == 0}   # must not be seen as numbers
        self.symnode = cfg["BM"] == 0 and cfg["SM"] == 0    # and so is the capacity of a node (cleared at sequence level)
        self.symbolic = None    # values of the template parameters when the capacities themselves are verified
        self.elem = cfg["elem"]
        self.contracts = {}
        self.loops = []            # candidate loop contracts
        self.active_loop = 0
        self.depth = 0
        self.frames = []
        self.hooks = None          # level specific behaviour
        self.allow_throw = True
        self.calls = set()
        self.handlers = 0
        self._assigned_cache = {}
        self.elem_trace = None

    # ---- integers
    def norm(self, v, t):
        """bring a mathematical value into the range of type t"""
        v = unc(v)
        signed, bits = INTS[t]
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if isc(v):
            if isinstance(v, bool):
                v = int(v)
            m = v & ((1 << bits) - 1)
            return m - (1 << bits) if signed and m > hi else m
        return self.wrap(v, lo, hi, bits, signed)

    def narrow(self, t, n, src=None):
        """a variable narrower than size_type may be too narrow for a capacity larger than the one verified here"""
        if t not in INTS or INTS[t][1] >= 64 or t == "bool" or (src in INTS and INTS[src][1] <= INTS[t][1]):
            return
        note = "%s of %d bits: enough for this capacity, perhaps not for others (%s)" % (t, INTS[t][1], self.where(n))
        if note not in self.c.res.unsupported:
            self.c.res.unsupported.append(note)

    def wrap(self, v, lo, hi, bits, signed):
        if self.c.entails(z3.And(v >= lo, v <= hi)):
            return v
        for k in (1, -1):
            w = z3.simplify(v + k * (1 << bits))
            if self.c.entails(z3.And(w >= lo, w <= hi)):
                return w
        r = self.c.fresh("wrap")
        q = self.c.fresh("wq")
        self.c.assume(z3.And(v == r + q * (1 << bits), r >= lo, r <= hi))
        return r

    def int_type(self, n):
        t = strip_type(ty(n))
        if t in INTS:
            return t
        return None

    # ---- errors
    def uns(self, n, msg=""):
        raise Unsupported("%s %s" % (n.get("kind") if isinstance(n, dict) else n, msg))

    # ---- lvalue access
    def load(self, lv):
        if isinstance(lv, LVar):
            v = lv.cell.v
            if v is UNINIT:
                raise Unsupported("read of uninitialised local " + lv.cell.name)
            return v
        if isinstance(lv, LField):
            b = self.load_nocopy(lv.base)
            if isinstance(b, Rec):
                if lv.name not in b.f:
                    raise Unsupported("read of uninitialised field " + lv.name)
                return b.f[lv.name]
            raise Unsupported("field of %r" % (b,))
        if isinstance(lv, LHeap):
            return self.heap_load(lv)
        if isinstance(lv, LElem):
            return self.elem_read(lv)
        if hasattr(lv, "load"):
            return lv.load(self)
        raise Unsupported("load %r" % (lv,))

    def load_nocopy(self, lv):
        if isinstance(lv, LVar):
            if lv.cell.v is UNINIT:
                lv.cell.v = Rec("lazy")
            return lv.cell.v
        if isinstance(lv, LField):
            b = self.load_nocopy(lv.base)
            if not isinstance(b, Rec):
                raise Unsupported("field of %r" % (b,))
            if lv.name not in b.f:
                b.f[lv.name] = Rec("lazy")
            return b.f[lv.name]
        return self.load(lv)

    def store(self, lv, v):
        if isinstance(v, Rec):
            v = v.copy()
        if isinstance(lv, LVar):
            lv.cell.v = v
        elif isinstance(lv, LField):
            b = self.load_nocopy(lv.base)
            if not isinstance(b, Rec):
                raise Unsupported("store into field of %r" % (b,))
            b.f[lv.name] = v
        elif isinstance(lv, LHeap):
            self.heap_store(lv, v)
        elif isinstance(lv, LElem):
            self.elem_assign(lv, v)
        elif hasattr(lv, "store"):
            lv.store(self, v)
        else:
            raise Unsupported("store %r" % (lv,))

    # ---- node fields
    PTRFIELDS = {"parent_pointer", "pointers"}

    def mapname(self, field, idx):
        return field if idx is None else "%s_%d" % (field, idx)

    def node_ok(self, ref, what):
        c = self.c
        c.prove(AND(ne(ref, 0), eq(c.read("al", ref), NODE)), "deref:node:" + what, "safe")

    def arr_index(self, lv):
        idx = unc(lv.idx)
        n = self.nodefields.get(lv.field, (None, None))[1]
        if self.symnode:
            # the extent is base_max as written: the number of this instantiation, the symbol here
            if n != SYMBOLIC_BM:
                raise Unsupported("extent of " + lv.field)
            self.c.prove(AND(le(0, idx), lt(idx, self.BM)), "bounds:%s[]" % lv.field, "safe")
            self.c.touch_off(idx)
            return idx
        self.c.prove(AND(le(0, idx), lt(idx, self.BM if n is None else min(n, self.BM))), "bounds:%s[]" % lv.field, "safe")
        return self.c.concretize(idx, 0, self.BM - 1, lv.field)

    def heap_load(self, lv):
        self.node_ok(lv.ref, lv.field)
        idx = None
        if lv.idx is not None:
            idx = self.arr_index(lv)
            if self.symnode:
                if lv.field not in self.c.maps:
                    raise Unsupported("unknown node field " + lv.field)
                v = self.c.maps[lv.field].raw(lv.ref, idx)
                if lv.field in self.PTRFIELDS:
                    return Ptr(v)
                signed, bits = INTS[self.nodefields[lv.field][0]]
                self.c.assume(AND(v >= (-(1 << (bits - 1)) if signed else 0), v < (1 << (bits - signed))))    # of its type
                return v
        name = self.mapname(lv.field, idx)
        if name not in self.c.maps:
            raise Unsupported("unknown node field " + name)
        v = self.c.read(name, lv.ref)
        if lv.field in self.PTRFIELDS:
            return Ptr(v)
        return v

    def heap_store(self, lv, v):
        self.node_ok(lv.ref, lv.field)
        idx = None
        if lv.idx is not None:
            if self.symnode:
                raise Unsupported("a node of any capacity is written")
            idx = self.arr_index(lv)
        name = self.mapname(lv.field, idx)
        if name not in self.c.maps:
            raise Unsupported("unknown node field " + name)
        if lv.field in self.PTRFIELDS:
            if not isinstance(v, Ptr):
                raise Unsupported("pointer store of %r" % (v,))
            self.c.prove(eq(v.off, 0), "store:block-pointer", "safe")
            v = v.ref
        else:
            t = self.nodefields.get(lv.field, ("unsigned long", None))[0]
            v = self.norm(v, t if t in INTS else "unsigned long")
        self.c.write(name, lv.ref, v)

    # ---- elements (T values are tokens)
    def elem_loc(self, lv, what):
        c = self.c
        c.prove(AND(ne(lv.ref, 0), eq(c.read("al", lv.ref), SEG)), "deref:segment:" + what, "safe")
        c.prove(AND(le(0, lv.off), lt(lv.off, self.SM)), "bounds:segment:" + what, "safe")
        if self.symcap:
            if self.elem_trace is not None:
                self.elem_trace.append((what, lv.ref, lv.off))
            return lv.off
        return c.concretize(lv.off, 0, self.SM - 1, "elem index")

    def tracks_cons(self):
        return self.elem == "Elem"

    def elem_read(self, lv):
        k = self.elem_loc(lv, "read")
        if self.symcap:
            self.sym_alive(lv, "read")
            c = self.c
            t = c.fresh("token")
            c.assume(t >= -1)
            c.assume(eq(t, self.hooks.tracked()) == eq(c.read("tp", lv.ref), k))
            return t
        if self.tracks_cons():
            self.c.prove(self.c.read("cons_%d" % k, lv.ref), "lifetime:read", "safe")
        return self.c.read("elem_%d" % k, lv.ref)

    def sym_alive(self, lv, what):
        # without lifetimes of its own, an element that was copied away raw must still not be relied on
        self.c.prove(self.c.read2("cons", lv.ref, lv.off), "lifetime:" + what, "safe" if self.tracks_cons() else "model")

    def sym_put(self, lv, tok):
        c = self.c
        tp = c.read("tp", lv.ref)
        c.write("tp", lv.ref, ITE(eq(tok, self.hooks.tracked()), lv.off, ITE(eq(tp, lv.off), -1, tp)))

    def elem_assign(self, lv, tok):
        k = self.elem_loc(lv, "assign")
        if self.symcap:
            if self.tracks_cons():
                self.sym_alive(lv, "assign")
            else:
                self.c.write2("cons", lv.ref, k, add(k, 1), True)
            return self.sym_put(lv, tok)
        if self.tracks_cons():
            self.c.prove(self.c.read("cons_%d" % k, lv.ref), "lifetime:assign", "safe")
        self.c.write("elem_%d" % k, lv.ref, tok)

    def elem_construct(self, lv, tok):
        k = self.elem_loc(lv, "construct")
        if self.symcap:
            if self.tracks_cons():
                self.c.prove(NOT(self.c.read2("cons", lv.ref, k)), "lifetime:construct", "safe")
            self.c.write2("cons", lv.ref, k, add(k, 1), True)
            return self.sym_put(lv, tok)
        if self.tracks_cons():
            self.c.prove(NOT(self.c.read("cons_%d" % k, lv.ref)), "lifetime:construct", "safe")
            self.c.write("cons_%d" % k, lv.ref, True)
        self.c.write("elem_%d" % k, lv.ref, tok)

    def elem_destroy(self, lv):
        k = self.elem_loc(lv, "destroy")
        if self.symcap:
            if self.tracks_cons():
                self.sym_alive(lv, "destroy")
            self.c.write2("cons", lv.ref, k, add(k, 1), False)
            return self.sym_put(lv, MOVED)
        if self.tracks_cons():
            self.c.prove(self.c.read("cons_%d" % k, lv.ref), "lifetime:destroy", "safe")
            self.c.write("cons_%d" % k, lv.ref, False)

    def elem_moved_from(self, lv):
        if self.elem == "Triv" and not (self.symcap and isinstance(lv, LElem)):
            if isinstance(lv, LElem) and self.c.on_write:
                self.c.on_write("elem_0", lv.ref)      # its segment is about to give the element up
            return
        if isinstance(lv, LElem):
            k = self.elem_loc(lv, "move")
            if self.symcap:
                return self.sym_put(lv, MOVED)
            self.c.write("elem_%d" % k, lv.ref, MOVED)
        elif isinstance(lv, (LVar, LField)):
            self.store(lv, MOVED)
        elif hasattr(lv, "moved_from"):
            lv.moved_from(self)

    # ---- blocks
    def alloc_block(self, kind):
        c = self.c
        if self.allow_throw and c.free_choice("allocation fails"):
            raise CppThrow("bad_alloc")
        r = c.fresh("blk")
        c.assume(r > 0)
        # fresh: not allocated now
        c.touch(r)
        c.assume(eq(c.read("al", r), 0))
        for (w, _) in c.maps["al"].writes:
            if key(w) != key(r):
                c.assume(r != w) if False else None
        c.write("al", r, kind)
        if kind == SEG and self.symcap:
            c.write2("cons", r, 0, self.SM, False)
            c.write("tp", r, -1)
        elif kind == SEG:
            for k in range(self.SM):
                if self.tracks_cons():
                    c.write("cons_%d" % k, r, False)
        if self.hooks:
            self.hooks.allocated(self, r, kind)
        return r

    def free_block(self, p, kind):
        c = self.c
        if not isinstance(p, Ptr):
            raise Unsupported("deallocate %r" % (p,))
        c.prove(AND(ne(p.ref, 0), eq(p.off, 0)), "free:pointer", "safe")
        c.prove(eq(c.read("al", p.ref), kind), "free:allocated-with-same-type", "safe")
        if kind == SEG and self.tracks_cons() and self.symcap:
            o = c.anyoff
            c.prove(IMP(AND(le(0, o), lt(o, self.SM)), NOT(c.read2("cons", p.ref, o))), "free:no-live-element", "safe")
        elif kind == SEG and self.tracks_cons():
            for k in range(self.SM):
                c.prove(NOT(c.read("cons_%d" % k, p.ref)), "free:no-live-element", "safe")
        c.write("al", p.ref, 0)
        if self.hooks:
            self.hooks.freed(self, p.ref, kind)

    # ------------------------------------------------------------ statements
    def exec(self, n):
        k = n["kind"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(n)
        if k.endswith("Stmt"):
            self.uns(n)
        self.ev(n)

    def s_CompoundStmt(self, n):
        mark = len(self.frames[-1].locals)
        try:
            for c in n.get("inner", []):
                self.exec(c)
        except (Return, Break, Continue, CppThrow):
            self.unwind(mark)
            raise
        self.unwind(mark)

    def unwind(self, mark):
        fr = self.frames[-1]
        while len(fr.locals) > mark:
            cell = fr.locals.pop()
            self.destroy_local(cell)

    def destroy_local(self, cell):
        if self.hooks:
            self.hooks.destroy_local(self, cell)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for d in n.get("inner", []):
            if d["kind"] == "VarDecl":
                self.declare(d)
            elif d["kind"] in ("UsingDecl", "TypedefDecl", "TypeAliasDecl", "StaticAssertDecl", "UsingDirectiveDecl"):
                pass
            else:
                self.uns(d)

    def declare(self, d):
        t = ty(d)
        cell = Cell(UNINIT, d.get("name", "_"), t)
        init = [c for c in d.get("inner", []) if not c["kind"].endswith("Attr")]
        if t.rstrip().endswith("&"):
            v = self.lv(init[0])
            self.frames[-1].vars[d["id"]] = v if not isinstance(v, (int,)) else v
            return
        if init:
            v = self.ev(init[0])
            cell.v = v.copy() if isinstance(v, Rec) else v
            it = strip_type(t)
            if it in INTS and not isinstance(cell.v, (Ptr,)):
                cell.v = unc(cell.v)
        self.frames[-1].vars[d["id"]] = cell
        if self.hooks and self.hooks.needs_destroy(self, t):
            self.frames[-1].locals.append(cell)

    def s_IfStmt(self, n):
        inner = [c for c in n["inner"]]
        if n.get("hasInit") or n.get("hasVar"):
            self.uns(n, "init")
        cond, th = inner[0], inner[1]
        if self.truth(self.ev(cond), self.where(n)):
            self.exec(th)
        elif len(inner) > 2:
            self.exec(inner[2])

    def s_SwitchStmt(self, n):
        if n.get("hasInit") or n.get("hasVar") or len(n["inner"]) != 2 or n["inner"][1]["kind"] != "CompoundStmt":
            self.uns(n)
        v = self.rv(n["inner"][0])
        flat = []          # (labels, statement): labels are case expressions, None for default
        for c in n["inner"][1].get("inner", []):
            labels = []
            while c["kind"] in ("CaseStmt", "DefaultStmt"):
                if c["kind"] == "CaseStmt":
                    if len(c["inner"]) != 2:
                        self.uns(c, "case range")
                    labels.append(c["inner"][0])
                else:
                    labels.append(None)
                c = c["inner"][-1]
            flat.append((labels, c))
        start = None
        for i, (labels, _) in enumerate(flat):
            for l in labels:
                if start is None and l is not None and self.truth(eq(v, self.rv(l)), self.where(l)):
                    start = i
        if start is None:
            start = next((i for i, (labels, _) in enumerate(flat) if None in labels), None)
        if start is None:
            return
        mark = len(self.frames[-1].locals)
        try:
            for _, c in flat[start:]:
                self.exec(c)
        except Break:
            pass
        except (Return, Continue, CppThrow):
            self.unwind(mark)
            raise
        self.unwind(mark)

    def where(self, n):
        r = n.get("range", {}).get("begin", {})
        l = r.get("line") or r.get("expansionLoc", {}).get("line") or ""
        return "%s@%s" % (n["kind"], l if l else r.get("offset", r.get("expansionLoc", {}).get("offset", "")))

    def truth(self, v, why=""):
        if isinstance(v, Ptr):
            v = ne(v.ref, 0)
        if isinstance(v, LPtr):
            return True
        if isinstance(v, int) and not isinstance(v, bool):
            return v != 0
        if not isinstance(v, bool) and z3.is_int(v):
            v = v != 0
        return self.c.branch(v, why)

    def s_ReturnStmt(self, n):
        inner = n.get("inner", [])
        if not inner:
            raise Return(None)
        fr = self.frames[-1]
        rt = fr.fn["type"]["qualType"].split("(")[0].strip()
        e = inner[0]
        if e.get("valueCategory") in ("lvalue", "xvalue"):
            raise Return(self.lv(e))
        v = self.ev(e)
        raise Return(v.copy() if isinstance(v, Rec) else v)

    def s_BreakStmt(self, n):
        raise Break()

    def s_ContinueStmt(self, n):
        raise Continue()

    def s_WhileStmt(self, n):
        inner = n["inner"]
        self.loop(n, inner[0], None, inner[1], False)

    def s_ForStmt(self, n):
        init, cv, cond, inc, body = n["inner"]
        if cv:
            self.uns(n, "condition variable")
        mark = len(self.frames[-1].locals)
        if init:
            self.exec(init)
        self.loop(n, cond or None, inc or None, body, False)
        self.unwind(mark)

    def s_DoStmt(self, n):
        body, cond = n["inner"]
        self.loop(n, cond, None, body, True)

    def assigned(self, n):
        """ids of variables that may be changed inside n (any use that is not a plain read)"""
        r = self._assigned_cache.get(id(n))
        if r is not None:
            return r
        out = set()

        def w(x, rvalue):
            k = x.get("kind")
            if k == "DeclRefExpr":
                if not rvalue and x.get("referencedDecl", {}).get("kind") in ("VarDecl", "ParmVarDecl"):
                    out.add(x["referencedDecl"]["id"])
                return
            if k == "ImplicitCastExpr" and x.get("castKind") == "LValueToRValue":
                for c in x.get("inner", []):
                    w(c, True)
                return
            if k == "MemberExpr":
                for c in x.get("inner", []):
                    w(c, rvalue)
                return
            if k == "CXXConstructExpr" and rvalue_copy(x):
                for c in x.get("inner", []):
                    w(c, True)
                return
            for c in x.get("inner", []):
                w(c, False)

        def rvalue_copy(x):
            ct = x.get("ctorType", {}).get("qualType", "")
            return "const" in ct and ct.count("&") == 1
        w(n, False)
        self._assigned_cache[id(n)] = out
        return out

    def loop(self, n, cond, inc, body, post):
        if self.symnode:
            from .scanloops import ScanLoop
            if ScanLoop(self, n, cond, inc, body, post).try_apply():
                return
        if self.symcap and self.active_loop == 0:
            from .elemloops import ElemLoop
            if ElemLoop(self, n, cond, inc, body, post).try_apply():
                return
        for lc in list(self.loops):
            if self.active_loop == 0:
                if lc.try_apply(self, n, cond, inc, body, post):
                    return
        self.unroll(n, cond, inc, body, post)

    def unroll(self, n, cond, inc, body, post):
        count = 0
        first = True
        while True:
            if not (post and first):
                if cond is not None:
                    if not self.truth(self.ev(cond), self.where(n)):
                        break
                elif False:
                    pass
            first = False
            count += 1
            if count > (10 if self.symnode else self.BM + 6 if self.symcap else self.MAXUNROLL) or not self.symnode and (count > self.BM + (2 if self.symcap else self.SM) + 2 and self.c.replaying is False and not self.c.feasible()):
                if not self.c.feasible():
                    raise PathEnd()
                raise Unsupported("loop without a fitting invariant is not bounded by a capacity: " + self.where(n))
            try:
                self.exec(body)
            except Break:
                break
            except Continue:
                pass
            if inc is not None:
                self.ev(inc)

    def s_CXXTryStmt(self, n):
        body = n["inner"][0]
        try:
            self.handlers += 1
            try:
                self.exec(body)
            finally:
                self.handlers -= 1
        except CppThrow as e:
            for h in n["inner"][1:]:
                # catch (...) only: typed handlers are outside the subset
                parts = [c for c in h.get("inner", []) if c.get("kind")]
                if len(parts) != 1:
                    if parts and parts[0].get("kind") == "VarDecl":
                        raise Unsupported("typed catch")
                old = getattr(self, "current_exc", None)
                self.current_exc = e
                try:
                    self.exec(parts[-1])
                finally:
                    self.current_exc = old
                return

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.uns(n)
        return m(n)

    def lv(self, n):
        """evaluate to an lvalue"""
        k = n["kind"]
        m = getattr(self, "l_" + k, None)
        if m is None:
            self.uns(n, "as lvalue")
        return m(n)

    def rv(self, n):
        """value of an expression, loading when it is a glvalue"""
        if n.get("valueCategory") in ("lvalue", "xvalue"):
            v = self.load(self.lv(n))
            return v.copy() if isinstance(v, Rec) else v
        return self.ev(n)

    # literals
    def e_IntegerLiteral(self, n):
        return int(n["value"])

    def e_CXXBoolLiteralExpr(self, n):
        return bool(n["value"])

    def e_CXXNullPtrLiteralExpr(self, n):
        return NULL

    def e_StringLiteral(self, n):
        return Opaque("string")

    def l_StringLiteral(self, n):
        return LVar(Cell(Opaque("string")))

    def e_GNUNullExpr(self, n):
        return NULL

    def e_CXXThisExpr(self, n):
        t = self.frames[-1].this
        if isinstance(t, LNode):
            return Ptr(t.ref)
        return LPtr(t)

    def e_ParenExpr(self, n):
        return self.ev(n["inner"][0])

    def l_ParenExpr(self, n):
        return self.lv(n["inner"][0])

    def passthrough_e(self, n):
        return self.ev(n["inner"][0])

    def passthrough_l(self, n):
        return self.lv(n["inner"][0])

    e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = passthrough_e
    l_ConstantExpr = passthrough_l

    def e_SubstNonTypeTemplateParmExpr(self, n):
        for c in n["inner"]:
            if self.symbolic and c["kind"].endswith("Decl") and c.get("name") in self.symbolic:
                return self.symbolic[c["name"]]
            if c["kind"].endswith("Decl") and c.get("name") in self.fixed:
                self.uns(n, c["name"] + " used directly")
        inner = [c for c in n["inner"] if not c["kind"].endswith("Decl")]
        return self.ev(inner[-1])

    def e_ExprWithCleanups(self, n):
        mark = len(self.frames[-1].locals)
        try:
            v = self.ev(n["inner"][0])
        except (CppThrow,):
            self.unwind(mark)
            raise
        self.unwind(mark)
        return v

    def l_ExprWithCleanups(self, n):
        mark = len(self.frames[-1].locals)
        try:
            v = self.lv(n["inner"][0])
        except (CppThrow,):
            self.unwind(mark)
            raise
        self.unwind(mark)
        return v

    def e_MaterializeTemporaryExpr(self, n):
        return self.ev(n["inner"][0])

    def l_MaterializeTemporaryExpr(self, n):
        v = self.ev(n["inner"][0])
        if isinstance(v, (LVar, LField, LHeap, LElem, LNode)):
            return v
        cell = Cell(v, "<tmp>", ty(n))
        if self.hooks and self.hooks.needs_destroy(self, ty(n)):
            self.frames[-1].locals.append(cell)
        return LVar(cell)

    def e_CXXBindTemporaryExpr(self, n):
        return self.ev(n["inner"][0])

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get("name") != "sizeof":
            self.uns(n, n.get("name"))
        t = n.get("argType", {})
        t = strip_type(t.get("desugaredQualType", t.get("qualType", "")))
        for k, s in (("node_base", 16), ("node_data", 16), ("vt::Elem", 16), ("vt::Triv", 16), ("unsigned long", 8),
                     ("size_type", 8), ("void_pointer", 8), ("void *", 8)):
            if t.endswith(k):
                return self.symbolic["sizeof(T)"] if self.symbolic and s == 16 and k.startswith("vt::") else s
        if t in ("T", "value_type", "E"):
            return self.symbolic["sizeof(T)"] if self.symbolic else 16
        self.uns(n, "sizeof " + t)

    def e_CXXDefaultInitExpr(self, n):
        self.uns(n)

    # references to variables
    def lookup(self, d):
        i = d["id"]
        for fr in reversed(self.frames[-1:]):
            if i in fr.vars:
                return fr.vars[i]
        b = self.u.bool_constants.get(i)        # std::true_type::value and std::false_type::value: every standard trait
        if b is not None:
            return Cell(b, d.get("name"), "const bool")
        decl = self.u.decl.get(i)
        if decl is not None and decl.get("kind") == "VarDecl" and not decl.get("_dependent"):
            c = self.constant(decl)
            if c is not None:
                return c
        raise Unsupported("variable %s" % d.get("name"))

    def constant(self, decl):
        """a constant with static storage: its initialiser is evaluated where it is used"""
        t = ty(decl)
        if not (decl.get("constexpr") or t.startswith("const ")):
            return None
        init = [c for c in decl.get("inner", []) if not c["kind"].endswith(("Attr", "Comment"))]
        if not init or any(c["kind"].endswith("Decl") for c in init):
            return None
        self.frames.append(Frame(self.frames[-1].fn, None))
        try:
            v = self.rv(init[-1])
        finally:
            self.frames.pop()
        return Cell(v, decl.get("name", ""), t)

    def l_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        v = self.lookup(d)
        if isinstance(v, Cell):
            return LVar(v)
        return v      # reference bound to an lvalue

    def e_DeclRefExpr(self, n):
        if n.get("valueCategory") in ("lvalue", "xvalue"):
            return self.load(self.l_DeclRefExpr(n))
        d = n["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            self.uns(n)
        return self.load(self.l_DeclRefExpr(n))

    # members
    def deref(self, p, n=None):
        if isinstance(p, LPtr):
            return p.lv
        if isinstance(p, Ptr):
            t = ty(n) if n is not None else ""
            if any(strip_type(t).rstrip("*& ").endswith(e) or e in t for e in ELEMS) and "static_traits" not in t and "seq<" not in t:
                return LElem(p.ref, p.off)
            return LNode(p.ref)
        raise Unsupported("dereference of %r" % (p,))

    def field_lv(self, base, name):
        if isinstance(base, LNode):
            return LHeap(base.ref, name)
        return LField(base, name)

    def l_MemberExpr(self, n):
        b = n["inner"][0]
        if n.get("isArrow"):
            base = self.deref(self.ev(b), b)
        else:
            base = self.lv(b) if b.get("valueCategory") in ("lvalue", "xvalue") else LVar(Cell(self.ev(b)))
        return self.field_lv(base, n["name"])

    def e_MemberExpr(self, n):
        return self.load(self.l_MemberExpr(n))

    # casts
    def e_ImplicitCastExpr(self, n):
        return self.cast(n)

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def cast(self, n):
        ck = n.get("castKind")
        i = n["inner"][0]
        if ck == "LValueToRValue":
            v = self.load(self.lv(i))
            return v.copy() if isinstance(v, Rec) else v
        if ck == "NoOp":
            if i.get("valueCategory") in ("lvalue", "xvalue") and n.get("valueCategory", "prvalue") == "prvalue":
                return self.rv(i)
            return self.ev(i)
        if ck in ("ConstructorConversion", "UserDefinedConversion", "BitCast", "FunctionToPointerDecay"):
            return self.ev(i)
        if ck == "NullToPointer":
            return NULL
        if ck == "IntegralCast":
            if i["kind"] not in ("IntegerLiteral", "ConstantExpr") and id(n) not in self.width_ok:
                self.narrow(strip_type(ty(n)), n, strip_type(ty(i)))
            return self.norm(self.rv(i), strip_type(ty(n)) if strip_type(ty(n)) in INTS else self.uns(n, ty(n)))
        if ck == "IntegralToBoolean":
            v = self.rv(i)
            return (v != 0)
        if ck == "PointerToBoolean":
            v = self.rv(i)
            return ne(v.ref, 0) if isinstance(v, Ptr) else True
        if ck == "ToVoid":
            (self.lv if i.get("valueCategory") in ("lvalue", "xvalue") else self.ev)(i)
            return None
        if ck == "ArrayToPointerDecay":
            return LPtr(self.lv(i))
        if ck in ("DerivedToBase", "UncheckedDerivedToBase"):
            v = self.ev(i)
            if isinstance(v, LPtr):
                return LPtr(LField(v.lv, "base"))
            if isinstance(v, Rec):
                return v.f["base"]
            self.uns(n)
        self.uns(n, str(ck))

    def l_ImplicitCastExpr(self, n):
        ck = n.get("castKind")
        i = n["inner"][0]
        if ck == "NoOp":
            return self.lv(i)
        if ck in ("DerivedToBase", "UncheckedDerivedToBase"):
            return LField(self.lv(i), "base")
        if ck == "LValueToRValue":
            return LVar(Cell(self.cast(n)))
        self.uns(n, "lvalue cast " + str(ck))

    l_CXXStaticCastExpr = l_CXXFunctionalCastExpr = l_CXXConstCastExpr = l_CStyleCastExpr = l_ImplicitCastExpr

    # operators
    def l_ArraySubscriptExpr(self, n):
        a, b = n["inner"]
        p = self.ev(a)
        i = self.ev(b)
        return self.index(p, i)

    def index(self, p, i):
        if isinstance(p, Ptr):
            return LElem(p.ref, add(p.off, self.signed64(i)))
        if isinstance(p, LPtr) and isinstance(p.lv, LHeap) and p.lv.idx is not None:
            return LHeap(p.lv.ref, p.lv.field, add(p.lv.idx, self.signed64(i)))
        raise Unsupported("index into %r" % (p,))

    def signed64(self, i):
        i = unc(i)
        if isc(i):
            return i - U64 if i >= I63 else i
        return i

    def e_ArraySubscriptExpr(self, n):
        return self.load(self.l_ArraySubscriptExpr(n))

    def e_UnaryOperator(self, n):
        op = n["opcode"]
        i = n["inner"][0]
        if op in ("++", "--"):
            lv = self.lv(i)
            v = self.load(lv)
            d = 1 if op == "++" else -1
            w = self.arith_inc(v, d, ty(n))
            self.store(lv, w)
            if i.get("name") not in self.nodefields:
                self.narrow(strip_type(ty(n)), n)
            return v if n.get("isPostfix") else w
        if op == "&":
            lv = self.lv(i)
            return self.addr(lv)
        if op == "*":
            return self.load(self.l_UnaryOperator(n))
        v = self.rv(i)
        if op == "!":
            if isinstance(v, Ptr):
                return eq(v.ref, 0)
            if isinstance(v, int) and not isinstance(v, bool):
                return v == 0
            return NOT(v)
        t = self.int_type(n)
        if op == "-":
            return self.norm(sub(0, v), t)
        if op == "+":
            return v
        if op == "~":
            signed, bits = INTS[t]
            return self.norm(sub(-1, v), t)
        self.uns(n, op)

    def arith_inc(self, v, d, t):
        if isinstance(v, Ptr):
            return Ptr(v.ref, add(v.off, d))
        return self.norm(add(v, d), strip_type(t))

    def l_UnaryOperator(self, n):
        op = n["opcode"]
        i = n["inner"][0]
        if op in ("++", "--"):
            lv = self.lv(i)
            v = self.load(lv)
            self.store(lv, self.arith_inc(v, 1 if op == "++" else -1, ty(n)))
            if i.get("name") not in self.nodefields:
                self.narrow(strip_type(ty(n)), n)
            return lv
        if op == "*":
            return self.deref(self.ev(i), i)
        self.uns(n, op)

    def addr(self, lv):
        if isinstance(lv, LElem):
            return Ptr(lv.ref, lv.off)
        if isinstance(lv, LNode):
            return Ptr(lv.ref)
        return LPtr(lv)

    def e_ConditionalOperator(self, n):
        c, a, b = n["inner"]
        return self.rv(a) if self.truth(self.rv(c), self.where(n)) else self.rv(b)

    def l_ConditionalOperator(self, n):
        c, a, b = n["inner"]
        return self.lv(a) if self.truth(self.rv(c), self.where(n)) else self.lv(b)

    CMP = {"==", "!=", "<", "<=", ">", ">="}

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            return self.load(self.l_BinaryOperator(n))
        if op == ",":
            (self.lv if a.get("valueCategory") in ("lvalue", "xvalue") else self.ev)(a)
            return self.rv(b)
        if op in ("&&", "||"):
            x = self.truth(self.rv(a), self.where(n))
            if op == "&&":
                return self.truth(self.rv(b), self.where(n)) if x else False
            return True if x else self.truth(self.rv(b), self.where(n))
        x, y = self.rv(a), self.rv(b)
        return self.binop(op, x, y, ty(n), n)

    def binop(self, op, x, y, t, n=None):
        t = strip_type(t)
        if isinstance(x, (Ptr, LPtr)) or isinstance(y, (Ptr, LPtr)):
            return self.ptrop(op, x, y, n)
        if isinstance(x, bool):
            x = int(x)
        if isinstance(y, bool):
            y = int(y)
        if op in self.CMP:
            x, y = unc(x), unc(y)
            if op == "==":
                return eq(x, y)
            if op == "!=":
                return ne(x, y)
            return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]()
        if t not in INTS:
            raise Unsupported("arithmetic on " + t)
        if op == "+":
            return self.norm(add(x, self.signed_const(y, x)), t) if True else None
        if op == "-":
            return self.norm(sub(x, y), t)
        if op == "*":
            return self.norm(mul(x, y), t)
        x, y = unc(x), unc(y)
        if isc(x) and isc(y):
            if op == "/":
                if y == 0:
                    raise Unsupported("division by zero")
                return x // y if (x >= 0) == (y > 0) or x == 0 else -((-x) // y if y > 0 else x // -y)
            if op == "%":
                if y <= 0 or x < 0:
                    raise Unsupported("remainder")
                return x % y
            if op == "^":
                return x ^ y
            if op == "&":
                return x & y
            if op == "|":
                return x | y
            if op == "<<":
                return self.norm(x << y, t)
            if op == ">>":
                return x >> y
        if op in ("^", "&", "|"):
            # concretise small operands
            if self.symnode:
                raise Unsupported("bit operation")
            if not isc(x):
                x = self.c.concretize(x, 0, self.BM, "bit operand")
            if not isc(y):
                y = self.c.concretize(y, 0, self.BM, "bit operand")
            return {"^": x ^ y, "&": x & y, "|": x | y}[op]
        if op == "/" and isc(y) and y > 0:
            self.c.prove(x >= 0, "division of a non-negative value", "aux")
            return x / y
        if op == "/" and self.symbolic:
            self.c.prove(AND(x >= 0, y >= 1), "division by a positive value", "aux")
            k = ("quotient", str(x), str(y))
            if k not in self.symbolic:
                q = self.symbolic[k] = self.c.fresh("quotient")
                self.c.assume(AND(q >= 0, q <= x))        # all that is used of it
            return self.symbolic[k]
        if op == "%" and isc(y) and y > 0:
            self.c.prove(x >= 0, "division of a non-negative value", "aux")
            return x % y
        if op == ">>" and isc(y):
            self.c.prove(x >= 0, "shift of a non-negative value", "aux")
            return x / (1 << y)
        raise Unsupported("operator %s on symbolic values" % op)

    def signed_const(self, y, x):
        # adding a huge constant is subtracting a small one (mod 2^64); norm() settles the range
        if isc(y) and y >= I63 and not isc(x):
            return y - U64
        return y

    def ptrop(self, op, x, y, n):
        if op in ("==", "!="):
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                e = AND(eq(x.ref, y.ref), eq(x.off, y.off))
            elif isinstance(x, LPtr) and isinstance(y, LPtr):
                e = self.same_lv(x.lv, y.lv)
            elif isinstance(x, LPtr) and isinstance(y, Ptr) and isc(y.ref) and y.ref == 0:
                e = False
            elif isinstance(y, LPtr) and isinstance(x, Ptr) and isc(x.ref) and x.ref == 0:
                e = False
            else:
                raise Unsupported("pointer comparison")
            return e if op == "==" else NOT(e)
        if op in ("+", "-") and isinstance(x, Ptr) and not isinstance(y, (Ptr, LPtr)):
            y = self.signed64(y)
            return Ptr(x.ref, add(x.off, y) if op == "+" else sub(x.off, y))
        if op == "+" and isinstance(y, Ptr):
            return Ptr(y.ref, add(y.off, self.signed64(x)))
        if op == "-" and isinstance(x, Ptr) and isinstance(y, Ptr):
            self.c.prove(eq(x.ref, y.ref), "pointer difference inside one block", "safe")
            return sub(x.off, y.off)
        if op in ("+", "-") and isinstance(x, LPtr) and isinstance(x.lv, LHeap) and x.lv.idx is not None:
            y = self.signed64(y)
            return LPtr(LHeap(x.lv.ref, x.lv.field, add(x.lv.idx, y) if op == "+" else sub(x.lv.idx, y)))
        if op in ("<", "<=", ">", ">=") and isinstance(x, Ptr) and isinstance(y, Ptr):
            self.c.prove(eq(x.ref, y.ref), "pointer order inside one block", "safe")
            return self.binop(op, x.off, y.off, "bool")
        raise Unsupported("pointer operator " + op)

    def same_lv(self, a, b):
        if isinstance(a, LVar) and isinstance(b, LVar):
            return a.cell is b.cell
        if isinstance(a, LHeap) and isinstance(b, LHeap) and a.field == b.field:
            return AND(eq(a.ref, b.ref), eq(a.idx, b.idx) if a.idx is not None else True)
        if self.hooks:
            return self.hooks.same_object(self, a, b)
        raise Unsupported("address comparison")

    def l_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            if a.get("kind") == "MemberExpr" and a.get("name") in self.nodefields:
                x = b            # the width of the fields is the matter of the "capacities" contract
                while x.get("kind", "").endswith("CastExpr") or x.get("kind") == "ParenExpr":
                    self.width_ok.add(id(x))
                    x = x["inner"][0]
            v = self.rv(b)          # C++11: unsequenced; operands here have no conflicting effects
            lv = self.lv(a)
            self.store(lv, v)
            return lv
        if op == ",":
            (self.lv if a.get("valueCategory") in ("lvalue", "xvalue") else self.ev)(a)
            return self.lv(b)
        self.uns(n, op)

    def l_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        a, b = n["inner"]
        y = self.rv(b)
        lv = self.lv(a)
        x = self.load(lv)
        ct = n.get("computeResultType", {})
        t = ct.get("desugaredQualType", ct.get("qualType", ty(n)))
        v = self.binop(op, x, y, t if strip_type(t) in INTS else ty(n), n)
        if not isinstance(v, (Ptr, LPtr)):
            v = self.norm(v, strip_type(ty(n)))
            if a.get("name") not in self.nodefields:
                self.narrow(strip_type(ty(n)), n)
        self.store(lv, v)
        return lv

    def e_CompoundAssignOperator(self, n):
        return self.load(self.l_CompoundAssignOperator(n))

    # construction
    def e_InitListExpr(self, n):
        inner = n.get("inner", [])
        t = strip_type(ty(n))
        if t in INTS:
            return self.rv(inner[0]) if inner else 0
        if not inner:
            return Rec(t)
        if len(inner) == 1 and strip_type(ty(inner[0])) == t:
            return self.rv(inner[0])
        rec = self.record_decl(n)
        fields = [c for c in rec.get("inner", []) if c["kind"] == "FieldDecl"] if rec else None
        if not fields:
            self.uns(n, t)
        r = Rec(t)
        if len(fields) != len(inner):
            self.uns(n, t)
        for f, e in zip(fields, inner):
            v = self.rv(e)
            r.f[f["name"]] = v.copy() if isinstance(v, Rec) else v
        return r

    def e_ImplicitValueInitExpr(self, n):
        t = strip_type(ty(n))
        if t in INTS:
            return 0
        if t.endswith("*"):
            return NULL
        self.uns(n, t)

    def e_CXXScalarValueInitExpr(self, n):
        return self.e_ImplicitValueInitExpr(n)

    def record_decl(self, n):
        t = strip_type(ty(n)).split("::")[-1]
        for d in self.u.decl.values():
            if d.get("kind") == "CXXRecordDecl" and d.get("name") == t and any(c.get("kind") == "FieldDecl" for c in d.get("inner", [])):
                return d
        return None

    def e_CXXConstructExpr(self, n):
        t = strip_type(ty(n))
        args = [a for a in n.get("inner", [])]
        return self.construct(t, n.get("ctorType", {}).get("qualType", ""), args, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def is_elem(self, t):
        return strip_type(t) in ELEMS

    def construct(self, t, ctor, args, n):
        if self.is_elem(t):
            return self.make_elem(ctor, args, n)
        if self.hooks:
            r = self.hooks.construct(self, t, ctor, args, n)
            if r is not None:
                return r
        real = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        if len(real) == 1 and strip_type(ty(real[0])) == t:
            v = self.rv(real[0])
            return v.copy() if isinstance(v, Rec) else v
        if len(real) == 0:
            return Rec(t)
        self.uns(n, "constructor of " + t[:80] + " " + ctor)

    def make_elem(self, ctor, args, n):
        """value of a new element object, as a token"""
        args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        if len(args) == 1 and "&&" in ctor:
            src = self.lv(args[0]) if args[0].get("valueCategory") in ("lvalue", "xvalue") else LVar(Cell(self.ev(args[0])))
            tok = self.load(src)
            self.elem_moved_from(src)
            return tok
        if len(args) == 1 and self.is_elem(ty(args[0])):
            tok = self.rv(args[0])
            if self.elem != "Triv":
                self.may_throw("copy construction")
            return tok
        vals = [self.rv(a) for a in args]
        self.may_throw("construction")
        return self.hooks.new_value(self, vals) if self.hooks else self.c.fresh("val")

    def may_throw(self, what):
        if self.allow_throw and self.c.free_choice(what + " throws"):
            raise CppThrow(what)

    def e_CXXNewExpr(self, n):
        # placement new of a pointer value: ::new (addr) auto(value)
        inner = n["inner"]
        if len(inner) < 2:
            self.uns(n)
        v = self.rv(inner[0])
        p = self.ev(inner[-1])
        if isinstance(p, LPtr):
            self.store(p.lv, v)
            return p
        self.uns(n)

    def e_CXXThrowExpr(self, n):
        if not n.get("inner"):
            e = getattr(self, "current_exc", None)
            raise e if e is not None else Unsupported("rethrow outside handler")
        t = ty(n["inner"][0])
        raise CppThrow(strip_type(t))

    # ------------------------------------------------------------ calls
    def callee(self, n):
        """DeclRefExpr below the casts"""
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            n = n["inner"][0]
        return n

    def e_CallExpr(self, n):
        r = self.call_expr(n)
        return self.result_value(r, n)

    def result_value(self, r, n):
        if n.get("valueCategory") in ("lvalue", "xvalue") and isinstance(r, (LVar, LField, LHeap, LElem, LNode)) :
            return self.load(r)
        return r

    def l_CallExpr(self, n):
        r = self.call_expr(n)
        if not (isinstance(r, (LVar, LField, LHeap, LElem, LNode)) or hasattr(r, "load")):
            self.uns(n, "call does not give an lvalue: %r" % (r,))
        return r

    l_CXXMemberCallExpr = l_CXXOperatorCallExpr = l_CallExpr
    e_CXXMemberCallExpr = e_CXXOperatorCallExpr = e_CallExpr

    def call_expr(self, n):
        k = n["kind"]
        inner = n["inner"]
        if k == "CXXMemberCallExpr":
            me = inner[0]
            while me["kind"] == "ParenExpr":
                me = me["inner"][0]
            args = inner[1:]
            if me["kind"] != "MemberExpr":
                self.uns(n)
            b = me["inner"][0]
            base = None
            if me["name"].startswith("~") or me["kind"] == "CXXPseudoDestructorExpr":
                return None
            if me.get("isArrow"):
                base = self.deref(self.ev(b), b)
            else:
                base = self.lv(b) if b.get("valueCategory") in ("lvalue", "xvalue") else LVar(Cell(self.ev(b), "<tmp>", ty(b)))
            fn = self.u.decl.get(me.get("referencedMemberDecl"))
            return self.call(fn, me["name"], base, args, n)
        if k == "CXXOperatorCallExpr":
            dr = self.callee(inner[0])
            args = inner[1:]
            d = dr["referencedDecl"]
            fn = self.u.decl.get(d["id"])
            if fn is not None and fn["kind"] == "CXXMethodDecl" and has_body(fn):
                b = args[0]
                base = self.lv(b) if b.get("valueCategory") in ("lvalue", "xvalue") else LVar(Cell(self.ev(b), "<tmp>", ty(b)))
                return self.call(fn, d["name"], base, args[1:], n)
            return self.call(fn, d["name"], None, args, n, d)
        dr = self.callee(inner[0])
        if dr["kind"] == "CXXPseudoDestructorExpr":
            # trivial: pointer object goes out of use; its operand is still evaluated
            if dr.get("inner"):
                self.lv(dr["inner"][0])
            return None
        if dr["kind"] != "DeclRefExpr":
            self.uns(dr, "callee")
        d = dr["referencedDecl"]
        fn = self.u.decl.get(d["id"])
        return self.call(fn, d["name"], None, inner[1:], n, d)

    def param_is_ref(self, p):
        return ty(p).rstrip().endswith("&")

    def call(self, fn, name, this, args, n, d=None):
        if fn is None or not has_body(fn) or fn.get("_dependent"):
            if fn is not None and fn.get("explicitlyDefaulted") or (fn is not None and fn.get("isImplicit")):
                r = self.defaulted(fn, name, this, args, n)
                if r is not None:
                    return r
            return self.intrinsic(name, this, args, n, d, fn)
        ps = params_of(fn)
        vals = []
        for i, p in enumerate(ps):
            if i < len(args) and args[i]["kind"] != "CXXDefaultArgExpr":
                a = args[i]
            else:
                init = [c for c in p.get("inner", []) if not c["kind"].endswith("Attr")]
                if not init:
                    self.uns(n, "default argument")
                a = init[0]
            vals.append(self.arg(a, p))
        return self.invoke(fn, this, vals, n)

    def arg(self, a, p):
        if self.param_is_ref(p):
            if a.get("valueCategory") in ("lvalue", "xvalue"):
                return self.lv(a)
            v = self.ev(a)
            if isinstance(v, (LVar, LField, LHeap, LElem, LNode)) and not isinstance(v, Rec):
                return v
            return LVar(Cell(v, p.get("name", ""), ty(p)))
        v = self.rv(a)
        if isinstance(v, Rec):
            v = v.copy()
        t = strip_type(ty(p))
        return v

    def defaulted(self, fn, name, this, args, n):
        if name == "operator=" and this is not None:
            v = self.rv(args[0])
            self.store(this, v)
            return this
        return None

    def invoke(self, fn, this, vals, n=None):
        """call with evaluated arguments (lvalues for reference parameters)"""
        name = fn.get("name")
        self.calls.add(name)
        h = self.contracts.get(name)
        if h is not None and self.depth > 0:
            r = h(self, fn, this, vals)
            if r is not NotImplemented:
                self.c.res.contract_calls.add(name)
                return r
        if self.depth > 60:
            raise Unsupported("recursion without contract: " + str(name))
        return self.run_body(fn, this, vals)

    def run_body(self, fn, this, vals):
        self.c.res.bodies.add("%s(%s)" % (fn.get("name"), ty(fn)))
        fr = Frame(fn, this)
        ps = params_of(fn)
        for p, v in zip(ps, vals):
            if self.param_is_ref(p):
                fr.vars[p["id"]] = v
            else:
                fr.vars[p["id"]] = Cell(v, p.get("name", ""), ty(p))
        self.frames.append(fr)
        self.depth += 1
        try:
            if fn["kind"] == "CXXConstructorDecl":
                self.ctor_inits(fn, this)
            self.exec(body_of(fn))
            return None
        except Return as r:
            return r.v
        finally:
            self.depth -= 1
            self.frames.pop()

    def ctor_inits(self, fn, this):
        if self.hooks:
            return self.hooks.ctor_inits(self, fn, this)
        raise Unsupported("constructor")

    # ------------------------------------------------------------ library functions
    def intrinsic(self, name, this, args, n, d, fn):
        m = getattr(self, "i_" + name, None)
        if name == "operator[]":
            return self.i_index(this, args, n)
        if name == "operator=":
            return self.i_assign(this, args, n)
        if self.hooks:
            r = self.hooks.intrinsic(self, name, this, args, n, d, fn)
            if r is not NotImplemented:
                return r
        if m is None:
            raise Unsupported("call of " + name)
        return m(this, args, n)

    def larg(self, a):
        if a.get("valueCategory") in ("lvalue", "xvalue"):
            return self.lv(a)
        return LVar(Cell(self.ev(a), "<tmp>", ty(a)))

    def i_move(self, this, args, n):
        if len(args) != 1:
            raise Unsupported("std::move algorithm")
        return self.larg(args[0])

    i_forward = i_move

    def i_addressof(self, this, args, n):
        return self.addr(self.larg(args[0]))

    def i_index(self, this, args, n):
        base = self.larg(args[0]) if this is None else this
        i = self.rv(args[-1])
        if isinstance(base, LHeap) and base.idx is None:
            return LHeap(base.ref, base.field, i)
        raise Unsupported("operator[] on %r" % (base,))

    def i_assign(self, this, args, n):
        dst = self.larg(args[0]) if this is None else this
        src = args[-1]
        t = ty(n)
        if self.is_elem(t):
            dr = self.callee(n["inner"][0])
            mv = "&&" in ty(dr) if n["kind"] == "CXXOperatorCallExpr" else False
            s = self.larg(src)
            if mv:
                tok = self.load(s)
                if isinstance(s, LElem) and isinstance(dst, LElem):
                    apart = getattr(self.hooks, "elements_apart", None)
                    same = False if apart and apart(s, dst) else self.c.alias(s.ref, dst.ref)
                    if same is not False:
                        # element move onto itself leaves the element as it is
                        if self.c.branch(AND(eq(s.ref, dst.ref), eq(s.off, dst.off)), "self move"):
                            return dst
                self.store(dst, tok)
                self.elem_moved_from(s)
            else:
                if self.elem != "Triv":
                    self.may_throw("copy assignment")
                self.store(dst, self.load(s))
            return dst
        if self.hooks:
            r = self.hooks.assign(self, dst, src, t, n)
            if r is not NotImplemented:
                return r
        v = self.rv(src)
        self.store(dst, v)
        return dst

    def _pick(self, args, less):
        if len(args) != 2 or self.is_elem(ty(args[0])):
            raise Unsupported("min/max of this type")
        a, b = self.larg(args[0]), self.larg(args[1])
        va, vb = self.load(a), self.load(b)
        if isinstance(va, Rec) or isinstance(vb, Rec) or isinstance(va, Ptr) or isinstance(vb, Ptr):
            raise Unsupported("min/max of this type")
        return b if self.c.branch(less(va, vb), "min/max") else a

    def i_min(self, this, args, n):
        return self._pick(args, lambda a, b: lt(b, a))

    def i_max(self, this, args, n):
        return self._pick(args, lambda a, b: lt(a, b))

    def i_exchange(self, this, args, n):
        if this is not None or len(args) != 2 or self.is_elem(ty(args[0])):
            raise Unsupported("exchange")
        a = self.larg(args[0])
        old = self.load(a)
        old = old.copy() if isinstance(old, Rec) else old
        v = self.rv(args[1])
        self.store(a, v)
        return old

    def i_swap(self, this, args, n):
        if this is None and len(args) == 2:
            a, b = self.larg(args[0]), self.larg(args[1])
            va, vb = self.load(a), self.load(b)
            va = va.copy() if isinstance(va, Rec) else va
            vb = vb.copy() if isinstance(vb, Rec) else vb
            self.store(a, vb)
            self.store(b, va)
            return None
        raise Unsupported("swap")

    # allocator_traits
    def alloc_kind(self, n, which):
        t = ty(n) if which == "ret" else ""
        return SEG if any(e in strip_type(t).replace(" *", "") == e for e in ELEMS) else NODE

    def kind_of_ptr(self, t):
        t = strip_type(t).rstrip("*").strip()
        if t in ELEMS:
            return SEG
        if t.endswith("node") or "::node" in t:
            return NODE
        raise Unsupported("allocation of " + t)

    def alloc_token(self, lv, kind):
        if self.hooks:
            self.hooks.check_allocator(self, lv, kind)

    def block_count(self, kind):
        return 1 if kind != SEG else self.symbolic["block"] if self.symbolic else self.SM

    def i_allocate(self, this, args, n):
        if this is not None:
            al, cnt = this, self.rv(args[0])
        else:
            al, cnt = self.larg(args[0]), self.rv(args[1])
        kind = self.kind_of_ptr(ty(n))
        self.alloc_token(al, kind)
        self.c.prove(eq(cnt, self.block_count(kind)), "allocate:count", "safe")
        return Ptr(self.alloc_block(kind))

    def i_deallocate(self, this, args, n):
        if this is not None:
            al, rest = this, args
        else:
            al, rest = self.larg(args[0]), args[1:]
        p = self.rv(rest[0])
        cnt = self.rv(rest[1])
        kind = self.kind_of_ptr(ty(rest[0]))
        self.alloc_token(al, kind)
        self.c.prove(eq(cnt, self.block_count(kind)), "deallocate:count", "safe")
        self.free_block(p, kind)
        return None

    def i_construct(self, this, args, n):
        al = self.larg(args[0])
        self.alloc_token(al, SEG)
        p = self.rv(args[1])
        rest = args[2:]
        if not isinstance(p, Ptr):
            raise Unsupported("construct at %r" % (p,))
        lv = LElem(p.ref, p.off)
        if len(rest) == 1 and rest[0].get("valueCategory") == "xvalue":
            s = self.larg(rest[0])
            tok = self.load(s)
            self.elem_construct(lv, tok)
            self.elem_moved_from(s)
        else:
            vals = [self.rv(a) for a in rest]
            self.may_throw("construction")
            if len(vals) == 1:
                tok = vals[0]
            else:
                tok = self.hooks.new_value(self, vals) if self.hooks else self.c.fresh("val")
            self.elem_construct(lv, tok)
        return None

    def i_destroy(self, this, args, n):
        al = self.larg(args[0])
        self.alloc_token(al, SEG)
        p = self.rv(args[1])
        if not isinstance(p, Ptr):
            raise Unsupported("destroy at %r" % (p,))
        self.elem_destroy(LElem(p.ref, p.off))
        return None

    # raw memory
    def bulk(self, args, overlap):
        d, s = self.ev(args[0]), self.ev(args[1])
        nbytes = self.rv(args[2])
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            raise Unsupported("memcpy/memmove of %r" % (d,))
        if self.elem != "Triv":
            self.c.prove(False, "raw copy of a non-trivial element", "safe")
        nbytes = unc(nbytes)
        if self.symcap:
            return self.sym_bulk(d, s, nbytes, overlap)
        if isc(nbytes):
            if nbytes % 16:
                raise Unsupported("byte count")
            cnt = nbytes // 16
        else:
            cnt = None
            for k in range(0, self.SM + 1):
                if self.c.query(nbytes == 16 * k) != "unsat":
                    cnt = 0
            q = self.c.fresh("cnt")
            self.c.assume(nbytes == 16 * q)
            cnt = self.c.concretize(q, 0, self.SM, "count")
        if cnt < 0 or cnt > self.SM:
            self.c.prove(False, "bounds:raw copy", "safe")
            raise PathEnd()
        if cnt == 0:
            # pointers must still be valid (one past the end allowed)
            for p in (d, s):
                self.c.prove(AND(ne(p.ref, 0), eq(self.c.read("al", p.ref), SEG), le(0, p.off), le(p.off, self.SM)), "bounds:empty raw copy", "safe")
            return Ptr(d.ref, d.off)
        if not overlap:
            self.c.prove(OR(ne(d.ref, s.ref), le(add(d.off, cnt), s.off), le(add(s.off, cnt), d.off)), "memcpy:no overlap", "safe")
        vals = [self.elem_read(LElem(s.ref, add(s.off, i))) for i in range(cnt)]
        if self.c.on_write:
            self.c.on_write("elem_0", s.ref)
        for i in range(cnt):
            lv = LElem(d.ref, add(d.off, i))
            k = self.elem_loc(lv, "raw write")
            self.c.write("elem_%d" % k, lv.ref, vals[i])
        return Ptr(d.ref, d.off)

    def sym_bulk(self, d, s, nbytes, overlap):
        """n elements from s to d: they count as gone from where they were"""
        c = self.c
        n = c.fresh("elements")
        c.assume(AND(nbytes == 16 * n, n >= 0)) if isc(nbytes) and nbytes % 16 == 0 else self.whole_elements(nbytes, n)
        for p, what in ((d, "write"), (s, "read")):
            c.prove(AND(ne(p.ref, 0), eq(c.read("al", p.ref), SEG), le(0, p.off), le(add(p.off, n), self.SM)), "bounds:raw copy:" + what, "safe")
        if not overlap:
            c.prove(OR(eq(n, 0), ne(d.ref, s.ref), le(add(d.off, n), s.off), le(add(s.off, n), d.off)), "memcpy:no overlap", "safe")
        o = c.anyoff
        c.prove(IMP(AND(le(s.off, o), lt(o, add(s.off, n))), c.read2("cons", s.ref, o)), "raw copy of elements present", "model")
        self.sym_move(s.ref, s.off, d.ref, d.off, n, True, True)
        return Ptr(d.ref, d.off)

    def whole_elements(self, nbytes, n):
        c = self.c
        c.prove(nbytes >= 0, "byte count", "safe")
        c.assume(AND(n >= 0, 16 * n <= nbytes, nbytes < 16 * n + 16))
        c.prove(eq(nbytes, 16 * n), "whole elements", "safe")

    def sym_move(self, rs, ks, rd, kd, n, gone, new):
        """the elements [ks, ks+n) of rs are now the elements [kd, kd+n) of rd; gone, new: lifetimes end and begin"""
        c = self.c
        ts, td = c.read("tp", rs), c.read("tp", rd)
        hit = AND(le(ks, ts), lt(ts, add(ks, n)))
        over = AND(le(kd, td), lt(td, add(kd, n)))
        same = c.alias(rs, rd)
        if same is None:
            raise Unsupported("raw copy between blocks that may be the same")
        if gone:
            c.write2("cons", rs, ks, add(ks, n), False)
        if new:
            c.write2("cons", rd, kd, add(kd, n), True)
        if same is False:
            c.write("tp", rs, ITE(hit, -1, ts))
        c.write("tp", rd, ITE(hit, add(ts, sub(kd, ks)), ITE(over, -1, td)))

    def i_memcpy(self, this, args, n):
        return self.bulk(args, False)

    def i_memmove(self, this, args, n):
        return self.bulk(args, True)
