"""Sequence level: the public functions of seq over the contracts of the tree level.

A tree is its ghost sequence here.  The functions whose contracts are proved at tree level (insert_single_*,
erase_single_*, find_*_root, move_*) are used through those contracts; everything else is interpreted from the AST.
"""
import z3
from .core import *
from .interp import *
from .frontend import ty, params_of, body_of, has_body, qual

Z = z3.IntSort()
SP, SI, SL, LP, LI = [z3.Function(n, Z, Z, Z) for n in ("segptr", "segidx", "seglen", "leafptr", "leafidx")]
MOVED_TOK = MOVED
SEL = z3.Function("select_on_copy", Z, Z)
DEFAULT_ALLOC = z3.Int("default_alloc")


def S(t):
    return unc(z3.simplify(t)) if not isc(t) else t


class Tree:
    """ghost state of one tree (possibly empty)"""
    n = 0

    def __init__(self, L, name, ln, content, owner, ht=None, ver=None):
        self.L, self.name = L, name
        self.len, self.content, self.owner = ln, content, owner
        self.alive = True
        self.log = []
        self.structops = 0
        self.ver = None
        self.ht = None
        self.newver(ht)

    def newver(self, ht=None):
        L = self.L
        self.ver = L.next_ver()
        if ht is None:
            ht = 0 if (isc(self.len) and self.len == 0) else L.c.fresh("ht")
        self.ht = ht
        if not isc(ht):
            L.c.assume(AND(ht >= 0, ht < (1 << 60), eq(ht, 0) == eq(self.len, 0) if not isc(self.len) else ht >= 1))
        L.verinfo[self.ver] = (self.len, self.ht)

    STATE = ("len", "content", "owner", "alive", "ver", "ht")

    def save(self):
        return tuple(getattr(self, a) for a in self.STATE) + (list(self.log),)

    def restore(self, s):
        for a, v in zip(self.STATE, s):
            setattr(self, a, v)
        self.log = list(s[-1])


class RootPtr:
    """value of root_: the handle of a tree, null exactly when the tree is empty"""
    __slots__ = ("tree",)

    def __init__(self, tree):
        self.tree = tree

    def __repr__(self):
        return "Root(%s)" % (self.tree.name if self.tree else None)


class Arr:
    def __init__(self, name, n, fn):
        self.name, self.n, self.fn = name, n, fn


class ExtPtr:
    """pointer into an array outside the container"""
    __slots__ = ("arr", "off")

    def __init__(self, arr, off):
        self.arr, self.off = arr, unc(off)


class LExt:
    def __init__(self, arr, off):
        self.arr, self.off = arr, unc(off)

    def load(self, I):
        I.c.prove(AND(le(0, self.off), lt(self.off, self.arr.n)), "bounds:source", "safe")
        return self.arr.fn(self.off)

    def store(self, I, v):
        raise Unsupported("write to the source")


class Stream:
    def __init__(self, sid, n, fn):
        self.sid, self.n, self.fn, self.cur = sid, n, fn, 0


def short(t):
    """last component of a class name, template arguments dropped"""
    t = strip_type(t).rstrip("&* ")
    out, d = "", 0
    for ch in t:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
    return out.split("::")[-1].strip()


MK = {}


def mk(vals):
    f = MK.get(len(vals))
    if f is None:
        f = MK[len(vals)] = z3.Function("make%d" % len(vals), *([Z] * (len(vals) + 1))) if vals else None
    if not vals:
        return z3.Int("default_value")
    return f(*[z3.IntVal(v) if isc(v) else v for v in vals])


class SInterp(Interp):
    def __init__(self, unit, ctx, cfg, L):
        Interp.__init__(self, unit, ctx, cfg)
        self.L = L
        self.MAXUNROLL = 4
        self.trial_frames = ()

    # ---- values
    def elem_pos(self, lv, what):
        """tree and position of an element lvalue"""
        L, c = self.L, self.c
        d = L.decode_ptr(lv.ref)
        if d is None:
            raise Unsupported("element through an unknown pointer")
        v, q = d
        t = L.tree_of(v, what)
        si, sl = SI(v, q), SL(v, q)
        L.touch(v, q)
        c.prove(AND(le(0, lv.off), lt(lv.off, sl), t.alive), "bounds:segment:" + what, "safe")
        return t, S(q - si + lv.off)

    def elem_read(self, lv):
        t, j = self.elem_pos(lv, "read")
        return t.content(j)

    def elem_assign(self, lv, tok):
        t, j = self.elem_pos(lv, "assign")
        self.L.op(t, "asg", j, tok)

    def elem_moved_from(self, lv):
        if isinstance(lv, LElem):
            if self.elem != "Triv":
                self.elem_assign(lv, MOVED)
        elif isinstance(lv, (LVar, LField)):
            if self.elem != "Triv":
                self.store(lv, MOVED)

    def deref(self, p, n=None):
        if isinstance(p, ExtPtr):
            return LExt(p.arr, p.off)
        return Interp.deref(self, p, n)

    def index(self, p, i):
        if isinstance(p, ExtPtr):
            return LExt(p.arr, S(add(p.off, self.signed64(i))))
        return Interp.index(self, p, i)

    def arith_inc(self, v, d, t):
        if isinstance(v, ExtPtr):
            return ExtPtr(v.arr, S(add(v.off, d)))
        return Interp.arith_inc(self, v, d, t)

    def addr(self, lv):
        if isinstance(lv, LExt):
            return ExtPtr(lv.arr, lv.off)
        return Interp.addr(self, lv)

    def truth(self, v, why=""):
        if isinstance(v, RootPtr):
            v = ne(v.tree.len, 0) if v.tree else False
        return Interp.truth(self, v, why)

    def ptrnull(self, v):
        if isinstance(v, RootPtr):
            return eq(v.tree.len, 0) if v.tree else True
        if isinstance(v, Ptr):
            return eq(v.ref, 0)
        return False

    def binop(self, op, x, y, t, n=None):
        if isinstance(x, (RootPtr, ExtPtr)) or isinstance(y, (RootPtr, ExtPtr)):
            return self.ptrop(op, x, y, n)
        return Interp.binop(self, op, x, y, t, n)

    def ptrop(self, op, x, y, n):
        if isinstance(x, RootPtr) or isinstance(y, RootPtr):
            if op in ("==", "!="):
                isnull = lambda p: isinstance(p, RootPtr) and p.tree is None or isinstance(p, Ptr) and isc(p.ref) and p.ref == 0
                if isnull(y):
                    e = self.ptrnull(x)
                elif isnull(x):
                    e = self.ptrnull(y)
                else:
                    raise Unsupported("comparison of roots")
                return e if op == "==" else NOT(e)
            raise Unsupported("arithmetic on a root")
        if isinstance(x, ExtPtr) and isinstance(y, ExtPtr):
            if x.arr is not y.arr:
                raise Unsupported("pointers into two arrays")
            if op == "-":
                return S(sub(x.off, y.off))
            return Interp.binop(self, op, x.off, y.off, "bool")
        if isinstance(x, ExtPtr) and op in ("+", "-"):
            y = self.signed64(y)
            return ExtPtr(x.arr, S(add(x.off, y) if op == "+" else sub(x.off, y)))
        if isinstance(x, ExtPtr) and op in ("==", "!="):
            return op == "!="
        return Interp.ptrop(self, op, x, y, n)

    def store(self, lv, v):
        if isinstance(lv, LField) and lv.name == "root_" and isinstance(v, Ptr) and isc(v.ref) and v.ref == 0:
            v = RootPtr(self.L.empty_tree())
        Interp.store(self, lv, v)

    def cast(self, n):
        ck = n.get("castKind")
        if ck == "PointerToBoolean":
            v = self.rv(n["inner"][0])
            if isinstance(v, RootPtr):
                return NOT(self.ptrnull(v))
        if ck in ("ConstructorConversion", "UserDefinedConversion") or ck == "NoOp":
            pass
        return Interp.cast(self, n)

    # ---- constructors
    def run_body(self, fn, this, vals):
        if fn["kind"] != "CXXConstructorDecl":
            return Interp.run_body(self, fn, this, vals)
        self.c.res.bodies.add("%s(%s)" % (fn.get("name"), ty(fn)))
        fr = Frame(fn, this)
        for p, v in zip(params_of(fn), vals):
            fr.vars[p["id"]] = v if self.param_is_ref(p) else Cell(v, p.get("name", ""), ty(p))
        self.frames.append(fr)
        self.depth += 1
        deleg = False
        try:
            deleg = self.ctor_inits(fn, this)
            self.exec(body_of(fn))
            return None
        except Return as r:
            return None
        except CppThrow:
            if deleg:                      # the target constructor has finished: the object is destroyed
                d = self.L.find_fn("~" + fn["name"].lstrip("~"))
                if d is not None:
                    self.invoke(d, this, [])
                self.L.destroyed.add(id(this.cell))
            raise
        finally:
            self.depth -= 1
            self.frames.pop()

    def ctor_inits(self, fn, this):
        deleg = False
        for n in fn.get("inner", []):
            if n.get("kind") != "CXXCtorInitializer":
                continue
            e = n["inner"][0]
            while e["kind"] in ("ExprWithCleanups", "CXXBindTemporaryExpr") and ("delegatingInit" in n):
                e = e["inner"][0]
            if "delegatingInit" in n:
                deleg = True
                d = self.L.ctor_decl(short(ty(e)), e.get("ctorType", {}).get("qualType", ""), ty(e))
                if d is None:
                    raise Unsupported("delegating constructor")
                args = [a for a in e.get("inner", [])]
                self.call_ctor(d, this, args)
            elif "baseInit" in n:
                v = self.rv(e)
                self.store(LField(this, "base"), v)
            else:
                name = n.get("anyInit", {}).get("name")
                if name is None:
                    raise Unsupported("constructor initialiser")
                if e["kind"] == "CXXDefaultInitExpr":
                    e = self.L.field_init(fn, name)
                    if e is None:
                        raise Unsupported("default member initialiser")
                v = self.rv(e)
                self.store(LField(this, name), v)
        return deleg

    def call_ctor(self, d, this, args):
        vals = []
        for i, p in enumerate(params_of(d)):
            a = args[i] if i < len(args) else None
            if a is None or a["kind"] == "CXXDefaultArgExpr":
                init = [c for c in p.get("inner", []) if not c["kind"].endswith("Attr")]
                if not init:
                    raise Unsupported("default argument")
                a = init[0]
            vals.append(self.arg(a, p))
        return self.run_body(d, this, vals)

    def e_CXXDefaultInitExpr(self, n):
        if n.get("inner"):
            return self.rv(n["inner"][0])
        self.uns(n)

    def e_InitListExpr(self, n):
        t = strip_type(ty(n))
        inner = n.get("inner", [])
        if t.endswith("*"):
            return self.rv(inner[0]) if inner else NULL
        if self.L.is_alloc(t) and not inner:
            return self.L.default_alloc()
        if short(t) in ("size_pair", "height_pair") and not inner:
            return Rec(short(t), {"base": self.L.default_alloc(), "sz": 0, "ht": 0})
        return Interp.e_InitListExpr(self, n)

    # ---- loops
    def has_jump(self, n):
        return n.get("kind") in ("ContinueStmt", "GotoStmt", "LabelStmt") or any(self.has_jump(c) for c in n.get("inner", []))

    def s_CompoundStmt(self, n):
        # a block that leaves the function never reaches the back edge of the loop under trial
        if self.trial_frames and n.get("inner") and n["inner"][-1]["kind"] == "ReturnStmt" and self.frames[-1] in self.trial_frames \
           and not self.has_jump(n):
            raise PathEnd()
        return Interp.s_CompoundStmt(self, n)

    def loop(self, n, cond, inc, body, post):
        from .seqloops import LoopInfer
        LoopInfer(self, n, cond, inc, body, post).run()


class SHooks:
    def __init__(self, L):
        self.L = L

    def allocated(self, I, r, kind):
        raise Unsupported("allocation outside the tree functions")

    freed = allocated

    def check_allocator(self, I, lv, kind):
        pass

    def needs_destroy(self, I, t):
        return False

    def destroy_local(self, I, cell):
        pass

    def new_value(self, I, vals):
        return mk(vals)

    def elements_apart(self, a, b):
        """elements of two trees"""
        da, db = self.L.decode_ptr(a.ref), self.L.decode_ptr(b.ref)
        if not da or not db:
            return False
        ta, tb = self.L.vertree.get(da[0]), self.L.vertree.get(db[0])
        return ta is not None and tb is not None and ta is not tb and ta.alive and tb.alive and (ta.ver, tb.ver) == (da[0], db[0])

    def same_object(self, I, a, b):
        if isinstance(a, LVar) and isinstance(b, LVar):
            return a.cell is b.cell
        if isinstance(a, LField) and isinstance(b, LField):
            return a.name == b.name and self.same_object(I, a.base, b.base)
        if type(a) is not type(b):
            return False
        if isinstance(a, LElem):
            if self.elements_apart(a, b):
                return False
            return AND(eq(a.ref, b.ref), eq(a.off, b.off))
        raise Unsupported("address comparison")

    def assign(self, I, dst, src, t, n):
        return NotImplemented

    def ctor_inits(self, I, fn, this):
        raise Unsupported("constructor")

    def construct(self, I, t, ctor, args, n):
        L = self.L
        s = short(t)
        if L.is_alloc(t):
            if not args:
                return L.default_alloc()
            v = I.rv(args[0])
            return v
        if s in ("iterator_t", "seq", "size_pair", "height_pair"):
            real = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
            if s != "seq" and len(real) == 1 and strip_type(ty(real[0])) == strip_type(t):
                v = I.rv(real[0])
                return v.copy()
            d = L.ctor_decl(s, ctor, t)
            if s in ("size_pair", "height_pair") and not real:
                return Rec(s, {"base": L.default_alloc(), "sz": 0, "ht": 0})
            if d is None:
                raise Unsupported("constructor %s %s" % (s, ctor))
            cell = Cell(Rec(s), "<new>", t)
            I.call_ctor(d, LVar(cell), args)
            return cell.v
        if s in ("less", "equal_to", "Cmp", "Pred", "greater"):
            if args:
                v = I.rv(args[0])
                return v
            return Opaque("fn:" + s)
        if s == "integral_constant":
            return Rec(s)
        if s == "reverse_iterator":
            real = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
            if len(real) == 1:
                v = I.rv(real[0])
                return v.copy() if v.tag == "reverse_iterator" else Rec("reverse_iterator", {"base": v.copy()})
        if s == "move_iterator":
            real = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
            if len(real) == 1:
                v = I.rv(real[0])
                return v.copy() if v.tag == "move_iterator" else Rec("move_iterator", {"base": v.copy()})
        return None

    def intrinsic(self, I, name, this, args, n, d, fn):
        L = self.L
        m = getattr(L, "x_" + name, None)
        if m is not None:
            r = m(I, this, args, n)
            if r is not NotImplemented:
                return r
        if name.startswith("operator"):
            lvs = ([this] if this is not None else []) + [I.larg(a) for a in args]
            r = L.operator(I, name[8:], lvs, n, args)
            if r is not NotImplemented:
                return r
        return NotImplemented
