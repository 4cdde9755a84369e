"""Sequence level: contracts of the tree functions as used by the public ones, library functions, ghost state."""
import z3
from .core import *
from .interp import *
from .frontend import ty, params_of, body_of, has_body, qual as _qual

from .seqcore import *
from . import par

def qual(f):
    return "::" + _qual(f)


LIM = 1 << 59
SPECS = {}


def spec(*names):
    def deco(f):
        for n in names:
            SPECS[n] = f
        return f
    return deco


class Handle:
    """a container of the specification: its cell and its state before the call"""

    def __init__(self, cell, tree):
        self.cell, self.tree = cell, tree
        self.len, self.content, self.ver, self.ht = tree.len, tree.content, tree.ver, tree.ht

    @property
    def lv(self):
        return LVar(self.cell)


class SeqLevel:
    def __init__(self, ctx, unit, cfg):
        self.c, self.u, self.cfg = ctx, unit, cfg
        self.SM, self.BM = cfg["SM"], cfg["BM"]         # 0: any capacity
        self.sym = {}
        for n, least in (("SM", 1), ("BM", 3)):
            if cfg[n] == 0:
                v = ctx.fresh("capacity." + n)
                ctx.assume(AND(v >= least, v < (1 << 56)))
                setattr(self, n, v)
                self.sym["segment_max" if n == "SM" else "base_max"] = v
        self.std = "+" not in cfg.get("ukey", ("", "", ""))[2]
        self.vercount = 0
        self.verinfo = {}
        self.vertree = {}
        self.touched = set()
        self.trees = []
        self.streams = []
        self.cells = []
        self.destroyed = set()
        self.algos = []
        self.obliv = {}
        self.I = SInterp(unit, ctx, cfg, self)
        self.I.hooks = SHooks(self)
        self.I.symcap = self.I.symnode = False
        if self.sym:
            self.I.BM, self.I.SM = 3, 3             # only how far unfitting loops are unrolled
            for n, v in self.sym.items():
                self.I.contracts[n] = lambda I, fn, this, vals, v=v: NotImplemented if params_of(fn) else v
        self.loopcount = 0
        for n in ("find_index_root", "find_first_root", "find_last_root", "find_end_root"):
            self.I.contracts[n] = getattr(self, "k_find")
        for n in ("move_next_iterator", "move_prev_iterator", "move_iterator_count", "move_next_iterator_count", "move_prev_iterator_count",
                  "move_after_segment", "move_after_segment_count", "move_before_segment", "move_before_segment_count"):
            self.I.contracts[n] = self.k_move
        for n in ("move_next_leaf", "move_prev_leaf", "move_next_leaf_count", "move_prev_leaf_count"):
            self.I.contracts[n] = self.k_leafmove
        self.I.contracts["dereference_count"] = self.k_deref_count
        self.I.contracts["insert_single_segment"] = self.k_insert
        self.I.contracts["erase_single_segment"] = self.k_erase
        self.I.contracts["purge_segment"] = self.k_purge
        self.I.contracts["purge_node"] = self.k_purge

    # ---------------------------------------------------------------- ghost state
    GHOST = ("vercount", "loopcount")

    def save(self):
        return ({a: getattr(self, a) for a in self.GHOST}, dict(self.verinfo), dict(self.vertree), set(self.touched), list(self.trees),
                [(t, t.save()) for t in self.trees], [(s, s.cur) for s in self.streams], list(self.cells), set(self.destroyed), list(self.algos))

    def restore(self, st):
        g, vi, vt, to, tr, ts, ss, ce, de, al = st
        for a, v in g.items():
            setattr(self, a, v)
        self.verinfo, self.vertree, self.touched, self.trees = dict(vi), dict(vt), set(to), list(tr)
        for t, s in ts:
            t.restore(s)
        for s, c in ss:
            s.cur = c
        self.cells, self.destroyed, self.algos = list(ce), set(de), list(al)

    def next_ver(self):
        self.vercount += 1
        return self.vercount

    def new_tree(self, name, ln, content, owner, ht=None):
        t = Tree(self, name, ln, content, owner, ht)
        self.trees.append(t)
        self.vertree[t.ver] = t
        return t

    def empty_tree(self):
        return self.new_tree("t%d" % len(self.trees), 0, lambda j: z3.IntVal(-7), None)

    def bump(self, t, ht=None):
        t.newver(ht)
        self.vertree[t.ver] = t

    def decode_ptr(self, ref):
        if isc(ref):
            if ref == 0:
                self.c.prove(False, "deref:null", "safe")
                raise PathEnd()
            return None
        if z3.is_app(ref) and ref.decl().name() == "segptr":
            return ref.arg(0).as_long(), S(ref.arg(1))
        r = z3.simplify(ref)
        if z3.is_app(r) and r.decl().name() == "segptr":
            return r.arg(0).as_long(), S(r.arg(1))
        return None

    def tree_of(self, v, what):
        t = self.vertree.get(v)
        if t is None:
            raise Unsupported("unknown version")
        if t.ver != v:
            self.c.prove(False, "stale reference:" + what, "safe")
            raise PathEnd()
        return t

    def touch(self, v, p):
        p = S(p)
        k = (v, key(p))
        if k in self.touched:
            return
        self.touched.add(k)
        ln, ht = self.verinfo[v]
        c = self.c
        sp, si, sl, lp, li = SP(v, p), SI(v, p), SL(v, p), LP(v, p), LI(v, p)
        zero = AND(sp == 0, si == 0, sl == 0, lp == 0, li == 0)
        ok = AND(sp > 0, sl >= 1, sl <= self.SM, si >= 0, p - si >= 0, p - si + sl <= ln, IMP(lt(p, ln), si < sl), IMP(eq(p, ln), si == sl), lp >= 0, li >= 0, li < self.BM)
        c.assume(IMP(eq(ln, 0), zero))
        c.assume(IMP(AND(le(0, p), le(p, ln), lt(0, ln)), ok))
        last = S(sub(ln, 1))
        if not (isc(ln) and ln == 0) and key(last) != key(p):
            # end() is one past the last element, in its segment
            c.assume(IMP(AND(eq(p, ln), lt(0, ln)), AND(SP(v, last) == sp, SI(v, last) == si - 1, SL(v, last) == sl, LP(v, last) == lp, LI(v, last) == li)))

    def canonical_entry(self, v, p):
        self.touch(v, p)
        p = z3.IntVal(p) if isc(p) else p
        return Rec("iterator_entry", {"segment": Rec("segment_entry", {"pointer": Ptr(SP(v, p)), "index": SI(v, p), "length": SL(v, p)}),
                                      "leaf": Rec("leaf_entry", {"pointer": Ptr(LP(v, p)), "index": LI(v, p)})})

    def canonical(self, v, p):
        return Rec("iterator_data", {"entry": self.canonical_entry(v, p), "pos": p})

    def entry_fields(self, e):
        try:
            s, l = e.f["segment"].f, e.f["leaf"].f
            return s["pointer"], s["index"], s["length"], l["pointer"], l["index"]
        except (KeyError, AttributeError):
            raise Unsupported("iterator entry %r" % (e,))

    def entry_is(self, e, v, p, idx=None):
        """e designates position p of version v; with idx: its segment, at that index"""
        self.touch(v, p)
        sp, si, sl, lp, li = self.entry_fields(e)
        if not isinstance(sp, Ptr) or not isinstance(lp, Ptr):
            return False
        p = z3.IntVal(p) if isc(p) else p
        return AND(eq(sp.ref, SP(v, p)), eq(sp.off, 0), eq(si, SI(v, p) if idx is None else idx), eq(sl, SL(v, p)), eq(lp.ref, LP(v, p)), eq(lp.off, 0), eq(li, LI(v, p)))

    def iter_is(self, it, v, p):
        if "entry" not in it.f or "pos" not in it.f:
            raise Unsupported("iterator value %r" % (it,))
        return AND(self.entry_is(it.f["entry"], v, p), eq(it.f["pos"], p))

    def entry_tree(self, e, what):
        """(tree, version, q, index) of an entry; None for the entry of an empty container"""
        sp, si, sl, lp, li = self.entry_fields(e)
        if not isinstance(sp, Ptr):
            raise Unsupported("segment pointer %r" % (sp,))
        if isc(sp.ref) and sp.ref == 0:
            return None
        d = self.decode_ptr(sp.ref)
        if d is None:
            raise Unsupported("entry with an unknown segment")
        v, q = d
        t = self.tree_of(v, what)
        self.touch(v, q)
        return t, v, q, si

    def K(self, f, what):
        self.c.prove(f, what, "call")

    def op(self, t, kind, pos, val=None):
        old = t.content
        pos = S(pos)
        t.log.append((kind, pos, val))
        if kind == "ins":
            t.content = lambda j: ITE(lt(j, pos), old(j), ITE(eq(j, pos), val, old(sub(j, 1))))
            t.len = S(add(t.len, 1))
        elif kind == "del":
            t.content = lambda j: ITE(lt(j, pos), old(j), old(add(j, 1)))
            t.len = S(sub(t.len, 1))
        else:
            t.content = lambda j: ITE(eq(j, pos), val, old(j))
            return
        self.bump(t)

    # ---------------------------------------------------------------- contracts of the tree functions
    def k_find(self, I, fn, this, vals):
        name = fn["name"]
        root = vals[0]
        if not isinstance(root, RootPtr) or len(vals) != (4 if name == "find_index_root" else 3):
            raise Unsupported(name + " on %r" % (root,))
        t = root.tree
        sz, ht = vals[1], vals[2]
        self.K(t.alive, name + ":tree exists")
        self.K(AND(eq(sz, t.len), eq(ht, t.ht)), name + ":size and height")
        if name == "find_index_root":
            p = S(vals[3])
            self.K(AND(le(0, p), lt(p, t.len)), name + ":position")
        elif name == "find_first_root":
            p = 0
        elif name == "find_last_root":
            self.K(lt(0, t.len), name + ":not empty")
            p = S(sub(t.len, 1))
        else:
            p = t.len
        return self.canonical(t.ver, p)

    def iter_arg(self, name, it):
        """tree, version and position of a valid iterator argument"""
        if not isinstance(it, Rec) or "entry" not in it.f or "pos" not in it.f:
            raise Unsupported("%s on %r" % (name, it))
        et = self.entry_tree(it.f["entry"], name)
        p = S(it.f["pos"])
        if et is None:
            return None
        t, v, q, si = et
        self.K(AND(le(0, p), le(p, t.len), self.iter_is(it, v, p)), name + ":iterator is valid")
        return t, v, p

    def k_move(self, I, fn, this, vals):
        name = fn["name"]
        counted = "count" in name
        if len(vals) != (2 if counted else 1):
            return NotImplemented
        it = I.load_nocopy(vals[0])
        a = self.iter_arg(name, it)
        if a is None:
            if name in ("move_iterator_count", "move_next_iterator_count", "move_prev_iterator_count"):
                self.K(eq(vals[1], 0), name + ":range")
                return None
            self.K(False, name + ":range")
            raise PathEnd()
        t, v, p = a
        n = vals[1] if counted else None
        g = it.f["entry"].f["segment"].f
        q = {"move_next_iterator": lambda: p + 1, "move_prev_iterator": lambda: p - 1, "move_iterator_count": lambda: p + n,
             "move_next_iterator_count": lambda: p + n, "move_prev_iterator_count": lambda: p - n,
             "move_after_segment": lambda: p - g["index"] + g["length"], "move_after_segment_count": lambda: p - g["index"] + g["length"] + n,
             "move_before_segment": lambda: p - g["index"] - 1, "move_before_segment_count": lambda: p - g["index"] - 1 - n}[name]()
        q = S(q)
        if counted and name != "move_iterator_count":
            self.K(le(0, n), name + ":count")
        self.K(AND(le(0, q), le(q, t.len)), name + ":range")
        I.store(vals[0], self.canonical(v, q))
        return None

    def k_leafmove(self, I, fn, this, vals):
        name = fn["name"]
        counted = "count" in name
        if len(vals) != (2 if counted else 1):
            return NotImplemented
        e = I.load_nocopy(vals[0])
        n = vals[1] if counted else None
        et = self.entry_tree(e, name)
        if et is None:
            self.K("next" in name and (n is None or eq(n, 0)), name + ":range")
            return None
        t, v, q, si = et
        ln = t.len
        p = z3.IntVal(q) if isc(q) else q
        base = S(p - SI(v, p))
        self.K(AND(self.entry_is(e, v, q, si), le(0, si), le(si, SL(v, p)), le(0, q), le(q, ln)), name + ":entry designates a segment")
        if "next" in name:
            x = S(base + SL(v, p) + (0 if n is None else n))
            self.K(AND(True if n is None else le(0, n), le(x, ln)), name + ":range")
        else:
            x = S(base - (1 if n is None else n))
            self.K(AND(True if n is None else le(1, n), le(0, x)), name + ":range")
        # the entry now designates position x, canonically
        self.touch(v, x)
        if "next" in name and n is None:
            self.c.assume(IMP(lt(x, ln), SI(v, x) == 0) if not isc(x) else True)
        if "prev" in name and n is None and not isc(x):
            self.c.assume(SI(v, x) == SL(v, x) - 1)
        I.store(vals[0], self.canonical_entry(v, x))
        return None

    def k_deref_count(self, I, fn, this, vals):
        it, n = vals
        a = self.iter_arg("dereference_count", it)
        if a is None:
            self.K(False, "dereference_count:range")
            raise PathEnd()
        t, v, p = a
        q = S(p + n)
        self.K(AND(le(0, q), lt(q, t.len)), "dereference_count:range")
        self.touch(v, q)
        q = z3.IntVal(q) if isc(q) else q
        return LElem(SP(v, q), SI(v, q))

    def seq_fields(self, lv):
        r = self.I.load_nocopy(lv)
        if not isinstance(r, Rec) or "root_" not in r.f:
            raise Unsupported("container value %r" % (r,))
        return r

    def this_tree(self, this, name):
        r = self.seq_fields(this)
        root = r.f["root_"]
        if not isinstance(root, RootPtr):
            raise Unsupported("root %r" % (root,))
        return r, root.tree

    def alloc_ok(self, r, t):
        a, b = r.f["size_pair_"].f.get("base"), r.f["height_pair_"].f.get("base")
        return AND(eq(a, t.owner), eq(b, t.owner)) if t.owner is not None else True

    def k_insert(self, I, fn, this, vals):
        name = "insert"
        r, t = this, None
        r, t = self.this_tree(this, name)
        e = I.load_nocopy(vals[0])
        val = vals[1]
        et = self.entry_tree(e, name)
        self.K(t.alive, name + ":tree exists")
        sz, ht = r.f["size_pair_"].f["sz"], r.f["height_pair_"].f["ht"]
        self.K(AND(eq(sz, t.len), eq(ht, t.ht)), name + ":size and height")
        if et is None:
            self.K(eq(t.len, 0), name + ":position of an empty container")
            A = 0
        else:
            t2, v, q, idx = et
            if t2 is not t:
                self.K(eq(t2.len, 0) if False else False, name + ":position is in this container")
                raise PathEnd()
            p = z3.IntVal(q) if isc(q) else q
            self.K(AND(self.entry_is(e, v, q, idx), le(0, idx), le(idx, SL(v, p)), le(0, q), le(q, t.len)), name + ":position")
            A = S(p - SI(v, p) + idx)
        self.c.assume(lt(t.len, LIM))
        if self.c.branch(eq(t.len, 0), "insert into an empty container"):
            self.c.prove(eq(r.f["size_pair_"].f["base"], r.f["height_pair_"].f["base"]), "allocator:both equal", "alloc")
            t.owner = r.f["size_pair_"].f["base"]
        else:
            self.c.prove(self.alloc_ok(r, t), "allocator:insert", "alloc")
        if isinstance(I.allow_throw, bool) and I.allow_throw and self.c.free_choice("insertion fails"):
            raise CppThrow("bad_alloc")
        self.op(t, "ins", A, val)
        r.f["root_"] = RootPtr(t)
        r.f["size_pair_"].f["sz"] = t.len
        r.f["height_pair_"].f["ht"] = t.ht
        I.store(vals[0], self.canonical_entry(t.ver, A))
        return None

    def k_erase(self, I, fn, this, vals):
        name = "erase"
        r, t = self.this_tree(this, name)
        e = I.load_nocopy(vals[0])
        et = self.entry_tree(e, name)
        self.K(t.alive, name + ":tree exists")
        sz, ht = r.f["size_pair_"].f["sz"], r.f["height_pair_"].f["ht"]
        self.K(AND(eq(sz, t.len), eq(ht, t.ht)), name + ":size and height")
        if et is None or et[0] is not t:
            self.K(False, name + ":position is in this container")
            raise PathEnd()
        t2, v, q, idx = et
        p = z3.IntVal(q) if isc(q) else q
        self.K(AND(self.entry_is(e, v, q, idx), le(0, idx), lt(idx, SL(v, p)), le(0, q), le(q, t.len)), name + ":position")
        A = S(p - SI(v, p) + idx)
        self.c.prove(self.alloc_ok(r, t), "allocator:erase", "alloc")
        self.op(t, "del", A)
        r.f["size_pair_"].f["sz"] = t.len
        r.f["height_pair_"].f["ht"] = t.ht
        if self.c.branch(eq(t.len, 0), "erase the only element"):
            r.f["root_"] = RootPtr(t)
            I.store(vals[0], self.canonical_entry(t.ver, 0))
            return None
        v = t.ver
        if self.c.free_choice("the erased element was the last of its segment"):
            b = S(A - 1)
            self.c.assume(AND(le(1, A), le(A, t.len)))
            self.touch(v, b)
            b = z3.IntVal(b) if isc(b) else b
            self.c.assume(SI(v, b) + 1 == SL(v, b))
            x = self.canonical_entry(v, b)
            x.f["segment"].f["index"] = SL(v, b)
            I.store(vals[0], x)
        else:
            self.c.assume(lt(A, t.len))
            I.store(vals[0], self.canonical_entry(v, A))
        return None

    def k_purge(self, I, fn, this, vals):
        name = fn["name"]
        if len(vals) != 2 or not isinstance(vals[0], RootPtr):
            return NotImplemented
        r = self.seq_fields(this)
        t = vals[0].tree
        self.K(t.alive, name + ":tree exists")
        self.K(lt(0, t.len), name + ":not empty")
        if name == "purge_segment":
            self.K(AND(eq(t.ht, 1), eq(vals[1], t.len)), name + ":height and size")
        else:
            self.K(AND(eq(t.ht, vals[1]), le(2, vals[1])), name + ":height")
        self.c.prove(self.alloc_ok(r, t), "allocator:purge", "alloc")
        t.alive = False
        t.log.append(("purge", 0, None))
        return None

    # ---------------------------------------------------------------- declarations
    def is_alloc(self, t):
        t = strip_type(t).rstrip("& ")
        return t.startswith(("std::allocator<", "vt::Al<")) or t in ("allocator_type", "node_allocator", "A")

    def default_alloc(self):
        return 0 if self.std else z3.Int("default_alloc")

    def find_fn(self, name):
        for f in self.u.funcs:
            if f.get("name") == name and qual(f).endswith("::seq::" + name):
                return f
        return None

    def ctor_decl(self, s, ctor, t):
        norm = lambda x: x.split(" noexcept")[0].replace(" ", "")
        c1 = [f for f in self.u.funcs if f["kind"] == "CXXConstructorDecl" and f.get("name", "").split("<")[0] == s]
        m = [f for f in c1 if f["type"]["qualType"] == ctor] or [f for f in c1 if norm(f["type"]["qualType"]) == norm(ctor)]
        if len(m) > 1 and s == "iterator_t":
            return m[0]
        return m[0] if m else None

    def field_init(self, fn, name):
        rec = fn.get("_parent")
        for c in (rec or {}).get("inner", []):
            if c.get("kind") == "FieldDecl" and c.get("name") == name:
                i = [x for x in c.get("inner", []) if not x["kind"].endswith("Attr")]
                return i[0] if i else None
        return None

    def iter_call(self, name, lv, vals, nparam=None):
        for f in self.u.funcs:
            if f.get("name") == name and "::iterator_t::" in qual(f) and len(params_of(f)) == len(vals) and f["kind"] == "CXXMethodDecl":
                p = params_of(f)
                if p and nparam and nparam not in ty(p[0]):
                    continue
                return self.I.invoke(f, lv, vals)
        raise Unsupported("iterator method " + name)

    # ---------------------------------------------------------------- library functions
    def x_make_move_iterator(self, I, this, args, n):
        return Rec("move_iterator", {"base": I.rv(args[0])})

    def x_select_on_container_copy_construction(self, I, this, args, n):
        a = I.rv(args[0]) if args else I.load(this)
        return 0 if self.std else SEL(z3.IntVal(a) if isc(a) else a)

    def x_begin(self, I, this, args, n):
        v = I.load_nocopy(this if this is not None else I.larg(args[0]))
        if isinstance(v, Rec) and v.tag == "initializer_list":
            return ExtPtr(v.f["arr"], 0)
        return NotImplemented

    def x_end(self, I, this, args, n):
        v = I.load_nocopy(this if this is not None else I.larg(args[0]))
        if isinstance(v, Rec) and v.tag == "initializer_list":
            return ExtPtr(v.f["arr"], v.f["arr"].n)
        return NotImplemented

    def x_size(self, I, this, args, n):
        v = I.load_nocopy(this)
        if isinstance(v, Rec) and v.tag == "initializer_list":
            return v.f["arr"].n
        return NotImplemented

    def in_pos(self, r, what):
        s = r.f["stream"]
        self.c.prove(eq(r.f["pos"], s.cur), "single-pass source:" + what, "call")
        return s

    def operator(self, I, op, lvs, n, args):
        vs = [I.load_nocopy(x) for x in lvs]
        a = vs[0]
        if isinstance(a, Rec) and a.tag == "move_iterator":
            b = LField(lvs[0], "base")
            if op == "*":
                return self.iter_call("operator*", b, [])
            if op == "->":
                return self.iter_call("operator->", b, [])
            if op in ("++", "--"):
                old = a.copy()
                self.iter_call("operator" + op, b, [])
                return old if len(lvs) > 1 else lvs[0]
            if op in ("==", "!=", "<", "-") and len(vs) == 2 and isinstance(vs[1], Rec):
                return self.iter_call("operator" + op, b, [LField(lvs[1], "base")], "iterator_t")
        if isinstance(a, Rec) and a.tag == "In":
            if op == "*":
                s = self.in_pos(a, "read")
                self.c.prove(lt(a.f["pos"], s.n), "single-pass source:read past the end", "call")
                I.may_throw("source read")
                return LVar(Cell(s.fn(a.f["pos"]), "<source>", "const vt::Elem"))
            if op == "++":
                s = self.in_pos(a, "step")
                self.c.prove(lt(a.f["pos"], s.n), "single-pass source:step past the end", "call")
                I.may_throw("source step")
                old = a.copy()
                a.f["pos"] = S(add(a.f["pos"], 1))
                s.cur = a.f["pos"]
                return old if len(lvs) > 1 else lvs[0]
            if op in ("==", "!="):
                b = vs[1]
                s = a.f["stream"]
                if b.f["stream"] is not s:
                    raise Unsupported("iterators of two sources")
                e = eq(a.f["pos"], b.f["pos"])
                for x in (a, b):
                    self.c.prove(OR(eq(x.f["pos"], s.cur), eq(x.f["pos"], s.n)), "single-pass source:compare", "call")
                I.may_throw("source comparison")
                return e if op == "==" else NOT(e)
        if op in ("==", "!=") and len(args) >= 1 and all(self.is_alloc(ty(x)) for x in args):
            e = eq(vs[0], vs[1])
            return e if op == "==" else NOT(e)
        return NotImplemented

    # ---- algorithms of the standard library: assumed contracts, results named by fresh functions
    def algo(self, I, name, iters, extra, mutate, result=False):
        pos, t = [], None
        for it in iters:
            if not isinstance(it, Rec) or it.tag != "iterator_t":
                raise Unsupported("algorithm on %r" % (it,))
            d = it.f["it_"]
            et = self.entry_tree(d.f["entry"], name)
            if et is None:
                raise Unsupported("algorithm on an iterator without container")
            if t is not None and et[0] is not t and mutate:
                self.K(False, name + ":range of one container")
                raise PathEnd()
            t1, v, q, _ = et
            p = S(d.f["pos"])
            self.K(AND(le(0, p), le(p, t1.len), self.iter_is(d, v, p)), name + ":iterator is valid")
            pos.append((t1, p))
            t = t1
        ex = [self.fname(x) for x in extra]
        rec = {"name": name, "pos": pos, "extra": ex, "before": pos[0][0].content, "len": pos[0][0].len}
        k = len(self.algos)
        self.algos.append(rec)
        if mutate:
            lo, hi = pos[0][1], pos[-1][1]
            self.K(AND([le(pos[i][1], pos[i + 1][1]) for i in range(len(pos) - 1)]), name + ":range")
            old = t.content
            res = z3.Function("%s_result%d" % (name, k), z3.IntSort(), z3.IntSort())
            rec["result"] = res
            t.content = lambda j: ITE(AND(le(lo, j), lt(j, hi)), res(z3.IntVal(j) if isc(j) else j), old(j))
            t.log.append(("algo", 0, None))
            I.may_throw("element operation")
            if result:
                r = self.c.fresh(name + "_len")
                self.c.assume(AND(le(lo, r), le(r, hi)))
                rec["end"] = r
                return Rec("iterator_t", {"it_": self.canonical(t.ver, r)})
            return None
        I.may_throw("element operation")
        b = self.c.fresh_bool(name)
        rec["result"] = b
        return b

    def fname(self, v):
        if isinstance(v, Rec):
            return short(v.tag)
        if isinstance(v, Opaque):
            return v.tag.replace("fn:", "")
        return v

    def _mut(name, niter, nextra, result=False):
        def f(self, I, this, args, n):
            if this is not None or len(args) < niter or len(args) > niter + nextra:
                return NotImplemented
            vs = [I.rv(a) for a in args]
            return self.algo(I, name, vs[:niter], vs[niter:], True, result)
        return f

    x_remove = _mut("remove", 2, 1, True)
    x_remove_if = _mut("remove_if", 2, 1, True)
    x_unique = _mut("unique", 2, 1, True)
    x_reverse = _mut("reverse", 2, 0)
    x_stable_sort = _mut("stable_sort", 2, 1)
    x_sort = _mut("sort", 2, 1)
    x_inplace_merge = _mut("inplace_merge", 3, 1)

    def x_equal(self, I, this, args, n):
        vs = [I.rv(a) for a in args]
        return self.algo(I, "equal", vs[:4], vs[4:], False) if len(vs) in (3, 4) else NotImplemented

    def x_lexicographical_compare(self, I, this, args, n):
        vs = [I.rv(a) for a in args]
        return self.algo(I, "lexicographical_compare", vs[:4], vs[4:], False) if len(vs) == 4 else NotImplemented

    # ---------------------------------------------------------------- set-up of a specification
    def alloc_token(self, name):
        return 0 if self.std else self.c.fresh("alloc_" + name)

    def seq(self, name, empty=False):
        c = self.c
        ln = 0 if empty else c.fresh("len_" + name)
        if not empty:
            c.assume(AND(ln >= 0, ln < LIM))
        a = self.alloc_token(name)
        f = z3.Function("elem_" + name, z3.IntSort(), z3.IntSort())
        t = self.new_tree(name, ln, lambda j: f(z3.IntVal(j) if isc(j) else j), a)
        cell = Cell(Rec("seq", {"root_": RootPtr(t), "size_pair_": Rec("size_pair", {"base": a, "sz": ln}), "height_pair_": Rec("height_pair", {"base": a, "ht": t.ht})}), name, "seq")
        self.cells.append(cell)
        h = Handle(cell, t)
        h.alloc = a
        return h

    def blank(self):
        """storage of an object under construction"""
        return Cell(Rec("seq"), "this", "seq")

    def pos(self, h, name="p", end=True):
        p = self.c.fresh(name)
        self.c.assume(AND(p >= 0, le(p, h.len) if end else lt(p, h.len)))
        return p

    def it(self, h, p):
        return Rec("iterator_t", {"it_": self.canonical(h.ver, p)})

    def elem_ref(self, h, a):
        self.touch(h.ver, a)
        a = z3.IntVal(a) if isc(a) else a
        return LElem(SP(h.ver, a), SI(h.ver, a))

    def value(self, h):
        """argument passed by reference: a separate object, or an element of the container"""
        if self.variant == "alias":
            a = self.pos(h, "a", False)
            return h.content(a), self.elem_ref(h, a)
        v = self.c.fresh("value")
        return v, LVar(Cell(v, "value", "vt::Elem"))

    def count(self, name="count"):
        n = self.c.fresh(name)
        self.c.assume(AND(n >= 0, n < LIM))
        return n

    def source(self, kind, other=None):
        """(first, last, length, values) of a source range of the given kind"""
        c = self.c
        if kind in ("const", "move"):
            o = other
            a, b = self.pos(o, "first"), self.pos(o, "last")
            c.assume(le(a, b))
            ia, ib = self.it(o, a), self.it(o, b)
            if kind == "move":
                ia, ib = Rec("move_iterator", {"base": ia}), Rec("move_iterator", {"base": ib})
            f = o.content
            return ia, ib, S(b - a), lambda i: f(add(a, i)), (a, b)
        n = self.count("srclen")
        f = z3.Function("source", z3.IntSort(), z3.IntSort())
        fn = lambda i: f(z3.IntVal(i) if isc(i) else i)
        if kind == "In":
            st = Stream(len(self.streams), n, fn)
            self.streams.append(st)
            return Rec("In", {"stream": st, "pos": 0}), Rec("In", {"stream": st, "pos": n}), n, fn, None
        arr = Arr("source", n, fn)
        if kind == "array":
            return ExtPtr(arr, 0), ExtPtr(arr, n), n, fn, None
        il = Rec("initializer_list", {"arr": arr})
        return il, None, n, fn, None

    def method(self, name, types=None, pred=None):
        norm = lambda s: s.replace("boost::segmented_tree::", "").replace("const_iterator", "const_iterator")
        for f in self.u.funcs:
            if f.get("name") != name or "::seq::" not in qual(f):
                continue
            if qual(f).split("::seq::")[1] != name:
                continue
            ps = [p["type"]["qualType"] for p in params_of(f)]
            if types is not None and (len(ps) != len(types) or not all(self.tmatch(a, b) for a, b in zip(ps, types))):
                continue
            if pred and not pred(f["type"]["qualType"]):
                continue
            return f
        raise Unsupported("no function %s%r" % (name, types))

    TYPES = {
        "cit": lambda t: t == "const_iterator", "it": lambda t: t == "iterator", "val&": lambda t: t.replace("value_type", "vt::Elem") in ("const vt::Elem &", "const vt::Triv &"),
        "val&&": lambda t: t in ("vt::Elem &&", "vt::Triv &&"), "n": lambda t: t in ("size_type", "std::size_t", "unsigned long"),
        "In": lambda t: t.startswith("vt::In<"), "ilist": lambda t: t.startswith("std::initializer_list"), "alloc": lambda t: "allocator<" in t or "vt::Al<" in t,
        "seq&": lambda t: "seq<" in t and t.rstrip().endswith("> &") and not t.startswith("const"), "seq&&": lambda t: "seq<" in t and t.rstrip().endswith("&&"),
        "cseq&": lambda t: t.startswith("const") and "seq<" in t and t.rstrip().endswith("> &"), "move": lambda t: t.startswith("std::move_iterator"),
        "int&&": lambda t: t == "int &&", "Cmp": lambda t: t in ("vt::Cmp", "Cmp"), "Pred": lambda t: t in ("vt::Pred", "Pred"),
    }

    def tmatch(self, t, k):
        f = self.TYPES.get(k)
        return f(t) if f else t == k

    def ctor(self, types):
        for f in self.u.funcs:
            if f["kind"] == "CXXConstructorDecl" and qual(f).endswith("::seq::seq"):
                ps = [p["type"]["qualType"] for p in params_of(f)]
                if len(ps) == len(types) and all(self.tmatch(a, b) for a, b in zip(ps, types)):
                    return f
        raise Unsupported("no constructor %r" % (types,))

    # ---------------------------------------------------------------- postconditions
    def P(self, f, what, cat="spec"):
        self.c.prove(f, "%s:%s" % (self.name, what), cat)

    def tree_now(self, cell):
        r = cell.v
        return r.f["root_"].tree

    def expect(self, cell, ln, fn, what="content"):
        """the container holds exactly fn(0), .., fn(ln-1)"""
        if isinstance(cell, Handle):
            cell = cell.cell
        t = self.tree_now(cell)
        self.P(t.alive, what + ":tree exists")
        self.P(eq(t.len, ln), what + ":size")
        j = self.c.fresh("j")
        self.P(IMP(AND(j >= 0, lt(j, ln)), eq(t.content(j), fn(j))), what + ":elements")

    def expect_iter(self, r, cell, p, what="returned iterator"):
        if isinstance(cell, Handle):
            cell = cell.cell
        t = self.tree_now(cell)
        if not isinstance(r, Rec) or "it_" not in r.f:
            raise Unsupported("iterator result %r" % (r,))
        self.P(self.iter_is(r.f["it_"], t.ver, S(p)), what)

    def expect_elem(self, lv, h, p, what="designates the element"):
        if not isinstance(lv, LElem):
            raise Unsupported("reference result %r" % (lv,))
        d = self.decode_ptr(lv.ref)
        if d is None:
            raise Unsupported("reference result")
        v, q = d
        t = self.tree_now(h.cell)
        self.P(v == t.ver, what + ":container")
        self.touch(v, q)
        q = z3.IntVal(q) if isc(q) else q
        self.P(AND(eq(q - SI(v, q) + lv.off, p), le(0, lv.off), lt(lv.off, SL(v, q))), what)

    def unchanged(self, h, strict=True, cat="exc"):
        t = self.tree_now(h.cell)
        if strict:
            self.P(t is h.tree and t.ver == h.ver, "unchanged:structure, so iterators stay valid", cat)
        self.P(eq(t.len, h.len), "unchanged:size", cat)
        j = self.c.fresh("j")
        self.P(IMP(AND(j >= 0, lt(j, h.len)), eq(t.content(j), h.content(j))), "unchanged:elements", cat)

    def check_all(self):
        """structure of every live container, ownership of every tree"""
        held = {}
        for cell in self.cells:
            r = cell.v
            try:
                root, sz, ht = r.f["root_"], r.f["size_pair_"].f["sz"], r.f["height_pair_"].f["ht"]
                a, b = r.f["size_pair_"].f["base"], r.f["height_pair_"].f["base"]
            except (KeyError, AttributeError):
                raise Unsupported("container fields " + repr(r))
            if not isinstance(root, RootPtr):
                raise Unsupported("root %r" % (root,))
            t = root.tree
            held.setdefault(id(t), []).append(cell.name)
            self.P(OR(t.alive, eq(t.len, 0)), cell.name + ":holds an existing tree", "wf")
            self.P(AND(eq(sz, t.len), eq(ht, t.ht)), cell.name + ":size and height fields", "wf")
            self.P(eq(a, b), cell.name + ":element and node allocator equal", "alloc")
            if t.owner is not None:
                self.P(OR(eq(t.len, 0), eq(a, t.owner)), cell.name + ":memory comes from its own allocator", "alloc")
        for t in self.trees:
            n = len(held.get(id(t), []))
            if n > 1:
                self.P(eq(t.len, 0), t.name + ":held by one container", "wf")
            if n == 0 and t.alive:
                self.P(eq(t.len, 0), t.name + ":not lost", "leak")


class Case:
    def __init__(self, fn, this, vals, post, thrown=None, born=None):
        self.fn, self.this, self.vals, self.post, self.thrown, self.born = fn, this, vals, post, thrown, born


def seq_level(ctx, unit, cfg, name):
    L = SeqLevel(ctx, unit, cfg)
    base, _, variant = name.partition("@")
    L.name, L.variant = name, variant
    from . import seqspecs
    case = SPECS[base](L)
    if not ctx.feasible():
        return "vacuous-precondition"
    thrown = False
    try:
        r = L.I.invoke(case.fn, case.this, case.vals)
    except CppThrow as e:
        thrown = True
        L.exc = e.what
    if not ctx.feasible():
        raise PathEnd()
    if thrown:
        if case.thrown is None:
            L.P(False, "no exception", "exc")
            return "throw"
        if case.born is not None:
            # the object never came to be: nothing of it may be left
            pass
        case.thrown()
        L.check_all()
        return "throw"
    if case.born is not None:
        L.cells.append(case.born)
    case.post(r)
    L.check_all()
    return "return"


par.LEVELS["seq"] = seq_level
