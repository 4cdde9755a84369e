"""Front end: instantiate the templates of the header in /repo and read clang's typed AST of the instantiations.

Nothing of the code under verification is kept in /verif: the AST is dumped from REPO's current header on every run.
"""
import json, os, subprocess, sys, hashlib

REPO = os.environ.get("ST_REPO", "/repo")
INC = os.path.join(REPO, "include")
CLANG = "clang++"
FLAGS = ["-std=c++11", "-include", "cstdint", "-include", "stdexcept", "-I", INC, "-fsyntax-only", "-w"]


class FrontendError(Exception):
    pass


def dump_ast(tu_text, workdir, name):
    os.makedirs(workdir, exist_ok=True)
    src = os.path.join(workdir, name + ".cpp")
    with open(src, "w") as f:
        f.write(tu_text)
    cmd = [CLANG] + FLAGS + ["-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=boost::segmented_tree", src]
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    if p.returncode != 0:
        raise FrontendError("clang rejected the translation unit:\n" + p.stderr[-4000:])
    docs = []
    dec = json.JSONDecoder()
    s = p.stdout
    i = 0
    n = len(s)
    while i < n:
        while i < n and s[i] in " \t\r\n":
            i += 1
        if i >= n:
            break
        if s[i] != '{':
            j = s.find('\n', i)     # "Dumping ...:" header lines
            if j < 0:
                break
            i = j + 1
            continue
        d, i = dec.raw_decode(s, i)
        docs.append(d)
    return docs


class Unit:
    """All declarations of one translation unit, by clang id."""

    def __init__(self, docs):
        self.decl = {}        # id -> node (with body if any)
        self.parent = {}      # id -> parent decl node
        self.funcs = []       # function decls with bodies that are not uninstantiated templates
        seen = set()
        for d in docs:
            self._walk(d, None, False)

    def node_fields(self):
        """field of a node -> (type, extent or None), from the instantiated record"""
        if getattr(self, "_nf", None) is None:
            self._nf = self._node_fields()
        return self._nf

    @property
    def bool_constants(self):
        """clang's ids of std::true_type::value and std::false_type::value"""
        if getattr(self, "_bc", None) is None:
            self._bc = {}
            refs = []

            def walk(n):
                if n.get("kind") == "DeclRefExpr" and n.get("referencedDecl", {}).get("name") == "value":
                    refs.append(n["referencedDecl"]["id"])
                for c in n.get("inner", []):
                    walk(c)
            for d in self.decl.values():
                if d.get("name") == "stverif_constants":
                    walk(d)
            if len(refs) == 2 and refs[0] != refs[1]:
                self._bc = {refs[0]: True, refs[1]: False}
        return self._bc

    def _node_fields(self):
        import re
        for d in self.decl.values():
            if d.get("kind") == "CXXRecordDecl" and d.get("name") == "node":
                out = {}
                for c in d.get("inner", []):
                    if c.get("kind") == "FieldDecl":
                        t = ty(c)
                        m = re.search(r"array<(.*), (\d+)U?L?>$", t)
                        out[c["name"]] = (m[1].strip(), int(m[2])) if m else (t, None)
                if out and all(e is not None or "array<" not in t for t, e in out.values()):
                    return out
        return {}

    FUNC = {"FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"}

    def _walk(self, n, parent, dependent):
        k = n.get("kind")
        if k is None:
            return
        if k.endswith("Decl") and "id" in n:
            old = self.decl.get(n["id"])
            if old is None or (k in self.FUNC and has_body(n) and not has_body(old)):
                self.decl[n["id"]] = n
                self.parent[n["id"]] = parent
                n["_parent"] = parent
        if k in ("ClassTemplateDecl", "FunctionTemplateDecl"):
            first = True
            for c in n.get("inner", []):
                ck = c.get("kind")
                if ck in ("CXXRecordDecl", "FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl") and first:
                    first = False
                    self._walk(c, parent, True)      # the pattern itself
                else:
                    self._walk(c, parent, dependent)
            return
        if k in ("ClassTemplatePartialSpecializationDecl",):
            dependent = True
        if k in self.FUNC:
            n["_dependent"] = dependent
            if has_body(n) and not dependent and self.decl.get(n["id"]) is n:
                self.funcs.append(n)
        np = n if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "NamespaceDecl") else parent
        if k == "ClassTemplateSpecializationDecl":
            dependent = False
        for c in n.get("inner", []):
            self._walk(c, np, dependent)


def has_body(n):
    return any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in n.get("inner", []))


def body_of(n):
    for c in n.get("inner", []):
        if c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
            return c
    return None


def params_of(n):
    return [c for c in n.get("inner", []) if c.get("kind") == "ParmVarDecl"]


def ty(n):
    t = n.get("type", {})
    return t.get("desugaredQualType", t.get("qualType", ""))


def qual(fn):
    parts = [fn.get("name", "?")]
    p = fn.get("_parent")
    while p is not None:
        if p.get("name"):
            parts.append(p["name"])
        p = p.get("_parent")
    return "::".join(reversed(parts))


def pretty(n, ind=0, out=None, depth=99):
    """compact dump for development"""
    own = out is None
    if own:
        out = []
    k = n.get("kind", "?")
    bits = [k]
    for f in ("name", "opcode", "value", "castKind"):
        if f in n:
            bits.append(f"{f}={n[f]}")
    if "referencedDecl" in n:
        bits.append("ref=" + n["referencedDecl"].get("name", "?") + ":" + n["referencedDecl"]["kind"])
    if "referencedMemberDecl" in n:
        bits.append("mem=" + n["referencedMemberDecl"][-5:])
    if "type" in n:
        bits.append("<" + ty(n)[:70] + ">")
    if n.get("valueCategory") not in (None, "prvalue"):
        bits.append(n["valueCategory"])
    out.append("  " * ind + " ".join(bits))
    if depth > 0:
        for c in n.get("inner", []):
            pretty(c, ind + 1, out, depth - 1)
    if own:
        return "\n".join(out)


TU = r'''
#include <boost/segmented_tree/seq.hpp>
#include <iterator>
namespace vt {
using u64 = std::uint64_t;
// element with every special member observable: bodies are not given, so nothing is assumed about them here
struct Elem {
  Elem(); Elem(const Elem&); Elem(Elem&&) noexcept; Elem& operator=(const Elem&); Elem& operator=(Elem&&) noexcept;
  ~Elem(); explicit Elem(Elem const&, int);
  u64 a, b;
};
bool operator<(Elem const&, Elem const&); bool operator==(Elem const&, Elem const&);
struct Triv { Triv() = default; explicit Triv(Triv const&, int); u64 a, b; };
bool operator<(Triv const&, Triv const&); bool operator==(Triv const&, Triv const&);
// minimal allocator, compares by an opaque operator, propagation traits as given
template <class T, bool CA, bool MA, bool SW, bool SEL> struct Al {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, CA>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, MA>;
  using propagate_on_container_swap = std::integral_constant<bool, SW>;
  template <class U> struct rebind { using other = Al<U, CA, MA, SW, SEL>; };
  Al() noexcept; Al(Al const&) noexcept; template <class U> Al(Al<U, CA, MA, SW, SEL> const&) noexcept;
  Al& operator=(Al const&) noexcept;
  T* allocate(std::size_t); void deallocate(T*, std::size_t) noexcept;
  Al select_on_container_copy_construction() const;
  u64 id;
};
template <class T, class U, bool CA, bool MA, bool SW, bool SEL> bool operator==(Al<T, CA, MA, SW, SEL> const&, Al<U, CA, MA, SW, SEL> const&) noexcept;
template <class T, class U, bool CA, bool MA, bool SW, bool SEL> bool operator!=(Al<T, CA, MA, SW, SEL> const&, Al<U, CA, MA, SW, SEL> const&) noexcept;
// single-pass source
template <class T> struct In {
  using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t;
  using pointer = T const*; using reference = T const&;
  In(); In(In const&); In& operator=(In const&); ~In();
  T const& operator*() const; In& operator++(); In operator++(int);
};
template <class T> bool operator==(In<T> const&, In<T> const&); template <class T> bool operator!=(In<T> const&, In<T> const&);
struct Cmp { template <class T> bool operator()(T const&, T const&) const; };
struct Pred { template <class T> bool operator()(T const&) const; };
}
using E = vt::@ELEM@;
using A = @ALLOC@;
namespace st = boost::segmented_tree;
using S = st::seq<E, A, @SEG@, @BASE@>;
using TR = st::detail::static_traits_t<E, void*, std::size_t, @SEG@, @BASE@>;
static_assert(sizeof(TR::node_base) == 16 && sizeof(TR::node_data) == 16, "layout");
template struct st::detail::static_traits_t<E, void*, std::size_t, @SEG@, @BASE@>;
template class st::iterator_t<TR, E*, E&>;
template class st::iterator_t<TR, E const*, E const&>;
template class st::seq<E, A, @SEG@, @BASE@>;
namespace boost { namespace segmented_tree { inline void stverif_constants() { (void)std::true_type::value; (void)std::false_type::value; } } }
namespace vt {
using I = S::iterator; using CI = S::const_iterator;
void use(S& s, S& t, S const& cs, I i, CI ci, E const& e, In<E> a, In<E> b, A const& al) {
  s.emplace(ci, e, 1); s.emplace(ci, e); s.emplace_back(e, 1); s.emplace_front(e, 1); s.emplace_back(e); s.emplace_front(e);
  { E m; s.emplace(ci, static_cast<E&&>(m)); s.emplace_back(static_cast<E&&>(m)); s.emplace_front(static_cast<E&&>(m)); }
  s.insert(ci, a, b); s.assign(a, b); S x(a, b); S y(a, b, al);
  s.merge(t, Cmp{}); s.merge(static_cast<S&&>(t), Cmp{}); s.remove_if(Pred{}); s.unique(Cmp{}); s.sort(Cmp{});
  (void)(s == t); (void)(s != t); (void)(s < t); (void)(s <= t); (void)(s > t); (void)(s >= t);
  using std::swap; swap(s, t); (void)(1 + i); (void)(1 + ci); CI c2 = i; c2 = i; (void)(*i); (void)i[1]; (void)(*ci); 
}
@EXTRA@
}
'''


# other element types: what a trait may say of T without the members being any less observable
_FULL = "Elem(); Elem(const Elem&); Elem(Elem&&) noexcept; Elem& operator=(const Elem&); Elem& operator=(Elem&&) noexcept;"
PROFILES = {
    "": _FULL,
    # assignment is trivial, the other members are not
    "A": "Elem(); Elem(const Elem&); Elem(Elem&&) noexcept; Elem& operator=(const Elem&) = default; Elem& operator=(Elem&&) noexcept = default;",
    # nothing is declared noexcept
    "N": "Elem(); Elem(const Elem&); Elem(Elem&&); Elem& operator=(const Elem&); Elem& operator=(Elem&&);",
}


def tu_text(elem="Elem", alloc="std::allocator<E>", SM=2, BM=4, extra=""):
    elem, _, prof = elem.partition("~")
    assert _FULL in TU
    return (TU.replace(_FULL, PROFILES[prof]).replace("@ELEM@", elem).replace("@ALLOC@", alloc).replace("@SM@", str(SM))
            .replace("@BM@", str(BM)).replace("@SEG@", "1" if SM == 1 else "%d * sizeof(E)" % SM)
            .replace("@BASE@", "1" if BM == 3 and SM == 1 else "16 + 16 * %d" % BM).replace("@EXTRA@", extra))


def load(workdir, **kw):
    return Unit(dump_ast(tu_text(**kw), workdir, "tu_%s" % hashlib.md5(repr(sorted(kw.items())).encode()).hexdigest()[:8]))


SYMBOLIC_BM = 4
OTHER_BM, OTHER_SM = 37, 211    # a second instantiation, to see that nothing else depends on the capacities
SYMBOLIC_SM = 5       # the instantiation read when the capacity of a segment is a symbol
ALLOCS = {"": "std::allocator<E>", "Al": "vt::Al<E, false, false, false, false>"}


def load_unit(workdir, u):
    """u = (BM, SM, element[+allocator])"""
    e = u[2].split("+")
    a = ALLOCS.get(e[1] if len(e) > 1 else "", None)
    if a is None:
        f = e[1][2:]
        a = "vt::Al<E, %s>" % ", ".join("true" if ch == "1" else "false" for ch in f)
    return load(workdir, elem=e[0], alloc=a, SM=u[1] or SYMBOLIC_SM, BM=u[0] or SYMBOLIC_BM)


def instantiate(workdir, u, BM, SM):
    e = u[2].split("+")
    a = ALLOCS.get(e[1] if len(e) > 1 else "", None)
    if a is None:
        a = "vt::Al<E, %s>" % ", ".join("true" if ch == "1" else "false" for ch in e[1][2:])
    return load(workdir, elem=e[0], alloc=a, SM=SM, BM=BM)


def shape(n, subst, top=True):
    """the AST of a function without identities, places and the numbers that stand for the capacities"""
    out = [n.get("kind")]
    for k in ("name", "opcode", "castKind", "isArrow", "isPostfix", "valueCategory", "inline", "storageClass", "constexpr"):
        if k in n:
            out.append("%s=%s" % (k, n[k]))
    lit = n.get("kind") in ("IntegerLiteral", "ConstantExpr", "CXXBoolLiteralExpr", "FloatingLiteral", "StringLiteral", "CharacterLiteral")
    if lit and "value" in n and not subst:
        out.append("value=%s" % n["value"])
    for k in ("type", "argType", "ctorType", "conversionFunc"):
        if isinstance(n.get(k), dict):
            out.append(norm_type(n[k].get("desugaredQualType", n[k].get("qualType", n[k].get("name", "")))))
    for k in ("referencedDecl", "referencedMemberDecl", "foundReferencedDecl"):
        d = n.get(k)
        if isinstance(d, dict):
            out.append("%s:%s:%s" % (d.get("kind"), d.get("name"), norm_type(d.get("type", {}).get("qualType", ""))))
    sub = n.get("kind") == "SubstNonTypeTemplateParmExpr"
    for c in n.get("inner", []):
        out.append(shape(c, subst or sub, False))
    return tuple(out)


def norm_type(t):
    import re
    t = re.sub(r"\b\d+ \* sizeof\(E\), 16 \+ 16 \* \d+>", "@, @>", t)
    t = re.sub(r"array<([^<>]*(?:<[^<>]*>)?[^<>]*), \d+U?L?>", r"array<\1, @>", t)
    t = re.sub(r"(static_traits_t<.*?, )\d+U?L?, \d+U?L?>", r"\1@, @>", t)
    return re.sub(r"(\bseq<.*?, )\d+U?L?, \d+U?L?>", r"\1@, @>", t)


def capacity_dependent(workdir, u, unit):
    """names of the functions whose instantiation for other capacities differs in more than the numbers standing for them"""
    other = instantiate(workdir, u, u[0] or OTHER_BM, u[1] or OTHER_SM)
    from collections import Counter

    def table(un):
        out = {}
        for f in un.funcs:
            q = qual(f)
            if q.startswith("vt::"):
                continue
            out.setdefault(f.get("name"), Counter())[(norm_type(q), norm_type(ty(f)), hash(shape(f, False)))] += 1
        return out
    a, b = table(unit), table(other)
    return {n for n in set(a) | set(b) if a.get(n) != b.get(n)}
