// Instrumented elements and allocators for the bounded concrete runs.
#pragma once
#ifndef VT_PROP
#define VT_PROP 0
#endif
#include <algorithm>
#include <cassert>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <random>
#include <set>
#include <stdexcept>
#include <string>
#include <sys/time.h>
#include <type_traits>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <boost/segmented_tree/seq.hpp>

namespace vt {
struct Abort {};
struct Fault : std::runtime_error { Fault() : std::runtime_error("injected") {} };
struct AllocFault : std::bad_alloc {};

extern std::string g_want;                 // properties whose violations count (comma list)
extern const char* g_cfg;
extern unsigned long long g_hist;
extern long g_step;
extern char g_tag[8];
extern char g_desc[512];
extern long g_other;                       // failures that belong to other properties
extern long g_evals, g_checks;
extern std::vector<std::string> g_log;

bool wanted(const char* tag);
[[noreturn]] void fail(const char* tag, const char* what);
#define CHECK(tag, c, what) do { ++::vt::g_checks; if (!(c)) ::vt::fail(tag, what); } while (0)
extern bool g_slow; bool past_deadline();
void begin_op(const char* tag, const char* fmt, ...);

// fault injection countdowns: negative = off, 1 = next one throws
extern long g_alloc_fuse, g_elem_fuse, g_src_fuse;
inline bool burn(long& f) { if (f > 0 && --f == 0) { f = -1; return true; } return false; }
struct Fuses { ~Fuses() { g_alloc_fuse = g_elem_fuse = g_src_fuse = -1; } };

// registry of live elements and blocks
extern std::unordered_set<const void*> g_live;
struct Block { std::size_t bytes; std::size_t n; std::size_t unit; int id; };
extern std::map<const char*, Block> g_blocks;
extern long g_elem_ops;                    // constructions, assignments and destructions of tracked elements
extern long g_by_alloc;                    // > 0 while an allocator's construct/destroy is running
extern long g_constructs, g_destroys;
void born(const void*); void died(const void*); void used(const void*, const char*);
int block_id(const void*);

template <bool Copy> struct El;
template <> struct El<true> {
  int k, id;
  El() : k(0), id(0) { if (burn(g_elem_fuse)) throw Fault(); born(this); }
  El(int k_, int i_) : k(k_), id(i_) { if (burn(g_elem_fuse)) throw Fault(); born(this); }
  El(El const& o) : k(o.k), id(o.id) { used(&o, "copied from"); if (burn(g_elem_fuse)) throw Fault(); born(this); }
  El(El&& o) noexcept : k(o.k), id(o.id) { used(&o, "moved from"); o.k = -1; o.id = -1; born(this); }
  El& operator=(El const& o) { used(this, "assigned"); used(&o, "copied from"); if (burn(g_elem_fuse)) throw Fault(); k = o.k; id = o.id; return *this; }
  El& operator=(El&& o) noexcept { used(this, "assigned"); used(&o, "moved from"); int a = o.k, b = o.id; o.k = -1; o.id = -1; k = a; id = b; return *this; }
  ~El() { died(this); k = -2; id = -2; }
  long pad = 7;
};
template <> struct El<false> {
  int k, id;
  El() : k(0), id(0) { if (burn(g_elem_fuse)) throw Fault(); born(this); }
  El(int k_, int i_) : k(k_), id(i_) { if (burn(g_elem_fuse)) throw Fault(); born(this); }
  El(El const&) = delete; El& operator=(El const&) = delete;
  El(El&& o) noexcept : k(o.k), id(o.id) { used(&o, "moved from"); o.k = -1; o.id = -1; born(this); }
  El& operator=(El&& o) noexcept { used(this, "assigned"); used(&o, "moved from"); int a = o.k, b = o.id; o.k = -1; o.id = -1; k = a; id = b; return *this; }
  ~El() { died(this); k = -2; id = -2; }
};
template <bool C> bool operator==(El<C> const& a, El<C> const& b) { used(&a, "compared"); used(&b, "compared"); return a.k == b.k; }
template <bool C> bool operator!=(El<C> const& a, El<C> const& b) { return !(a == b); }
template <bool C> bool operator<(El<C> const& a, El<C> const& b) { used(&a, "compared"); used(&b, "compared"); return a.k < b.k; }

struct Pod { int k, id; short x = 3; Pod() : k(0), id(0) {} Pod(int a, int b) : k(a), id(b) {} Pod* operator&() { return nullptr; } Pod const* operator&() const { return nullptr; } };
inline bool operator==(Pod const& a, Pod const& b) { return a.k == b.k; }
template <class U> void operator,(Pod const&, U const&) { std::abort(); }
inline bool operator!=(Pod const& a, Pod const& b) { return a.k != b.k; }
inline bool operator<(Pod const& a, Pod const& b) { return a.k < b.k; }

// trivial assignment, everything else observable
struct HA {
  int k, id;
  HA() : k(0), id(0) { if (burn(g_elem_fuse)) throw Fault(); born(this); }
  HA(int k_, int i_) : k(k_), id(i_) { if (burn(g_elem_fuse)) throw Fault(); born(this); }
  HA(HA const& o) : k(o.k), id(o.id) { used(&o, "copied from"); if (burn(g_elem_fuse)) throw Fault(); born(this); }
  HA(HA&& o) noexcept : k(o.k), id(o.id) { used(&o, "moved from"); o.k = -1; o.id = -1; born(this); }
  HA& operator=(HA const&) = default;
  ~HA() { died(this); k = -2; id = -2; }
};
inline bool operator==(HA const& a, HA const& b) { used(&a, "compared"); used(&b, "compared"); return a.k == b.k; }
inline bool operator!=(HA const& a, HA const& b) { return !(a == b); }
inline bool operator<(HA const& a, HA const& b) { used(&a, "compared"); used(&b, "compared"); return a.k < b.k; }
// trivial destructor, but it knows its own address; moves are not noexcept
struct TD {
  int k, id; TD const* self;
  TD() : k(0), id(0), self(this) {}
  TD(int k_, int i_) : k(k_), id(i_), self(this) { if (burn(g_elem_fuse)) throw Fault(); }
  TD(TD const& o) : k(o.key()), id(o.id), self(this) { if (burn(g_elem_fuse)) throw Fault(); }
  TD(TD&& o) : k(o.key()), id(o.id), self(this) { o.k = -1; o.id = -1; }
  TD& operator=(TD const& o) { if (burn(g_elem_fuse)) throw Fault(); k = o.key(); id = o.id; return *this; }
  TD& operator=(TD&& o) { int a = o.key(), b = o.id; o.k = -1; o.id = -1; k = a; id = b; return *this; }
  int key() const { return self == this ? k : -77; }
};
inline bool operator==(TD const& a, TD const& b) { return a.key() == b.key(); }
inline bool operator!=(TD const& a, TD const& b) { return a.key() != b.key(); }
inline bool operator<(TD const& a, TD const& b) { return a.key() < b.key(); }

template <class T> struct Mk {
  static T make(int k, int id) { return T(k, id); }
  static int k(T const& t) { return t.k; }
  static int id(T const& t) { return t.id; }
  static constexpr bool tracked = !std::is_trivially_destructible<T>::value;
  static constexpr bool ident = true;
};
template <> struct Mk<int> {
  static int make(int k, int) { return k; }
  static int k(int t) { return t; }
  static int id(int) { return 0; }
  static constexpr bool tracked = false;
  static constexpr bool ident = false;
};

template <> struct Mk<TD> {
  static TD make(int k, int id) { return TD(k, id); }
  static int k(TD const& t) { return t.key(); }
  static int id(TD const& t) { return t.id; }
  static constexpr bool tracked = false;
  static constexpr bool ident = true;
};
// narrow signed types, with negative values
template <> struct Mk<short> {
  static short make(int k, int) { return static_cast<short>(k - 500); }
  static int k(short t) { return t + 500; }
  static int id(short) { return 0; }
  static constexpr bool tracked = false;
  static constexpr bool ident = false;
};
template <> struct Mk<signed char> {
  static signed char make(int k, int) { return static_cast<signed char>(k - 60); }
  static int k(signed char t) { return t + 60; }
  static int id(signed char) { return 0; }
  static constexpr bool tracked = false;
  static constexpr bool ident = false;
};
template <class T, class = void> struct MaxKey { static constexpr int v = 1000; };
template <> struct MaxKey<signed char> { static constexpr int v = 120; };

// 0 comes in two forms that are equal and differ in their bytes
template <> struct Mk<double> {
  static double make(int k, int id) { return k == 1 ? (burn_sign() ? -0.0 : 0.0) : k - 1; }
  static int k(double t) { return int(t) + 1; }
  static int id(double) { return 0; }
  static bool burn_sign() { static unsigned n = 0; return (n++ / 3) % 2; }
  static constexpr bool tracked = false;
  static constexpr bool ident = false;
};

enum { POCCA = 1, POCMA = 2, POCS = 4, CONS = 8, SOCC = 16 };

template <class T, int F> struct TABase {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, (F & POCCA) != 0>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, (F & POCMA) != 0>;
  using propagate_on_container_swap = std::integral_constant<bool, (F & POCS) != 0>;
  using is_always_equal = std::false_type;
  int aid;
  explicit TABase(int i) : aid(i) {}
  T* allocate(std::size_t n) {
    if (burn(g_alloc_fuse)) throw AllocFault();
    T* p = static_cast<T*>(::operator new(n * sizeof(T)));
    std::memset(static_cast<void*>(p), 0xA5, n * sizeof(T));
    g_blocks[reinterpret_cast<char*>(p)] = Block{n * sizeof(T), n, sizeof(T), aid};
    return p;
  }
  void deallocate(T* p, std::size_t n) {
    auto it = g_blocks.find(reinterpret_cast<char*>(p));
    CHECK("C09", p != nullptr, "deallocate called with a null pointer");
    CHECK("C09", it != g_blocks.end(), "deallocate called with memory that is not allocated");
    CHECK("C09", it->second.n == n && it->second.unit == sizeof(T), "deallocate called with another count or type than allocate");
    CHECK("C13", it->second.id == aid, "block given back through an allocator that is not equal to the one it came from");
    g_blocks.erase(it);
    ::operator delete(p);
  }
};
template <class T, int F, bool C = (F & CONS) != 0> struct TA;
template <class T, int F> struct TA<T, F, false> : TABase<T, F> {
  template <class U> struct rebind { using other = TA<U, F, false>; };
  explicit TA(int i) : TABase<T, F>(i) {}
  TA() : TABase<T, F>(1) {}
  template <class U> TA(TA<U, F, false> const& o) : TABase<T, F>(o.aid) {}
  TA select_on_container_copy_construction() const { return (F & SOCC) ? TA(this->aid + 1000) : *this; }
};
template <class T, int F> struct TA<T, F, true> : TABase<T, F> {
  template <class U> struct rebind { using other = TA<U, F, true>; };
  explicit TA(int i) : TABase<T, F>(i) {}
  TA() : TABase<T, F>(1) {}
  template <class U> TA(TA<U, F, true> const& o) : TABase<T, F>(o.aid) {}
  TA select_on_container_copy_construction() const { return (F & SOCC) ? TA(this->aid + 1000) : *this; }
  template <class U, class... A> void construct(U* p, A&&... a) {
    int b = block_id(p);
    CHECK("C09", b != -1, "construct called outside the memory of the container");
    CHECK("C13", b == this->aid, "element constructed through another allocator than the one its memory came from");
    ++g_constructs;
    ::new (static_cast<void*>(p)) U(std::forward<A>(a)...);
  }
  template <class U> void destroy(U* p) {
    int b = block_id(p);
    CHECK("C09", b != -1, "destroy called outside the memory of the container");
    CHECK("C13", b == this->aid, "element destroyed through another allocator than the one its memory came from");
    ++g_destroys;
    p->~U();
  }
};
template <class T, class U, int F, bool C> bool operator==(TA<T, F, C> const& a, TA<U, F, C> const& b) { return a.aid == b.aid; }
template <class T, class U, int F, bool C> bool operator!=(TA<T, F, C> const& a, TA<U, F, C> const& b) { return a.aid != b.aid; }

// a pointer that holds the distance to its target: it cannot be moved as bytes
template <class T> struct FP {
  using element_type = T; using value_type = typename std::remove_cv<T>::type; using difference_type = std::ptrdiff_t;
  using reference = typename std::add_lvalue_reference<T>::type; using pointer = FP; using iterator_category = std::random_access_iterator_tag;
  template <class U> using rebind = FP<U>;
  std::intptr_t off = 1;
  FP() { set(nullptr); }
  FP(std::nullptr_t) { set(nullptr); }
  explicit FP(T* p) { set(p); }
  FP(FP const& o) { set(o.get()); }
  template <class U, class = typename std::enable_if<std::is_convertible<U*, T*>::value>::type> FP(FP<U> const& o) { set(o.get()); }
  template <class U, class = typename std::enable_if<!std::is_convertible<U*, T*>::value>::type, class = decltype(static_cast<T*>(std::declval<U*>()))> explicit FP(FP<U> const& o) { set(static_cast<T*>(o.get())); }
  FP& operator=(FP const& o) { set(o.get()); return *this; }
  FP& operator=(std::nullptr_t) { set(nullptr); return *this; }
  ~FP() { off = 0x5a5a5a5a5a5a1; }
  void set(T* p) { off = p ? reinterpret_cast<std::intptr_t>(p) - reinterpret_cast<std::intptr_t>(this) : 1; }
  T* get() const { return off == 1 ? nullptr : reinterpret_cast<T*>(reinterpret_cast<std::intptr_t>(this) + off); }
  template <class U = T> static FP pointer_to(typename std::add_lvalue_reference<U>::type r) { return FP(std::addressof(r)); }
  reference operator*() const { return *get(); }
  T* operator->() const { return get(); }
  template <class U = T> typename std::add_lvalue_reference<U>::type operator[](std::ptrdiff_t i) const { return get()[i]; }
  explicit operator bool() const { return get() != nullptr; }
  FP& operator+=(std::ptrdiff_t d) { set(get() + d); return *this; }
  FP& operator-=(std::ptrdiff_t d) { set(get() - d); return *this; }
  FP& operator++() { return *this += 1; } FP& operator--() { return *this -= 1; }
  FP operator++(int) { FP r(*this); ++*this; return r; } FP operator--(int) { FP r(*this); --*this; return r; }
  friend FP operator+(FP const& a, std::ptrdiff_t d) { FP r(a); r += d; return r; }
  friend FP operator-(FP const& a, std::ptrdiff_t d) { FP r(a); r -= d; return r; }
  friend std::ptrdiff_t operator-(FP const& a, FP const& b) { return a.get() - b.get(); }
  friend bool operator==(FP const& a, FP const& b) { return a.get() == b.get(); }
  friend bool operator==(FP const& a, T const* b) { return a.get() == b; }
  friend bool operator!=(FP const& a, T const* b) { return a.get() != b; }
  friend bool operator!=(FP const& a, FP const& b) { return a.get() != b.get(); }
  friend bool operator<(FP const& a, FP const& b) { return a.get() < b.get(); }
  friend bool operator<=(FP const& a, FP const& b) { return a.get() <= b.get(); }
  friend bool operator>(FP const& a, FP const& b) { return a.get() > b.get(); }
  friend bool operator>=(FP const& a, FP const& b) { return a.get() >= b.get(); }
};
template <class T> void* raw_of(FP<T> const& p) { return p.get(); }
inline void* raw_of(void* p) { return p; }
template <class T, int F, bool C = (F & CONS) != 0> struct TF : TA<T, F, C> {
  using B = TA<T, F, C>;
  using pointer = FP<T>; using const_pointer = FP<T const>; using void_pointer = FP<void>; using const_void_pointer = FP<void const>;
  template <class U> struct rebind { using other = TF<U, F, C>; };
  using B::B;
  TF() : B() {}
  template <class U> TF(TF<U, F, C> const& o) : B(o.aid) {}
  pointer allocate(std::size_t n) { return pointer(B::allocate(n)); }
  void deallocate(pointer p, std::size_t n) { B::deallocate(p.get(), n); }
  TF select_on_container_copy_construction() const { return (F & SOCC) ? TF(this->aid + 1000) : *this; }
};
template <class T, class U, int F, bool C> bool operator==(TF<T, F, C> const& a, TF<U, F, C> const& b) { return a.aid == b.aid; }
template <class T, class U, int F, bool C> bool operator!=(TF<T, F, C> const& a, TF<U, F, C> const& b) { return a.aid != b.aid; }

// single-pass source iterator over pairs; dereferencing and stepping may throw
struct Src {
  std::vector<std::pair<int, int>> v; std::size_t at = 0;
};
template <class T> struct InIt {
  using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t;
  using pointer = T const*; using reference = T;
  Src* s;
  bool end() const { return !s || s->at == s->v.size(); }
  T operator*() const { if (burn(g_src_fuse)) throw Fault(); CHECK("C03", !end(), "single-pass source dereferenced at its end"); return Mk<T>::make(s->v[s->at].first, s->v[s->at].second); }
  InIt& operator++() { if (burn(g_src_fuse)) throw Fault(); CHECK("C03", !end(), "single-pass source advanced past its end"); ++s->at; return *this; }
  InIt operator++(int) { InIt c = *this; ++*this; return c; }
  bool operator==(InIt const& o) const { return end() == o.end(); }
  bool operator!=(InIt const& o) const { return end() != o.end(); }
};

using KV = std::pair<int, int>;

struct Cfg { const char* name; void (*run)(const char* prop, unsigned long long seed, bool big); const char* kind; };
std::vector<Cfg>& configs();
struct Reg { Reg(const char* n, void (*f)(const char*, unsigned long long, bool), const char* k) { configs().push_back({n, f, k}); } };
}  // namespace vt
