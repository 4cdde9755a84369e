// Random histories of one container configuration against a std::vector model.
#pragma once
#include "support.hpp"
namespace vt {

template <class T, class A, std::size_t ST, std::size_t BT, int F, bool Tracked, bool Big = false>
struct Run {
  using S = boost::segmented_tree::seq<T, A, ST, BT>;
  using I = typename S::iterator; using CI = typename S::const_iterator; using M = Mk<T>; using V = std::vector<KV>;
  static constexpr bool copyable = std::is_copy_constructible<T>::value;
  static constexpr bool atrack = Tracked;               // allocator is instrumented
  static constexpr bool etrack = M::tracked;
  static constexpr std::size_t SMAX = (ST / sizeof(T)) > 1 ? ST / sizeof(T) : 1;
  static constexpr std::size_t BMAX0 = BT > 16 ? (BT - 16) / 16 : 0;
  static constexpr std::size_t BMAX = BMAX0 > 3 ? (BMAX0 < 65535 ? BMAX0 : 65535) : 3;
  static constexpr std::size_t SMIN = (SMAX + 1) / 2, BMIN = (BMAX + 1) / 2;

  std::mt19937_64 g; std::string prop;
  struct Box { S* s = nullptr; V m; int aid = 1; };
  Box a, b; int next_id = 1; std::size_t maxn = 40; int bias = 0; bool light = false; std::size_t cool = 0; int keys = MaxKey<T>::v;

  std::size_t rnd(std::size_t n) { return n ? g() % n : 0; }
  bool coin(int n = 2) { return rnd(n) == 0; }
  KV fresh() { int k = int(rnd(keys)) + 1; return KV(k, M::ident ? next_id++ : 0); }
  static T mk(KV p) { return M::make(p.first, p.second); }
  static KV kv(T const& t) { return KV(M::k(t), M::id(t)); }
  static A alloc(int id) { if constexpr (atrack) return A(id); else return A(); }
  static int aid_of(S const& s) { if constexpr (atrack) return s.get_allocator().aid; else return 1; }

  // ------------------------------------------------------------ checks
  static bool eqv(T const& t, KV p) { return M::k(t) == p.first && (!M::ident || M::id(t) == p.second); }

  void content(Box& x, const char* tag) {
    S& s = *x.s; S const& c = s;
    CHECK(tag, s.size() == x.m.size(), "size() differs from the model");
    CHECK(tag, s.empty() == x.m.empty(), "empty() differs from the model");
    if (x.m.empty()) { CHECK(tag, s.begin() == s.end(), "empty container with begin() != end()"); return; }
    std::size_t i = 0;
    for (auto it = c.begin(), e = c.end(); it != e; ++it, ++i) {
      CHECK(tag, i < x.m.size(), "forward iteration runs past the model");
      CHECK(tag, it.current() >= it.begin() && it.current() < it.end(), "iterator outside its segment");
      CHECK(tag, eqv(*it, x.m[i]), "element differs from the model (forward iteration)");
    }
    CHECK(tag, i == x.m.size(), "forward iteration ends early");
    auto it = s.end();
    for (i = x.m.size(); i-- > 0;) { --it; CHECK(tag, eqv(*it, x.m[i]), "element differs from the model (backward iteration)"); }
    CHECK(tag, it == s.begin(), "backward iteration does not end at begin()");
    for (int k = 0; k < 3; ++k) { i = rnd(x.m.size()); CHECK(tag, eqv(s[i], x.m[i]), "element differs from the model (operator[])"); }
  }
  // every element lies in memory of the container's own allocator
  void own_memory(Box& x, const char* tag) {
    if constexpr (atrack) { S& s = *x.s; for (auto& t : s) CHECK(tag, block_id(std::addressof(t)) == aid_of(s), "element in memory of another allocator than the container's"); } else { (void)x; (void)tag; }
  }
  struct Shape { std::size_t n = 0, segs = 0, nodes = 0; std::size_t visits = 0; };
#ifndef VT_BLACKBOX
  using N = typename S::node_pointer; using VP = typename S::void_pointer;
  std::size_t walk(VP p, std::size_t ht, N parent, std::size_t idx, bool root, Shape& sh, V const* m, std::size_t sz) {
    if (ht == 1) {
      ++sh.segs; CHECK("C08", sz <= SMAX, "segment over-full"); CHECK("C08", sz >= (root ? 1 : SMIN), "segment under half full");
      if constexpr (atrack) {
        auto it = g_blocks.find(static_cast<char*>(raw_of(p)));
        CHECK("C09", it != g_blocks.end() && it->second.unit == sizeof(T) && it->second.n >= sz, "segment is not a live allocation");
      }
      sh.n += sz; return sz;
    }
    N n = static_cast<N>(p); ++sh.nodes;
    if constexpr (atrack) CHECK("C09", g_blocks.count(static_cast<char*>(raw_of(p))), "node is not a live allocation");
    std::size_t len = n->length();
    CHECK("C08", len <= BMAX, "node over-full"); CHECK("C08", len >= (root ? 2 : BMIN), "node under half full");
    CHECK("C08", n->parent_pointer == parent, "node with a wrong parent link");
    if (!root) CHECK("C08", n->parent_index() == idx, "node with a wrong index in its parent");
    std::size_t tot = 0;
    for (std::size_t i = 0; i < len; ++i) {
      std::size_t got = walk(n->pointers[i], ht - 1, n, i, false, sh, m, n->sizes[i]);
      CHECK("C08", got == n->sizes[i], "node records a wrong subtree size"); tot += got;
    }
    return tot;
  }
#endif
  Shape shape(Box& x) {
    Shape sh; S& s = *x.s;
    CHECK("C08", (s.height() == 0) == (x.m.size() == 0 ), "height() is zero only for an empty container");
    // height bound from the half-full rule
    std::size_t h = s.height(), cap = 1; if (h >= 2) { cap = 2 * SMIN; for (std::size_t i = 2; i < h; ++i) cap *= BMIN; }
    if (h) CHECK("C08", s.size() >= cap, "height() too large for the number of elements");
    std::size_t top = SMAX; for (std::size_t i = 1; i < h && top < s.size(); ++i) top *= BMAX;
    if (h) CHECK("C08", s.size() <= top, "height() too small for the number of elements");
#ifndef VT_BLACKBOX
    if (h == 0) { CHECK("C08", s.get_root() == nullptr && s.get_size() == 0, "empty container with a root"); return sh; }
    std::size_t n = walk(s.get_root(), h, nullptr, 0, true, sh, nullptr, s.size());
    CHECK("C08", n == s.size(), "size() differs from the elements in the tree");
#endif
    return sh;
  }
  // allocations and elements alive are exactly those of the containers
  void accounts(const char* tag = "C09") {
    std::size_t segs = 0, nodes = 0, elems = 0;
    for (Box* x : {&a, &b}) if (x->s) { Shape sh = shape(*x); segs += sh.segs; nodes += sh.nodes; elems += x->s->size();
      if constexpr (atrack) if (x->m.empty() && !(x == &a ? b : a).s) CHECK("C09", g_blocks.empty(), "an empty container owns memory"); }
    if constexpr (etrack) CHECK(tag, g_live.size() == elems, "live elements differ from the elements of the containers (leak or early destruction)");
    if constexpr (atrack) {
      std::size_t bs = 0, bn = 0;
      for (auto& k : g_blocks) (k.second.unit == sizeof(T) && k.second.n == SMAX ? bs : bn)++;
#ifndef VT_BLACKBOX
      CHECK(tag, bs + bn == segs + nodes, "live allocations differ from the nodes and segments of the containers (leak or early release)");
#endif
      if (!elems) CHECK(tag, g_blocks.empty(), "memory owned although the containers are empty");
    }
    (void)segs; (void)nodes;
  }
  void alloc_ok() { for (Box* x : {&a, &b}) if (x->s) CHECK("C13", aid_of(*x->s) == x->aid, "get_allocator() is not the allocator prescribed"); }
  void after(const char* tag) {
    if (light && cool++ % (Big ? 20000 : 64) != 0) return;
    for (Box* x : {&a, &b}) if (x->s) content(*x, tag);
    accounts(); alloc_ok();
  }

  // an iterator equals the one nth gives, and behaves like it
  void same(S& s, V const& m, CI it, std::size_t pos, const char* tag, bool deep = true) {
    S const& c = s; CI n = c.nth(pos);
    CHECK(tag, c.index_of(it) == pos, "index_of differs from the position");
    if (m.empty()) return;
    CHECK(tag, it.current() == n.current(), "iterator designates another element than nth at its position");
    CHECK(tag, it.begin() == n.begin() && it.end() == n.end(), "iterator with other segment bounds than nth at its position");
    CHECK(tag, it == n && !(it != n) && it - n == 0, "iterator does not compare equal to nth at its position");
    if (pos < m.size()) CHECK(tag, eqv(*it, m[pos]), "iterator designates another element than the model");
    if (!deep) return;
    if (pos < m.size()) { CI x = it; ++x; CHECK(tag, x.current() == c.nth(pos + 1).current(), "++ from the iterator goes astray"); }
    if (pos > 0) { CI x = it; --x; CHECK(tag, x.current() == c.nth(pos - 1).current(), "-- from the iterator goes astray"); }
    std::size_t q = rnd(m.size() + 1); CI x = it + (std::ptrdiff_t(q) - std::ptrdiff_t(pos));
    CHECK(tag, x.current() == c.nth(q).current() && c.index_of(x) == q, "jump from the iterator goes astray");
  }

  // position and iterator choice
  std::size_t pick(std::size_t n) {       // 0..n-1
    if (!n) return 0;
    switch (bias) { case 1: return 0; case 2: return n - 1; case 3: return rnd(std::min<std::size_t>(n, 4)); case 4: return n - 1 - rnd(std::min<std::size_t>(n, 4)); case 5: return std::min(n - 1, n / 2 + rnd(3)); case 6: return std::min(n - 1, n / 3); default: return rnd(n); }
  }
  CI at(S& s, std::size_t pos) {
    std::size_t n = s.size();
    switch (rnd(6)) {
      case 0: { CI i = s.end(); i -= std::ptrdiff_t(n - pos); return i; }
      case 1: { CI i = s.begin(); i += std::ptrdiff_t(pos); return i; }
      case 2: if (n) { std::size_t q = rnd(n + 1); I i = s.nth(q); i += std::ptrdiff_t(pos) - std::ptrdiff_t(q); return i; } return s.end();
      case 3: if (pos > 0) { I i = s.nth(pos - 1); ++i; return i; } return s.begin();
      case 4: if (pos < n) { I i = s.nth(pos + 1); --i; return i; } return s.end();
      default: return s.nth(pos);
    }
  }
  std::size_t big_n() { switch (rnd(3)) { case 0: return 65536 + rnd(300); case 1: return 66000 + rnd(70000); default: return rnd(SMAX * BMAX * 3 + 1000) % 200000; } }
  // a large container: long ranges, many levels or wide nodes
  void grow_big() {
    S& s = *a.s; V& m = a.m;
    for (int k = 0, e = 1 + int(rnd(2)); k < e; ++k) {
      std::size_t n = big_n(), p = m.empty() ? 0 : pick(m.size() + 1); int how = int(rnd(4)); if (!copyable) how = 1 + int(rnd(2));
      begin_op("C03", "grow by %zu at %zu of %zu, variant %d", n, p, m.size(), how);
      if (how == 0) { if constexpr (copyable) { V v = news(n); auto w = raw(v); I r = s.insert(s.nth(p), w.begin(), w.end()); m.insert(m.begin() + p, v.begin(), v.end()); CHECK("C03", s.index_of(r) == p, "index_of differs from the position"); } }
      else if (how == 1) { for (std::size_t i = 0; i < n; ++i) { KV v = fresh(); s.push_back(mk(v)); m.push_back(v); } }
      else if (how == 2) { V v; for (std::size_t i = 0; i < n; ++i) { v.push_back(fresh()); s.push_front(mk(v.back())); } m.insert(m.begin(), v.rbegin(), v.rend()); }
      else { I it = s.nth(p); V v; for (std::size_t i = 0; i < n; ++i) { v.push_back(fresh()); it = s.insert(it, mk(v.back())); if (coin(2000)) { p += rnd(2) ? 0 : 0; } } m.insert(m.begin() + p, v.rbegin(), v.rend()); CHECK("C01", s.index_of(it) == p, "index_of differs from the position"); }
      CHECK("C03", s.size() == m.size(), "wrong size()");
      if (coin(3)) { std::size_t q = rnd(m.size() + 1), l = q + rnd(m.size() - q + 1); if (l - q > m.size() / 2) l = q + m.size() / 2; begin_op("C03", "erase [%zu, %zu) of %zu", q, l, m.size()); I r = s.erase(s.nth(q), s.nth(l)); m.erase(m.begin() + q, m.begin() + l); CHECK("C03", s.size() == m.size() && s.index_of(r) == q, "wrong size or position after erasing a range"); }
    }
    light = false; after("C03"); light = true;
  }
  Box& box() { return b.s && coin(4) ? b : a; }

  // ------------------------------------------------------------ single-element operations
  void insert_one(Box& x, const char* tag = "C01") {
    S& s = *x.s; V& m = x.m; std::size_t p = pick(m.size() + 1); KV v = fresh(); int how = int(rnd(7));
    if (!copyable && (how == 0 )) how = 1;
    begin_op(tag, "insert one: variant %d at %zu of %zu value %d", how, p, m.size(), v.first);
    I r; bool ret = true; std::size_t was = m.size();
    switch (how) {
      case 0: if constexpr (copyable) { T t = mk(v); r = s.insert(at(s, p), static_cast<T const&>(t)); CHECK(tag, eqv(t, v), "insert of a constant changed its argument"); } break;
      case 1: { T t = mk(v); r = s.insert(at(s, p), std::move(t)); } break;
      case 2: r = s.emplace(at(s, p), mk(v)); break;
      case 3: p = was; ret = false; if constexpr (copyable) { T t = mk(v); s.push_back(static_cast<T const&>(t)); } else s.push_back(mk(v)); break;
      case 4: p = was; ret = false; s.emplace_back(mk(v)); break;
      case 5: p = 0; ret = false; if constexpr (copyable) { T t = mk(v); s.push_front(static_cast<T const&>(t)); } else s.push_front(mk(v)); break;
      case 6: p = 0; ret = false; s.emplace_front(mk(v)); break;
    }
    m.insert(m.begin() + p, v);
    CHECK(tag, s.size() == m.size(), "size() did not grow by one");
    if (ret) same(s, m, r, p, tag);
    CHECK(tag, eqv(s[p], v), "the new element is not at its position");
    if (p) CHECK(tag, eqv(s[p - 1], m[p - 1]), "the element before the new one changed");
    if (p + 1 < m.size()) CHECK(tag, eqv(s[p + 1], m[p + 1]), "the element after the new one changed");
    after(tag);
  }
  void erase_one(Box& x, const char* tag = "C02") {
    S& s = *x.s; V& m = x.m; if (m.empty()) return; std::size_t p = pick(m.size()); int how = int(rnd(5)); if (how > 2) how = 0;
    if (how == 1) p = m.size() - 1; if (how == 2) p = 0;
    begin_op(tag, "erase one: variant %d at %zu of %zu", how, p, m.size());
    if (how == 0) { I r = s.erase(at(s, p)); m.erase(m.begin() + p); CHECK(tag, s.size() == m.size(), "size() did not shrink by one"); same(s, m, r, p, tag); if (m.empty()) CHECK(tag, r == s.end(), "erase of the last element does not return end()"); }
    else if (how == 1) { s.pop_back(); m.pop_back(); }
    else { s.pop_front(); m.erase(m.begin()); }
    CHECK(tag, s.size() == m.size(), "size() did not shrink by one");
    if (p) CHECK(tag, eqv(s[p - 1], m[p - 1]), "the element before the erased one changed");
    if (p < m.size()) CHECK(tag, eqv(s[p], m[p]), "the element after the erased one changed");
    after(tag);
  }

  // ------------------------------------------------------------ C03
  V news(std::size_t n) { V v; for (std::size_t i = 0; i < n; ++i) v.push_back(fresh()); return v; }
  std::vector<T> raw(V const& v) { std::vector<T> r; r.reserve(v.size()); for (auto& p : v) r.push_back(mk(p)); return r; }
  std::size_t some() { if (Big && coin(3)) return big_n(); switch (rnd(4)) { case 0: return rnd(3); case 1: return rnd(SMAX + 2); default: return rnd(std::min<std::size_t>(maxn, 60) + 1); } }
  void bulk(Box& x, const char* tag = "C03") {
    if constexpr (copyable) {
      S& s = *x.s; V& m = x.m; int how = int(rnd(20)); std::size_t n = some(), p = pick(m.size() + 1); if (m.size() > maxn && how < 4) how = 4;
      begin_op(tag, "bulk: variant %d count %zu at %zu of %zu", how, n, p, m.size());
      switch (how) {
        case 0: { KV v = fresh(); T t = mk(v); I r = s.insert(at(s, p), n, t); m.insert(m.begin() + p, n, v); same(s, m, r, p, tag); } break;
        case 1: { V v = news(n); auto w = raw(v); I r = s.insert(at(s, p), w.begin(), w.end()); m.insert(m.begin() + p, v.begin(), v.end()); same(s, m, r, p, tag); } break;
        case 2: { V v = news(n); Src src{v, 0}; I r = s.insert(at(s, p), InIt<T>{&src}, InIt<T>{nullptr}); m.insert(m.begin() + p, v.begin(), v.end()); same(s, m, r, p, tag); CHECK(tag, src.at == n, "single-pass source not consumed exactly"); } break;
        case 3: { KV u = fresh(), v = fresh(), w = fresh(); V l{u, v, w}; I r; if (coin(4)) { l.clear(); r = s.insert(at(s, p), std::initializer_list<T>{}); } else r = s.insert(at(s, p), {mk(u), mk(v), mk(w)}); m.insert(m.begin() + p, l.begin(), l.end()); same(s, m, r, p, tag); } break;
        case 4: case 5: case 6: { std::size_t q = m.size() ? rnd(m.size() + 1) : 0, e = q + rnd(m.size() - q + 1); if (coin(8)) { q = 0; e = m.size(); } if (how == 5) e = std::min(e, q + 3);
          CI f = at(s, q), l = at(s, e); I r = s.erase(f, l); m.erase(m.begin() + q, m.begin() + e); CHECK(tag, s.size() == m.size(), "wrong size after erasing a range"); same(s, m, r, q, tag); } break;
        case 7: { KV v = fresh(); s.assign(n, mk(v)); m.assign(n, v); } break;
        case 8: { V v = news(n); auto w = raw(v); s.assign(w.begin(), w.end()); m = v; } break;
        case 9: { V v = news(n); Src src{v, 0}; s.assign(InIt<T>{&src}, InIt<T>{nullptr}); m = v; CHECK(tag, src.at == n, "single-pass source not consumed exactly"); } break;
        case 10: { KV u = fresh(), v = fresh(); if (coin()) s.assign({mk(u), mk(v)}); else s = {mk(u), mk(v)}; m = {u, v}; } break;
        case 11: { s.resize(n); KV z = kv(T()); m.resize(n, z); } break;
        case 12: { KV v = fresh(); s.resize(n, mk(v)); m.resize(n, v); } break;
        case 13: { s.clear(); m.clear(); } break;
        case 14: { std::size_t to = m.size() > 3 ? m.size() - rnd(3) : m.size() + rnd(3); s.resize(to); m.resize(to, kv(T())); } break;
        case 15: if (b.s && &x == &a) { int ida = a.aid; s = *b.s; m = b.m; if (atrack && (F & POCCA)) a.aid = b.aid; (void)ida; } break;
        case 16: { S& r = s; s = static_cast<S const&>(r); } break;
        default: { rebuild(x, tag); } break;
      }
      CHECK(tag, x.s->size() == m.size(), "wrong size()");
      after(tag);
    } else { (void)x; (void)tag; }
  }
  // replace the container by a newly constructed one
  void rebuild(Box& x, const char* tag) {
    if constexpr (copyable) {
      int how = int(rnd(10)); std::size_t n = some(); int id = 1 + int(rnd(3)); V m; S* s = nullptr; int eid = id; A al = alloc(id);
      begin_op(tag, "construct: variant %d count %zu", how, n);
      switch (how) {
        case 0: s = new S(); eid = 1; break;
        case 1: s = new S(al); break;
        case 2: { KV v = fresh(); if (coin()) { s = new S(n, mk(v)); eid = 1; } else s = new S(n, mk(v), al); m.assign(n, v); } break;
        case 3: if (coin()) { s = new S(n); eid = 1; } else s = new S(n, al); m.assign(n, kv(T())); break;
        case 4: { m = news(n); auto w = raw(m); if (coin()) { s = new S(w.begin(), w.end()); eid = 1; } else s = new S(w.begin(), w.end(), al); } break;
        case 5: { m = news(n); Src src{m, 0}; s = new S(InIt<T>{&src}, InIt<T>{nullptr}, al); CHECK(tag, src.at == n, "single-pass source not consumed exactly"); } break;
        case 6: { s = new S(static_cast<S const&>(*x.s)); m = x.m; eid = x.aid + ((F & SOCC) ? 1000 : 0); } break;
        case 7: { s = new S(static_cast<S const&>(*x.s), al); m = x.m; } break;
        case 8: { KV u = fresh(), v = fresh(), w = fresh(); m = {u, v, w}; s = new S({mk(u), mk(v), mk(w)}, al); } break;
        case 9: { KV u = fresh(); m = {u}; s = new S{mk(u)}; eid = 1; } break;
      }
      if constexpr (!atrack) eid = 1;
      CHECK(tag, s->size() == m.size(), "wrong size() after construction");
      delete x.s; x.s = s; x.m = m; x.aid = eid > 3 && false ? eid : eid;
    } else { (void)x; (void)tag; }
  }

  // ------------------------------------------------------------ C04
  void lookup(Box& x) {
    S& s = *x.s; S const& c = s; V& m = x.m; std::size_t n = m.size(); const char* tag = "C04";
    begin_op(tag, "lookups of all positions, size %zu", n);
    std::size_t step = n > 600 ? n / 300 : 1;
    for (std::size_t i = 0; i < n; i += (step > 1 ? 1 + rnd(2 * step) : 1)) {
      CHECK(tag, eqv(s[i], m[i]) && eqv(c[i], m[i]), "operator[] gives another element");
      CHECK(tag, eqv(s.at(i), m[i]) && eqv(c.at(i), m[i]), "at gives another element");
      CHECK(tag, std::addressof(s[i]) == std::addressof(c[i]) && std::addressof(s.at(i)) == std::addressof(c[i]) && std::addressof(*s.nth(i)) == std::addressof(c[i]) && std::addressof(*c.nth(i)) == std::addressof(c[i]), "lookups disagree about the element");
      CHECK(tag, s.index_of(s.nth(i)) == i && c.index_of(c.nth(i)) == i, "index_of(nth(i)) differs from i");
      I w = s.nth(i); CHECK(tag, w.begin() <= w.current() && w.current() < w.end() && std::size_t(w.end() - w.begin()) <= SMAX, "segment bounds of nth are wrong");
    }
    CHECK(tag, s.end() - s.begin() == std::ptrdiff_t(n) && c.cend() - c.cbegin() == std::ptrdiff_t(n) && c.end() - c.begin() == std::ptrdiff_t(n), "end() - begin() differs from size()");
    CHECK(tag, s.index_of(s.end()) == n && c.index_of(c.end()) == n && c.index_of(c.cend()) == n && s.nth(n) == s.end(), "end() is not position size()");
    CHECK(tag, s.index_of(s.begin()) == 0 && c.index_of(c.cbegin()) == 0, "begin() is not position 0");
    CHECK(tag, std::size_t(std::distance(s.rbegin(), s.rend())) == n && std::size_t(std::distance(c.crbegin(), c.crend())) == n && std::size_t(std::distance(c.rbegin(), c.rend())) == n, "reversed range has another length");
    if (n) {
      CHECK(tag, std::addressof(s.front()) == std::addressof(s[0]) && std::addressof(c.front()) == std::addressof(c[0]) && std::addressof(*s.begin()) == std::addressof(s[0]) && std::addressof(*c.begin()) == std::addressof(s[0]) && std::addressof(*c.cbegin()) == std::addressof(s[0]), "front or begin designate another element");
      CHECK(tag, std::addressof(s.back()) == std::addressof(s[n - 1]) && std::addressof(c.back()) == std::addressof(c[n - 1]) && std::addressof(*s.penultimate()) == std::addressof(s[n - 1]) && std::addressof(*c.penultimate()) == std::addressof(s[n - 1]) && std::addressof(*c.cpenultimate()) == std::addressof(s[n - 1]), "back or penultimate designate another element");
      CHECK(tag, s.index_of(s.penultimate()) == n - 1 && c.index_of(c.cpenultimate()) == n - 1, "penultimate is not position size() - 1");
      CHECK(tag, std::addressof(*s.rbegin()) == std::addressof(s[n - 1]) && std::addressof(*c.rbegin()) == std::addressof(s[n - 1]) && std::addressof(*c.crbegin()) == std::addressof(s[n - 1]) && std::addressof(*(s.rend() - 1)) == std::addressof(s[0]) && std::addressof(*(c.rend() - 1)) == std::addressof(s[0]) && std::addressof(*(c.crend() - 1)) == std::addressof(s[0]), "reversed range designates other elements");
      I e = s.end(); --e; CHECK(tag, std::addressof(*e) == std::addressof(s[n - 1]), "-- from end() does not reach the last element");
      std::size_t q = rnd(n); I j = s.end(); j -= std::ptrdiff_t(n - q); CHECK(tag, std::addressof(*j) == std::addressof(s[q]), "jump back from end() goes astray");
    }
    std::size_t bad[] = {n, n + 1, n + rnd(1000), std::size_t(-1), std::size_t(-1) / 2};
    for (std::size_t q : bad) for (int k = 0; k < 2; ++k) {
      bool thrown = false;
      try { if (k) (void)c.at(q); else (void)s.at(q); } catch (std::out_of_range const&) { thrown = true; }
      CHECK(tag, thrown, "at past the end does not throw out_of_range");
    }
    same(s, m, s.end(), n, tag); same(s, m, s.begin(), 0, tag); if (n) same(s, m, s.penultimate(), n - 1, tag);
  }
  // ------------------------------------------------------------ C05
  template <class It, class C> void steps_of(C& s, V& m) {
    std::size_t n = m.size(); const char* tag = "C05"; if (!n) return;
    It w = s.begin(); std::size_t p = 0;
    std::size_t rounds = n < 60 ? n * 6 : 200;
    for (std::size_t k = 0; k < rounds; ++k) {
      std::size_t q = coin(8) ? (coin() ? n : 0) : coin(3) ? std::min(n, (p > 3 ? p - 3 : 0) + rnd(7)) : rnd(n + 1); std::ptrdiff_t d = std::ptrdiff_t(q) - std::ptrdiff_t(p);
      switch (rnd(9)) {
        case 0: if (p < n) { It o = w; It r = w++; CHECK(tag, r.current() == o.current() && s.index_of(r) == p, "it++ does not return the old position"); q = p + 1; } else q = p; break;
        case 1: if (p > 0) { It o = w; It r = w--; CHECK(tag, r.current() == o.current() && s.index_of(r) == p, "it-- does not return the old position"); q = p - 1; } else q = p; break;
        case 2: if (p < n) { It& r = ++w; CHECK(tag, &r == &w, "++it does not return itself"); q = p + 1; } else q = p; break;
        case 3: if (p > 0) { It& r = --w; CHECK(tag, &r == &w, "--it does not return itself"); q = p - 1; } else q = p; break;
        case 4: { It& r = (w += d); CHECK(tag, &r == &w, "+= does not return the iterator"); } break;
        case 5: { It& r = (w -= -d); CHECK(tag, &r == &w, "-= does not return the iterator"); } break;
        case 6: { It o = w; w = o + d; CHECK(tag, s.index_of(o) == p, "+ changed its operand"); } break;
        case 7: { It o = w; w = o - (-d); CHECK(tag, s.index_of(o) == p, "- changed its operand"); } break;
        case 8: { It o = w; w = d + o; } break;
      }
      p = q;
      same(const_cast<S&>(static_cast<S const&>(s)), m, w, p, tag, coin(3));
      std::size_t r = rnd(n); CHECK(tag, std::addressof(w[std::ptrdiff_t(r) - std::ptrdiff_t(p)]) == std::addressof(s[r]), "indexing the iterator gives another element");
      if (p < n) CHECK(tag, w.operator->() == std::addressof(s[p]) && std::addressof(*w) == std::addressof(s[p]), "dereferencing gives another element");
    }
  }
  void steps(Box& x) {
    begin_op("C05", "random walk of iterators, size %zu", x.m.size());
    if (x.m.size() < 40) {
      std::size_t n = x.m.size(); S const& c = *x.s;
      if (n) for (std::size_t i = 0; i <= n; ++i) for (std::size_t j = 0; j <= n; ++j) { CI w = c.nth(i); w += std::ptrdiff_t(j) - std::ptrdiff_t(i); same(*x.s, x.m, w, j, "C05", false); }
    }
    steps_of<I>(*x.s, x.m); steps_of<CI>(static_cast<S const&>(*x.s), x.m);
    // iterators reached by walking are as good as others
    if (!x.m.empty()) {
      if (coin()) { insert_one_at(x, "C05"); } else { erase_one_at(x, "C05"); }
    }
  }
  void insert_one_at(Box& x, const char* tag) {
    std::size_t p = rnd(x.m.size() + 1); KV v = fresh(); I w = x.s->begin(); for (std::size_t i = 0; i < p; ++i) ++w;
    begin_op(tag, "insert through a walked iterator at %zu of %zu", p, x.m.size());
    I r = x.s->insert(w, mk(v)); x.m.insert(x.m.begin() + p, v); same(*x.s, x.m, r, p, tag); after(tag);
  }
  void erase_one_at(Box& x, const char* tag) {
    std::size_t p = rnd(x.m.size()); I w = x.s->end(); for (std::size_t i = x.m.size(); i > p; --i) --w;
    begin_op(tag, "erase through a walked iterator at %zu of %zu", p, x.m.size());
    I r = x.s->erase(w); x.m.erase(x.m.begin() + p); same(*x.s, x.m, r, p, tag); after(tag);
  }
  // ------------------------------------------------------------ C06
  template <class P, class Q> void cmp2(S& s, P const& i, Q const& j) {
    const char* tag = "C06"; std::ptrdiff_t p = std::ptrdiff_t(s.index_of(CI(i))), q = std::ptrdiff_t(s.index_of(CI(j)));
    CHECK(tag, i - j == p - q, "difference of iterators is not the difference of positions");
    CHECK(tag, (i == j) == (p == q) && (i != j) == (p != q) && (i < j) == (p < q) && (i <= j) == (p <= q) && (i > j) == (p > q) && (i >= j) == (p >= q), "comparison of iterators differs from their positions");
  }
  void compare(Box& x) {
    S& s = *x.s; S const& c = s; V& m = x.m; std::size_t n = m.size();
    begin_op("C06", "iterator comparisons, size %zu", n);
    std::size_t rounds = n < 12 ? (n + 1) * (n + 1) : 150;
    for (std::size_t k = 0; k < rounds; ++k) {
      std::size_t p = n < 12 ? k / (n + 1) : rnd(n + 1), q = n < 12 ? k % (n + 1) : (coin(3) ? std::min(n, p + rnd(3)) : rnd(n + 1));
      CI ci = at(s, p), cj = at(s, q); I i = s.nth(p), j = s.nth(q);
      CHECK("C06", s.index_of(ci) == p && s.index_of(cj) == q && c.index_of(CI(i)) == p && s.index_of(j) == q, "iterator with another position than it was obtained for");
      cmp2(s, ci, cj); cmp2(s, i, j); cmp2(s, ci, CI(j)); cmp2(s, CI(i), cj); 
      CI conv = i; CHECK("C06", conv == ci && conv.current() == ci.current() && conv - ci == 0, "conversion to const_iterator changes the position"); conv = j; CHECK("C06", conv == cj, "conversion to const_iterator changes the position");
    }
  }
  // ------------------------------------------------------------ C07
  template <class It, class C> void segs_of(C& s, V& m) {
    const char* tag = "C07"; std::size_t n = m.size(); if (!n) return;
    std::vector<std::size_t> start; std::size_t p = 0; std::size_t guard = 0;
    for (It it = s.begin(); it != s.end(); it.move_after_segment()) {
      CHECK(tag, ++guard <= n, "segment traversal does not end");
      CHECK(tag, s.index_of(it) == p && it.current() == it.begin(), "segment traversal stops inside a segment or at another position");
      start.push_back(p); CHECK(tag, it.end() > it.begin(), "empty segment");
      for (auto q = it.begin(); q != it.end(); ++q, ++p) CHECK(tag, p < n && eqv(*q, m[p]) && q == std::addressof(s[p]), "segment traversal visits other elements");
    }
    CHECK(tag, p == n, "segment traversal misses elements"); start.push_back(n);
    // backwards
    It it = s.penultimate(); p = n; guard = 0;
    while (true) {
      CHECK(tag, ++guard <= n, "backward segment traversal does not end");
      CHECK(tag, it.current() + 1 == it.end() && s.index_of(it) + 1 == p, "backward segment traversal stops at another position than the last of a segment");
      p -= std::size_t(it.end() - it.begin()); CHECK(tag, it.begin() == std::addressof(s[p]), "backward segment traversal visits other elements");
      if (p == 0) break;
      it.move_before_segment();
    }
    for (int k = 0; k < 30; ++k) {
      std::size_t i = rnd(n + 1); std::size_t sg = 0; while (sg + 2 < start.size() && start[sg + 1] <= i) ++sg;
      It w = s.nth(i); CHECK(tag, w.current() - w.begin() == std::ptrdiff_t(i - start[sg]) && w.end() - w.begin() == std::ptrdiff_t(start[sg + 1] - start[sg]), "segment bounds around an element are wrong");
      std::size_t nx = start[sg + 1];
      { It u = w; It& r = u.move_after_segment(); CHECK(tag, &r == &u, "move_after_segment does not return the iterator"); same(const_cast<S&>(static_cast<S const&>(s)), m, u, nx, tag); It v = w.after_segment(); CHECK(tag, v == u && v.current() == u.current() && s.index_of(w) == i, "after_segment differs from move_after_segment"); }
      std::size_t c = rnd(n - nx + 1);
      { It u = w; u.move_after_segment(c); same(const_cast<S&>(static_cast<S const&>(s)), m, u, nx + c, tag); It v = w.after_segment(c); CHECK(tag, v == u && v.current() == u.current(), "after_segment(n) differs from move_after_segment(n)"); }
      if (start[sg] > 0) {
        std::size_t pv = start[sg] - 1;
        { It u = w; It& r = u.move_before_segment(); CHECK(tag, &r == &u, "move_before_segment does not return the iterator"); same(const_cast<S&>(static_cast<S const&>(s)), m, u, pv, tag); It v = w.before_segment(); CHECK(tag, v == u && v.current() == u.current(), "before_segment differs from move_before_segment"); }
        c = rnd(pv + 1);
        { It u = w; u.move_before_segment(c); same(const_cast<S&>(static_cast<S const&>(s)), m, u, pv - c, tag); It v = w.before_segment(c); CHECK(tag, v == u && v.current() == u.current(), "before_segment(n) differs from move_before_segment(n)"); }
      }
    }
  }
  void segs(Box& x) { begin_op("C07", "segment traversal, size %zu", x.m.size()); segs_of<I>(*x.s, x.m); segs_of<CI>(static_cast<S const&>(*x.s), x.m); }

  // ------------------------------------------------------------ C10
  void fault_one(Box& x) {
    if constexpr (atrack || etrack) {
      S& s = *x.s; V& m = x.m; std::size_t p = pick(m.size() + 1); KV v = fresh(); int how = int(rnd(8)); const char* tag = "C10"; if (!copyable && how >= 6) how = 1;
      if (how == 3 || how == 4 ) p = m.size(); if (how == 5 ) p = 0; if (how == 7) p = m.size();
      std::size_t hq = m.empty() ? 0 : rnd(m.size() + 1); CI held = s.nth(hq); auto heldp = m.empty() ? nullptr : held.current();
      for (int k = 1;; ++k) {
        for (int kind = 0; kind < 2; ++kind) {
          if (kind == 0 && !atrack) continue; if (kind == 1 && !etrack) continue;
          if (kind == 0 && k > 40) continue;
          if (kind == 1 && k > 3) continue;
          begin_op(tag, "insert one with a failing %s no. %d: variant %d at %zu of %zu", kind ? "element operation" : "allocation", k, how, p, m.size());
          bool thrown = false; 
          {
            KV tv = v; T t = mk(tv); CI pos = at(s, p); Fuses f; (kind ? g_elem_fuse : g_alloc_fuse) = k; bool ok = false;
            try {
              switch (how) {
                case 0: case 1: s.insert(pos, std::move(t)); break;
                case 2: if constexpr (M::ident) s.emplace(pos, v.first, v.second); else s.emplace(pos, mk(v)); break;
                case 3: s.push_back(std::move(t)); break;
                case 4: if constexpr (M::ident) s.emplace_back(v.first, v.second); else s.emplace_back(mk(v)); break;
                case 5: s.push_front(std::move(t)); break;
                case 6: if constexpr (copyable) s.insert(pos, static_cast<T const&>(t)); break;
                case 7: if constexpr (copyable) s.push_back(static_cast<T const&>(t)); break;
              }
              ok = true;
            } catch (Fault const&) { thrown = true; } catch (AllocFault const&) { thrown = true; }
            (void)ok;
          }
          if (!thrown) {
            // nothing left to fail, or the failure was swallowed
            m.insert(m.begin() + p, v); content(x, tag); accounts("C10"); alloc_ok();
            return;
          }
          content(x, tag); accounts("C10");
          if (!m.empty()) { CHECK(tag, held.current() == heldp, "an earlier iterator changed"); same(s, m, held, hq, tag); }
        }
        if (k > 64) return;
      }
    } else (void)x;
  }
  void erase_nothrow(Box& x) {
    S& s = *x.s; V& m = x.m; if (m.empty()) return; std::size_t p = pick(m.size());
    begin_op("C10", "erase with every allocation and copy failing at %zu of %zu", p, m.size());
    bool thrown = false; { CI pos = at(s, p); Fuses f; g_alloc_fuse = 1; g_elem_fuse = 1; try { s.erase(pos); } catch (...) { thrown = true; } }
    CHECK("C10", !thrown, "erase of one element throws"); m.erase(m.begin() + p); content(x, "C10"); accounts("C10");
  }
  // ------------------------------------------------------------ C11
  void readback(Box& x) { x.m.clear(); for (auto const& t : *x.s) x.m.push_back(kv(t)); }
  void usable(Box& x, const char* tag) { content(x, tag); shape(x); accounts(tag); }
  void fault_bulk(Box& x) {
    if constexpr (copyable && (atrack || etrack)) {
      const char* tag = "C11"; int how = int(rnd(13)); std::size_t n = 1 + rnd(std::min<std::size_t>(maxn, 25)); int kind = int(rnd(3)); 
      if (kind == 0 && !atrack) kind = 2; if (kind == 1 && !etrack) kind = atrack ? 0 : 2;
      bool hassrc = how == 2 || how == 6 || how == 9; if (kind == 2 && !hassrc) kind = atrack ? 0 : 1; if (kind == 1 && !etrack) return;
      int maxk = 6; 
      for (int j = 0; j < maxk; ++j) {
        S& s = *x.s; V& m = x.m; V old = m; std::size_t p = pick(m.size() + 1); V v = news(n); KV one = fresh(); long k = 1 + long(rnd(kind == 0 ? n + 2 : 2 * n + 4)); std::size_t to = m.size() + n;
        begin_op(tag, "bulk operation %d with failing %s no. %ld, count %zu at %zu of %zu", how, kind == 0 ? "allocation" : kind == 1 ? "element operation" : "source iterator", k, n, p, m.size());
        bool thrown = false; std::unique_ptr<S> made; V made_m; KV zero = kv_default();
        {
          std::vector<T> w = raw(v); Src src{v, 0}; T t = mk(one); CI pos = at(s, p); A al = alloc(2); Fuses f; (kind == 0 ? g_alloc_fuse : kind == 1 ? g_elem_fuse : g_src_fuse) = k;
          try {
            switch (how) {
              case 0: s.insert(pos, n, t); break;
              case 1: s.insert(pos, w.begin(), w.end()); break;
              case 2: s.insert(pos, InIt<T>{&src}, InIt<T>{nullptr}); break;
              case 3: s.resize(to); break;
              case 4: s.resize(to, t); break;
              case 5: s.assign(w.begin(), w.end()); break;
              case 6: s.assign(InIt<T>{&src}, InIt<T>{nullptr}); break;
              case 7: s.assign(n, t); break;
              case 8: made.reset(new S(n, t, al)); made_m.assign(n, one); break;
              case 9: made.reset(new S(InIt<T>{&src}, InIt<T>{nullptr}, al)); made_m = v; break;
              case 10: made.reset(new S(static_cast<S const&>(s))); made_m = m; break;
              case 11: made.reset(new S(n, al)); made_m.assign(n, zero); break;
              case 12: if (b.s && &x == &a) { s = *b.s; } break;
            }
          } catch (Fault const&) { thrown = true; } catch (AllocFault const&) { thrown = true; }
          catch (...) { CHECK(tag, false, "the exception that reaches the caller is another one"); }
        }
        V got; for (auto const& e : s) got.push_back(kv(e));
        V full;
        if (how <= 2) { full = old; if (how == 0) full.insert(full.begin() + p, n, one); else full.insert(full.begin() + p, v.begin(), v.end()); }
        if (how == 4) { full = old; full.resize(to, one); p = old.size(); } if (how == 3) { full = old; full.resize(to, kv_default()); }
        if (how == 12 && atrack && (F & POCCA) && b.s && &x == &a) { CHECK(tag, aid_of(s) == a.aid || aid_of(s) == b.aid, "allocator is neither the old nor the new one"); a.aid = aid_of(s); }
        if (thrown) {
          if (how <= 2 || how == 4) {
            CHECK(tag, got.size() >= old.size() && got.size() <= full.size(), "wrong number of elements after a failure");
            std::size_t done = got.size() - old.size(); V want = old; want.insert(want.begin() + p, full.begin() + p, full.begin() + p + done);
            CHECK(tag, got == want, "after a failure the container does not hold the old elements and a prefix of the new ones");
          } else if (how == 3) CHECK(tag, got == old, "resize to a count changed the sequence although it failed");
          else if (how >= 8 && how <= 11) CHECK(tag, got == old, "a failing construction changed another container");
        } else {
          if (how <= 4) CHECK(tag, got == full, "wrong contents"); else if (how == 5 || how == 6) CHECK(tag, got == v, "wrong contents"); else if (how == 7) CHECK(tag, got == V(n, one), "wrong contents");
          else if (how == 12 && b.s && &x == &a) CHECK(tag, got == b.m, "wrong contents after copy assignment");
          if (made) { V gm; for (auto const& e : *made) gm.push_back(kv(e)); CHECK(tag, gm == made_m, "wrong contents of the new container"); made.reset(); }
        }
        m = got; usable(x, tag);
        // still usable
        if (m.size() < 400) { KV u = fresh(); std::size_t q = pick(m.size() + 1); s.insert(at(s, q), mk(u)); m.insert(m.begin() + q, u); usable(x, tag); }
        if (m.size() > 3 * maxn + 10) { s.erase(s.nth(maxn), s.end()); m.resize(maxn); usable(x, tag); }
        if (!thrown) break;
      }
    } else (void)x;
  }
  static KV kv_default() { T t = T(); return kv(t); }
  // ------------------------------------------------------------ C12 / C13
  std::vector<const T*> addrs(S const& s) { std::vector<const T*> r; for (auto it = s.begin(); it != s.end(); ++it) r.push_back(std::addressof(*it)); return r; }
  static bool eq_addr(S const& s, std::vector<const T*> const& v) { std::size_t i = 0; for (auto it = s.begin(); it != s.end(); ++it, ++i) if (i >= v.size() || it.current() != v[i]) return false; return i == v.size(); }
  void need_b() {
    if (!b.s) { b.aid = coin() ? 1 : 2; if (!atrack) b.aid = 1; b.s = new S(alloc(b.aid)); b.m.clear(); }
    if (b.m.size() < maxn && coin()) { std::size_t n = some(); for (std::size_t i = 0; i < n; ++i) { KV v = fresh(); std::size_t p = Big && b.m.size() > 300 ? b.m.size() : pick(b.m.size() + 1); b.s->insert(b.s->nth(p), mk(v)); b.m.insert(b.m.begin() + p, v); } }
  }
  void hand_over(Box&) {
    const char* tag = "C12"; int how = int(rnd(7)); begin_op(tag, "move or swap: variant %d, preparation", how); need_b();
    S &x = *a.s, &y = *b.s; bool same_alloc = a.aid == b.aid; auto xa = addrs(x), ya = addrs(y);
    std::size_t hx = xa.empty() ? 0 : rnd(xa.size()), hy = ya.empty() ? 0 : rnd(ya.size()); CI ix = x.nth(hx), iy = y.nth(hy);
    begin_op(tag, "move or swap: variant %d sizes %zu and %zu, %s allocators", how, xa.size(), ya.size(), same_alloc ? "equal" : "unequal");
    long ops = g_elem_ops, des = g_destroys; (void)des;
    switch (how) {
      case 0: {  // move construction
        S* z = new S(std::move(x)); CHECK(tag, g_elem_ops == ops, "move construction touches elements");
        CHECK(tag, x.empty() && x.size() == 0 && x.begin() == x.end() && x.height() == 0, "moved-from container is not empty"); CHECK(tag, eq_addr(*z, xa), "move construction relocates elements");
        if (!xa.empty()) { follow(*z, ix, hx, xa); } CHECK("C13", aid_of(*z) == a.aid, "move construction with another allocator");
        V m = a.m; a.m.clear(); content(a, tag); { KV v = fresh(); x.insert(x.end(), mk(v)); a.m.push_back(v); content(a, tag); }
        delete a.s; a.s = z; a.m = m; } break;
      case 1: {  // move construction with an allocator
        int id = coin() ? a.aid : 1 + int(rnd(3)); if (!atrack) id = 1; bool eq = id == a.aid; S* z = new S(std::move(x), alloc(id)); 
        if (eq) { CHECK(tag, g_elem_ops == ops && eq_addr(*z, xa), "move construction with an equal allocator relocates elements"); CHECK(tag, x.empty() && x.height() == 0, "moved-from container is not empty"); if (!xa.empty()) follow(*z, ix, hx, xa); }
        CHECK("C13", aid_of(*z) == id, "move construction ignores the allocator given");
        V m = a.m; delete a.s; a.s = z; a.m = m; a.aid = id; content(a, eq ? "C12" : "C13"); } break;
      case 2: case 3: {  // move assignment
        bool eq = same_alloc || (F & POCMA) || !atrack; std::size_t old = g_live.size(); (void)old;
        S& r = (x = std::move(y)); CHECK(tag, &r == &x, "move assignment returns another container");
        if (eq) {
          if (etrack) CHECK(tag, g_elem_ops == ops + long(xa.size()), "move assignment touches the elements handed over");
          CHECK(tag, eq_addr(x, ya), "move assignment relocates elements"); CHECK(tag, y.empty() && y.size() == 0 && y.height() == 0 && y.begin() == y.end(), "moved-from container is not empty"); if (!ya.empty()) follow(x, iy, hy, ya);
          a.m = b.m; b.m.clear();
        } else { a.m = b.m; readback(b); }
        if (atrack && (F & POCMA)) a.aid = b.aid;
        content(a, eq ? "C12" : "C13"); content(b, tag); } break;
      case 4: case 5: {  // swap
        if (!same_alloc && atrack && !(F & POCS)) break;
        if (how == 4) x.swap(y); else { using std::swap; swap(x, y); }
        CHECK(tag, g_elem_ops == ops, "swap touches elements"); CHECK(tag, eq_addr(x, ya) && eq_addr(y, xa), "swap relocates elements or does not exchange the sequences"); std::swap(a.m, b.m); if (atrack && (F & POCS)) std::swap(a.aid, b.aid);
        if (!xa.empty()) follow(y, ix, hx, xa); if (!ya.empty()) follow(x, iy, hy, ya); content(a, tag); content(b, tag); } break;
      case 6: if constexpr (copyable) { S& r = (x = static_cast<S const&>(x)); CHECK(tag, &r == &x, "copy assignment returns another container"); content(a, tag); x.swap(x); content(a, tag); } break;
    }
    after("C12");
    // both are usable afterwards
    for (Box* q : {&a, &b}) { KV v = fresh(); std::size_t p = pick(q->m.size() + 1); q->s->insert(at(*q->s, p), mk(v)); q->m.insert(q->m.begin() + p, v); content(*q, tag); }
    accounts();
  }
  void follow(S& z, CI it, std::size_t p, std::vector<const T*> const& ad) {
    const char* tag = "C12"; S const& c = z;
    CHECK(tag, it.current() == ad[p] && c.index_of(it) == p && it == c.nth(p), "an iterator does not follow its element");
    for (int k = 0; k < 4; ++k) { std::size_t q = rnd(ad.size()); CI w = it + (std::ptrdiff_t(q) - std::ptrdiff_t(p)); CHECK(tag, w.current() == ad[q], "an iterator does not work in the new container"); }
    CI w = it; w += std::ptrdiff_t(ad.size() - p); CHECK(tag, w == c.end() && w.current() == c.end().current(), "an iterator does not reach the end of the new container");
  }
  void alloc_ops(Box&) {
    const char* tag = "C13"; begin_op(tag, "allocator propagation, preparation"); need_b(); int how = int(rnd(9));
    begin_op(tag, "allocator propagation: variant %d, allocators %d and %d, sizes %zu and %zu", how, a.aid, b.aid, a.m.size(), b.m.size());
    S &x = *a.s, &y = *b.s;
    switch (how) {
      case 0: if constexpr (copyable) { x = static_cast<S const&>(y); a.m = b.m; if (atrack && (F & POCCA)) a.aid = b.aid; } break;
      case 1: if constexpr (copyable) { S z(static_cast<S const&>(x)); CHECK(tag, aid_of(z) == a.aid + (atrack && (F & SOCC) ? 1000 : 0), "copy construction with another allocator than select_on_container_copy_construction gives"); } break;
      case 2: if constexpr (copyable) { S z(static_cast<S const&>(x), alloc(3)); CHECK(tag, !atrack || aid_of(z) == 3, "copy construction ignores the allocator given"); } break;
      case 3: { x = std::move(y); bool eq = a.aid == b.aid || (F & POCMA) || !atrack; a.m = b.m; if (atrack && (F & POCMA)) a.aid = b.aid; if (eq) b.m.clear(); else { readback(b); } } break;
      case 4: if (a.aid == b.aid || (F & POCS)) { x.swap(y); std::swap(a.m, b.m); if (F & POCS) std::swap(a.aid, b.aid); } break;
      case 5: { S z(std::move(x)); CHECK(tag, aid_of(z) == a.aid, "move construction with another allocator"); CHECK(tag, z.size() == a.m.size(), "move construction lost elements"); a.m.clear(); } break;
      case 6: { int id = 1 + int(rnd(3)); if (!atrack) id = 1; S* z = new S(std::move(x), alloc(id)); CHECK(tag, aid_of(*z) == id, "move construction ignores the allocator given"); delete a.s; a.s = z; a.aid = id; } break;
      case 7: { if constexpr (atrack) { CHECK(tag, x.get_stored_allocator().aid == a.aid && x.get_allocator().aid == a.aid, "get_stored_allocator is another allocator"); } } break;
      case 8: { x.clear(); a.m.clear(); } break;
    }
    for (Box* q : {&a, &b}) { content(*q, tag); KV v = fresh(); std::size_t p = pick(q->m.size() + 1); q->s->insert(at(*q->s, p), mk(v)); q->m.insert(q->m.begin() + p, v); }
    long c0 = g_constructs; (void)c0;
    if (atrack && (F & CONS) && !a.m.empty()) { KV v = fresh(); c0 = g_constructs; a.s->push_back(mk(v)); a.m.push_back(v); CHECK(tag, g_constructs > c0, "an element was constructed without the allocator's construct"); }
    content(a, tag); own_memory(a, "C13"); own_memory(b, "C13"); accounts(); alloc_ok();
  }
  // ------------------------------------------------------------ C14
  void splices(Box&) {
    const char* tag = "C14"; begin_op(tag, "splice, preparation"); need_b(); int how = int(rnd(10)); S &x = *a.s, &y = *b.s; V &m = a.m, &n = b.m; std::size_t p = pick(m.size() + 1);
    if (n.empty() && (how == 2 || how == 3)) how = 0;
    std::size_t f = rnd(n.size() + 1), l = f + rnd(n.size() - f + 1); if (coin(6)) { f = 0; l = n.size(); }
    begin_op(tag, "splice or merge: variant %d at %zu of %zu, [%zu,%zu) of %zu", how, p, m.size(), f, l, n.size());
    auto bykey = [](KV const& u, KV const& v) { return u.first < v.first; }; auto rkey = [](KV const& u, KV const& v) { return u.first > v.first; };
    switch (how) {
      case 0: x.splice(at(x, p), y); m.insert(m.begin() + p, n.begin(), n.end()); n.clear(); break;
      case 1: x.splice(at(x, p), std::move(y)); m.insert(m.begin() + p, n.begin(), n.end()); n.clear(); break;
      case 2: case 3: { f = std::min(f, n.size() - 1); if (how == 2) x.splice(at(x, p), y, at(y, f)); else x.splice(at(x, p), std::move(y), at(y, f)); m.insert(m.begin() + p, n[f]); n.erase(n.begin() + f); } break;
      case 4: case 5: { if (how == 4) x.splice(at(x, p), y, at(y, f), at(y, l)); else x.splice(at(x, p), std::move(y), at(y, f), at(y, l)); m.insert(m.begin() + p, n.begin() + f, n.begin() + l); n.erase(n.begin() + f, n.begin() + l); } break;
      default: {
        bool rev = how >= 8; sortbox(a, rev); sortbox(b, rev); S &u = *a.s, &w = *b.s; V r;
        if (rev) std::merge(a.m.begin(), a.m.end(), b.m.begin(), b.m.end(), std::back_inserter(r), rkey); else std::merge(a.m.begin(), a.m.end(), b.m.begin(), b.m.end(), std::back_inserter(r), bykey);
        auto gt = [](T const& i, T const& j) { return j < i; };
        if (how == 6) u.merge(w); else if (how == 7) u.merge(std::move(w)); else if (how == 8) u.merge(w, gt); else u.merge(std::move(w), gt);
        a.m = r; b.m.clear();
      } break;
    }
    content(a, tag); content(b, tag); own_memory(a, tag); own_memory(b, tag); accounts(); alloc_ok();
  }
  // replace the contents by its stable sorting without using the container's own sort
  void sortbox(Box& x, bool rev) {
    V m = x.m; std::stable_sort(m.begin(), m.end(), [rev](KV const& u, KV const& v) { return rev ? u.first > v.first : u.first < v.first; });
    for (std::size_t i = 0; i < m.size(); ++i) if (x.m[i] != m[i]) (*x.s)[i] = mk(m[i]);
    x.m = m;
  }
  // ------------------------------------------------------------ C15
  void algos(Box& x) {
    const char* tag = "C15"; S& s = *x.s; V& m = x.m; int how = int(rnd(8)); int oldkeys = keys; (void)oldkeys;
    begin_op(tag, "algorithm %d on %zu elements, preparation", how, m.size());
    // few distinct keys, with runs
    { int kk = 1 + int(rnd(4)); int cur = 0; for (std::size_t i = 0; i < m.size(); ++i) { if (coin(3) || !i) cur = int(rnd(kk)) + 1; m[i] = KV(cur, M::ident ? next_id++ : 0); s[i] = mk(m[i]); } }
    int k = m.empty() ? 1 : m[rnd(m.size())].first; if (coin(8)) k = 99;
    begin_op(tag, "algorithm %d on %zu elements, key %d", how, m.size(), k);
    auto keq = [](KV const& u, KV const& v) { return u.first == v.first; };
    switch (how) {
      case 0: if constexpr (copyable) { T t = mk(KV(k, 0)); s.remove(t); m.erase(std::remove_if(m.begin(), m.end(), [k](KV const& u) { return u.first == k; }), m.end()); } break;
      case 1: s.remove_if([k](T const& t) { return M::k(t) == k; }); m.erase(std::remove_if(m.begin(), m.end(), [k](KV const& u) { return u.first == k; }), m.end()); break;
      case 2: s.unique(); m.erase(std::unique(m.begin(), m.end(), keq), m.end()); break;
      case 3: s.unique([](T const& u, T const& v) { return M::k(u) / 2 == M::k(v) / 2; }); m.erase(std::unique(m.begin(), m.end(), [](KV const& u, KV const& v) { return u.first / 2 == v.first / 2; }), m.end()); break;
      case 4: case 5: s.reverse(); std::reverse(m.begin(), m.end()); break;
      case 6: case 7: {
        if (how == 6) s.sort(); else s.sort([](T const& u, T const& v) { return v < u; });
        V got; for (auto const& t : s) got.push_back(kv(t)); bool up = how == 6;
        for (std::size_t i = 1; i < got.size(); ++i) CHECK(tag, up ? got[i - 1].first <= got[i].first : got[i - 1].first >= got[i].first, "sort leaves the sequence unsorted");
        V p = got, q = m; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); CHECK(tag, p == q, "sort does not give a permutation");
        V w = m; std::stable_sort(w.begin(), w.end(), [up](KV const& u, KV const& v) { return up ? u.first < v.first : u.first > v.first; });
        CHECK(tag, got == w, "sort changes the order of equivalent elements"); m = got; } break;
    }
    content(x, tag); accounts();
    { KV v = fresh(); std::size_t p = pick(m.size() + 1); s.insert(at(s, p), mk(v)); m.insert(m.begin() + p, v); content(x, tag); }
  }
  // ------------------------------------------------------------ C16
  void relops(Box&) {
    const char* tag = "C16"; begin_op(tag, "relational operators, preparation"); need_b();
    // make b a variation of a, built in another way
    for (int round = 0; round < 2; ++round) {
      V m; int how = int(rnd(6)); for (auto& p : a.m) m.push_back(KV(p.first, p.second));
      if (how == 1 && !m.empty()) m.resize(rnd(m.size() + 1)); if (how == 2) m.push_back(fresh()); if (how == 3 && !m.empty()) m[rnd(m.size())].first += coin() ? 1 : -1; if (how == 4 && !m.empty()) { m.erase(m.begin() + rnd(m.size())); if (coin()) m.push_back(fresh()); } if (how == 5) m = b.m;
      S z(alloc(1)); std::vector<std::size_t> order; bool front = coin();
      if (front) for (std::size_t i = m.size(); i-- > 0;) z.push_front(mk(m[i])); else { for (std::size_t i = 0; i < m.size(); i += 2) z.push_back(mk(m[i])); for (std::size_t i = 1; i < m.size(); i += 2) z.insert(z.nth(i), mk(m[i])); }
      std::vector<int> u, v; for (auto& p : a.m) u.push_back(p.first); for (auto& p : m) v.push_back(p.first);
      begin_op(tag, "relational operators on %zu and %zu elements (variation %d)", u.size(), v.size(), how);
      S const &x = *a.s, &y = z;
      CHECK(tag, (x == y) == (u == v) && (y == x) == (u == v) && (x == x), "== differs from comparing the sequences"); CHECK(tag, (x != y) == (u != v) && (y != x) == (u != v), "!= differs from comparing the sequences");
      CHECK(tag, (x < y) == (u < v) && (y < x) == (v < u) && !(x < x), "< differs from comparing the sequences"); CHECK(tag, (x > y) == (u > v) && (y > x) == (v > u), "> differs from comparing the sequences");
      CHECK(tag, (x <= y) == (u <= v) && (y <= x) == (v <= u) && x <= x, "<= differs from comparing the sequences"); CHECK(tag, (x >= y) == (u >= v) && (y >= x) == (v >= u) && x >= x, ">= differs from comparing the sequences");
    }
    if constexpr (std::is_floating_point<T>::value) {
      // an element that does not equal itself
      std::vector<T> u, v; std::size_t n = rnd(9); for (std::size_t i = 0; i < n; ++i) u.push_back(coin(4) ? std::numeric_limits<T>::quiet_NaN() : T(rnd(3))); v = u; if (coin()) for (auto& t : v) if (coin(3)) t = T(rnd(3));
      begin_op(tag, "relational operators with elements that differ from themselves, %zu elements", n);
      S const x(u.begin(), u.end()), y(v.begin(), v.end());
      CHECK(tag, (x == y) == (u == v) && (x == x) == (u == u), "== differs from comparing the sequences"); CHECK(tag, (x != y) == (u != v) && (x != x) == (u != u), "!= differs from comparing the sequences");
      CHECK(tag, (x < y) == (u < v) && (y < x) == (v < u) && (x > y) == (u > v), "< or > differs from comparing the sequences");
    }
    content(a, tag);
  }
  // ------------------------------------------------------------ C17
  void aliasing(Box& x) {
    if constexpr (copyable) {
      const char* tag = "C17"; S& s = *x.s; V& m = x.m; if (m.empty()) return; int how = int(rnd(12)); std::size_t q = coin(3) ? pick(m.size()) : rnd(m.size()), p = pick(m.size() + 1), n = some(); KV v = m[q];
      begin_op(tag, "argument aliasing: variant %d, element %zu, position %zu of %zu, count %zu", how, q, p, m.size(), n);
      switch (how) {
        case 0: s.insert(at(s, p), static_cast<T const&>(s[q])); m.insert(m.begin() + p, v); break;
        case 1: s.insert(at(s, p), n, s[q]); m.insert(m.begin() + p, n, v); break;
        case 2: s.push_back(static_cast<T const&>(s[q])); m.push_back(v); break;
        case 3: s.push_front(static_cast<T const&>(s[q])); m.insert(m.begin(), v); break;
        case 4: s.emplace(at(s, p), static_cast<T const&>(s[q])); m.insert(m.begin() + p, v); break;
        case 5: s.emplace_back(static_cast<T const&>(s[q])); m.push_back(v); break;
        case 6: s.emplace_front(static_cast<T const&>(s[q])); m.insert(m.begin(), v); break;
        case 7: { std::size_t to = m.size() + n; s.resize(to, s[q]); m.resize(to, v); } break;
        case 8: { std::size_t to = rnd(m.size() + 1); s.resize(to, s[q]); m.resize(to, v); } break;
        case 9: s.remove(s[q]); m.erase(std::remove_if(m.begin(), m.end(), [v](KV const& u) { return u.first == v.first; }), m.end()); break;
        case 10: { std::size_t c = coin() ? n : m.size() + n; s.assign(c, s[q]); m.assign(c, v); } break;
        case 11: { T t = mk(v); if constexpr (M::ident) { s.emplace(at(s, p), s[q].k, s[q].id); } else s.emplace(at(s, p), static_cast<T const&>(s[q])); m.insert(m.begin() + p, v); } break;
      }
      content(x, tag); accounts();
    } else (void)x;
  }
  // ------------------------------------------------------------ histories
  void special(Box& x) {
#define VT_P(n) (VT_PROP == 0 || VT_PROP == n)
    if (VT_P(1) && prop == "C01") { insert_one(x); return; }
    if (VT_P(2) && prop == "C02") { erase_one(x); return; }
    if constexpr (VT_P(3)) if (prop == "C03") { if (coin(8)) { begin_op("C03", "second container"); need_b(); } bulk(x); return; }
    if constexpr (VT_P(4)) if (prop == "C04") { lookup(x); return; }
    if constexpr (VT_P(5)) if (prop == "C05") { steps(x); return; }
    if constexpr (VT_P(6)) if (prop == "C06") { compare(x); return; }
    if constexpr (VT_P(7)) if (prop == "C07") { segs(x); return; }
    if constexpr (VT_P(10)) if (prop == "C10") { if (coin(5)) erase_nothrow(x); else fault_one(x); return; }
    if constexpr (VT_P(11)) if (prop == "C11") { if (coin(8)) { begin_op("C11", "second container"); need_b(); } fault_bulk(x); return; }
    if constexpr (VT_P(12)) if (prop == "C12") { hand_over(x); return; }
    if constexpr (VT_P(13)) if (prop == "C13") { if (coin(4)) hand_over(x); else if (coin(5)) { begin_op("C13", "construction"); rebuild(x, "C13"); after("C13"); } else alloc_ops(x); return; }
    if constexpr (VT_P(14)) if (prop == "C14") { splices(x); return; }
    if constexpr (VT_P(15)) if (prop == "C15") { algos(x); return; }
    if constexpr (VT_P(16)) if (prop == "C16") { relops(x); return; }
    if constexpr (VT_P(17)) if (prop == "C17") { aliasing(x); return; }
    if constexpr (VT_P(8) || VT_P(9)) mixed(x);
  }
  void mixed(Box& x) {
    switch (rnd(14)) {
      case 0: bulk(x); break; case 1: fault_one(x); break; case 2: fault_bulk(x); break; case 3: hand_over(x); break; case 4: splices(x); break; case 5: algos(x); break; case 6: aliasing(x); break; case 7: alloc_ops(x); break; case 8: bulk(x); break;
      default: if (coin()) insert_one(x); else erase_one(x); break;
    }
  }
  void trim(Box& x) {
    if (x.s && x.m.size() > 3 * maxn + 20) {
      begin_op("C03", "erase down to the history's limit from %zu", x.m.size()); std::size_t f = rnd(2) ? 0 : x.m.size() - maxn; std::size_t cut = x.m.size() - maxn; f = f ? maxn : 0;
      x.s->erase(x.s->nth(f), x.s->nth(f + cut)); x.m.erase(x.m.begin() + f, x.m.begin() + f + cut); after("C03");
    }
  }
  static void run(const char* prop, unsigned long long h, bool) { Run r; r.prop = prop; r.go(h); }
  void go(unsigned long long h) {
    g.seed(h * 2654435761ull + 12345); 
    a.aid = atrack ? 1 + int(rnd(2)) : 1; a.s = new S(alloc(a.aid)); keys = coin(3) ? 3 : MaxKey<T>::v;
    static const std::size_t limits[] = {4, 10, 20, 40, 80, 200}; maxn = limits[rnd(6)]; std::size_t len = 40 + rnd(160);
    bool deep = SMAX * BMAX > 40; if (deep) { maxn = 40 + rnd(4 * SMAX * BMAX); if (maxn > 30000) maxn = 30000; light = maxn > 300; }
    bool rare = prop == "C01" || prop == "C02" || prop == "C08" || prop == "C09";
    if (Big) { maxn = 60000; light = true; len = 24; g_slow = true; }
    // initial growth to a random tree shape
    bias = int(rnd(8)); std::size_t start = rnd(maxn + 1); if (Big) { start = 0; grow_big(); }
    for (std::size_t i = 0; i < start; ++i) { if (light && i % 500 == 0) bias = int(rnd(8)); if (coin(light ? 40 : 8)) erase_one(a); else insert_one(a); }
    if (light && !Big) after("C01");
    std::size_t grow = 1;
    std::size_t burst = 0;
    for (std::size_t i = 0; i < len; ++i) {
      if (Big && past_deadline()) break;
      if (coin(12)) bias = int(rnd(8)); if (coin(20)) grow = rnd(3);
      if (coin(25)) burst = rnd(Big ? 200 : light ? SMAX * 3 : 20);
      Box& x = box();
      if (burst) { --burst; ++len; if (len > 20000) break; if (grow == 2 && !x.m.empty()) erase_one(x); else if (x.m.size() < 2 * maxn + 5) insert_one(x); else { burst = 0; grow = 2; } continue; }
      if (coin(rare ? 2 : 3)) { if (x.m.size() >= maxn || (grow == 2) || (grow == 1 && coin())) erase_one(x); else insert_one(x); }
      else { special(x); if (Big) { light = false; after(prop == "C08" ? "C01" : prop.c_str()); light = true; } }
      trim(a); trim(b);
    }
    if (light) after("C01");
    // wind down to empty through single erases, or destroy as it is
    begin_op("C09", "end of history");
    if (!Big && coin()) { bias = int(rnd(8)); while (!a.m.empty()) erase_one(a); accounts(); if (coin()) { for (int i = 0; i < 5; ++i) insert_one(a); } }
    begin_op("C09", "destroy containers of %zu and %zu elements", a.m.size(), b.m.size());
    delete a.s; a.s = nullptr; if (b.s) { delete b.s; b.s = nullptr; }
    if constexpr (etrack) CHECK("C09", g_live.empty(), "elements are still alive after destruction");
    if constexpr (atrack) CHECK("C09", g_blocks.empty(), "memory is still allocated after destruction");
  }
};
}
#define VT_BIG(NAME, T, A, ST, BT, F, TR) static ::vt::Reg reg_##NAME(#NAME, &::vt::Run<T, A, ST, BT, F, TR, true>::run, "")
#define VT_CONFIG(NAME, T, A, ST, BT, F, TR) static ::vt::Reg reg_##NAME(#NAME, &::vt::Run<T, A, ST, BT, F, TR>::run, "")
