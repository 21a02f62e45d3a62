// P23: containers over a key type's whole value range.  Oracle: a piecewise
// function on 128-bit integers.
#pragma once
#include "extremes.hpp"
#include <boost/icl/interval_set.hpp>
#include <boost/icl/separate_interval_set.hpp>
#include <boost/icl/split_interval_set.hpp>
#include <boost/icl/split_interval_map.hpp>

namespace vf {
struct Piece { W f, l; int v; bool operator==(const Piece& o) const { return f == o.f && l == o.l && v == o.v; } };
struct Pieces {                     // sorted, disjoint, maximal
    std::vector<Piece> p;
    // v(has, val) -> has, val   on [f,l]
    template <class F> void apply(W f, W l, F fn) {
        if (f > l) return;
        std::vector<Piece> o; W at = f;
        auto put = [&](W a, W b, int v) { if (a <= b) o.push_back({a, b, v}); };
        auto gap = [&](W a, W b) { if (a > b) return; bool h = false; int v = 0; fn(h, v); if (h) put(a, b, v); };
        for (auto& x : p) {
            if (x.l < f || x.f > l) { if (x.f > l && at <= l) { gap(at, l); at = l + 1; } o.push_back(x); continue; }
            gap(at, x.f - 1);
            put(x.f, f - 1, x.v);
            bool h = true; int v = x.v; fn(h, v); if (h) put(std::max(f, x.f), std::min(l, x.l), v);
            put(l + 1, x.l, x.v); at = std::min(l, x.l) + 1;
        }
        if (at <= l) { gap(at, l); }
        std::sort(o.begin(), o.end(), [](const Piece& a, const Piece& b) { return a.f < b.f; });
        p.clear(); for (auto& x : o) if (!p.empty() && p.back().l + 1 == x.f && p.back().v == x.v) p.back().l = x.l; else p.push_back(x);
    }
    const Piece* at(W k) const { for (auto& x : p) if (x.f <= k && k <= x.l) return &x; return nullptr; }
    bool covers(W f, W l) const { for (W k = f; k <= l;) { auto x = at(k); if (!x) return false; k = x->l + 1; } return true; }
    bool meets(W f, W l) const { for (auto& x : p) if (x.f <= l && f <= x.l) return true; return false; }
    W size() const { W n = 0; for (auto& x : p) n += x.l - x.f + 1; return n; }
    std::vector<WR> ranges() const { std::vector<WR> r; for (auto& x : p) if (!r.empty() && r.back().l + 1 == x.f) r.back().l = x.l; else r.push_back({x.f, x.l}); return r; }
    std::string str() const { std::string s = "{"; for (auto& x : p) s += "[" + wstr(x.f) + ".." + wstr(x.l) + "]" + (x.v != 1 ? "->" + std::to_string(x.v) : "") + " "; return s + "}"; }
    uint64_t hash() const { uint64_t h = 5; for (auto& x : p) h = mix64(h ^ uint64_t(x.f) * 3 ^ uint64_t(x.l) * 7 ^ uint64_t(x.v)); return h; }
};
// I: an interval type over an integral key; S: interval set or map over it
template <class I, Kind K, class S, bool JOINS, bool MAP>
struct WideLab {
    typedef XLab<I, K> X; typedef typename X::T T;
    static W lo() { return X::omin() + (K == DiscLO || K == DiscOP); }      // singletons representable in [lo,hi]
    static W hi() { return X::omax() - (K == DiscRO || K == DiscOP); }
    static W pick(Case& c) {
        switch (c.rng.below(6)) {
            case 0: return lo() + c.rng.below(4); case 1: return hi() - c.rng.below(4);
            case 2: return lo() + (hi() - lo()) / 2 + c.rng.below(4); case 3: return X::repr(0) && !X::desc ? std::min(hi(), std::max(lo(), W(c.rng.below(5)) - 2)) : hi();
            default: return lo() + W(c.rng.next() % uint64_t(hi() - lo() + 1 > W(~0ull) ? W(~0ull) : hi() - lo() + 1));
        }
    }
    static I mk(Case& c, W f, W l) {
        if constexpr (X::dyn) {
            int b = c.rng.below(4); if (!(b & 2) && !X::repr(f - 1)) b |= 2; if (!(b & 1) && !X::repr(l + 1)) b |= 1;
            return X::build(X::val(b & 2 ? f : f - 1), X::val(b & 1 ? l : l + 1), b);
        } else return X::build(X::val(X::sbits & 2 ? f : f - 1), X::val(X::sbits & 1 ? l : l + 1), X::sbits);
    }
    static const I& key(const I& i) { return i; }
    template <class P> static const I& key(const P& p) { return p.first; }
    static int mapped(const I&) { return 1; }
    template <class P> static int mapped(const P& p) { return int(p.second); }
    static void check(Case& c, const S& s, const Pieces& m, const char* op) {
        std::vector<Piece> g; W prev = 0; bool first = true;
        for (auto it = s.begin(); it != s.end(); ++it) {
            WR r = X::decode(key(*it));
            if (r.e() || r.f < lo() || r.l > hi()) c.fail("segment", std::string(op) + ": segment " + X::str(key(*it)) + " is empty or outside the value range");
            if (!first && r.f <= prev) c.fail("order", std::string(op) + ": segments overlap or are out of order at " + X::str(key(*it)));
            int v = mapped(*it);
            bool glue = !g.empty() && g.back().l + 1 == r.f && g.back().v == v;
            if (glue && JOINS) c.fail("not joined", std::string(op) + ": touching segments are not joined at " + X::str(key(*it)));
            if (glue) g.back().l = r.l; else g.push_back({r.f, r.l, v});
            prev = r.l; first = false;
        }
        c.obs(); Pieces gp; gp.p = g;
        if (!(gp.p == m.p)) c.fail("content", std::string(op) + " yields " + gp.str() + " expected " + m.str());
    }
    static void observe(Case& c, const S& s, const Pieces& m) {
        auto need = [&](bool ok, const std::string& t) { c.obs(); if (!ok) c.fail(t.substr(0, t.find(' ')), t + " wrong for " + m.str()); };
        for (int k = 0; k < 6; ++k) {
            W e = pick(c); T v = X::val(e); auto p = m.at(e); std::string q = " of " + wstr(e);
            need(icl::contains(s, v) == !!p, "contains(key)" + q); need(icl::intersects(s, v) == !!p, "intersects(key)" + q);
            auto it = s.find(v); need((it != s.end()) == !!p, "find(key)" + q);
            if (p && it != s.end()) { WR r = X::decode(key(*it)); need(r.f <= e && e <= r.l, "find(key)-segment" + q); }
            if constexpr (MAP) need(int(s(v)) == (p ? p->v : 0), "operator()" + q);
            W a = pick(c), b = pick(c); if (a > b) std::swap(a, b); I iv = mk(c, a, b); q = " of " + X::str(iv);
            need(icl::contains(s, iv) == m.covers(a, b), "contains(interval)" + q); need(icl::intersects(s, iv) == m.meets(a, b), "intersects(interval)" + q); need(icl::disjoint(s, iv) == !m.meets(a, b), "disjoint(interval)" + q);
            auto lb = s.lower_bound(iv), ub = s.upper_bound(iv);
            need((lb == s.end()) == !m.meets(a, hi()), "lower_bound" + q); need((ub == s.end()) == !(b < hi() && m.meets(b + 1, hi()) && X::decode(key(*s.rbegin())).f > b), "upper_bound" + q);
        }
        need(s.empty() == m.p.empty(), "empty");
        if (m.size() <= W(~size_t(0))) { need(W(icl::cardinality(s)) == m.size(), "cardinality"); need(W(icl::size(s)) == m.size(), "size"); }
        auto rs = m.ranges();
        if (!rs.empty()) {
            need(X::ord(icl::first(s)) == rs.front().f, "first"); need(X::ord(icl::last(s)) == rs.back().l, "last");
            WR h = X::decode(icl::hull(s)); need(h.f == rs.front().f && h.l == rs.back().l, "hull");
        }
        if (m.size() <= 300) {
            std::vector<W> fw, bw, want; for (auto& x : m.p) for (W k = x.f; k <= x.l; ++k) want.push_back(k);
            auto el = [](const auto& e) { if constexpr (MAP) return X::ord(e.first); else return X::ord(e); };
            size_t lim = want.size() + 3;
            for (auto it = icl::elements_begin(s); it != icl::elements_end(s) && fw.size() < lim; ++it) fw.push_back(el(*it));
            for (auto it = icl::elements_rbegin(s); it != icl::elements_rend(s) && bw.size() < lim; ++it) bw.push_back(el(*it));
            std::reverse(bw.begin(), bw.end()); need(fw == want, "element-iteration"); need(bw == want, "reverse element-iteration");
        }
        if (!m.p.empty()) { // ends of the element sequence, however long its segments are
            auto el = [](const auto& e) { if constexpr (MAP) return X::ord(e.first); else return X::ord(e); };
            auto succ = [&](W k, W& n) { if (m.at(k + 1)) { n = k + 1; return true; } for (auto& x : m.p) if (x.f > k) { n = x.f; return true; } return false; };
            auto pred = [&](W k, W& n) { if (m.at(k - 1)) { n = k - 1; return true; } for (size_t j = m.p.size(); j-- > 0;) if (m.p[j].l < k) { n = m.p[j].l; return true; } return false; };
            auto walk = [&](bool up, const char* t) {
                W want = up ? m.p.front().f : m.p.back().l; bool more = true; auto fi = up ? icl::elements_begin(s) : icl::elements_end(s); auto ri = icl::elements_rbegin(s);
                for (int k = 0; k < 5; ++k) {
                    if (!up) --fi;
                    if (!more) { need(!up || fi == icl::elements_end(s), t); break; }
                    need(el(*fi) == want, t); if (!up) { need(el(*ri) == want, t); ++ri; }
                    more = up ? succ(want, want) : pred(want, want);
                    if (up) ++fi; else if (!more) break;
                }
            };
            walk(true, "elements from the beginning"); walk(false, "elements from the end");
        }
        c.see(m.hash());
    }
    static void run(Case& c, int) {
        S s, o; Pieces m, om; c.nontrivial = true;
        auto rnd = [&](S& x, Pieces& y, int n) { for (int k = 0; k < n; ++k) { W a = pick(c), b = pick(c); if (a > b) std::swap(a, b); if (c.rng.chance(1, 2)) b = std::min(b, a + c.rng.below(3)); add(c, x, y, a, b); } };
        int n = 4 + c.rng.below(20);
        for (int k = 0; k < n; ++k) {
            W a = pick(c), b = pick(c); if (a > b) std::swap(a, b);
            int sh = c.rng.below(4); if (sh == 0) b = a; else if (sh == 1) b = std::min(hi(), a + c.rng.below(4)); else if (sh == 2 && !m.p.empty()) { auto& x = m.p[c.rng.below(int(m.p.size()))]; if (c.rng.chance(1, 2) && x.l < hi()) { a = x.l + 1; b = std::max(a, b); } else if (x.f > lo()) { b = x.f - 1; a = std::min(a, b); } }
            if (c.rng.chance(1, 30)) { a = lo(); b = hi(); }
            switch (c.rng.below(MAP ? 8 : 10)) {
                case 0: case 1: case 2: add(c, s, m, a, b); break;
                case 3: case 4: sub(c, s, m, a, b); break;
                case 5: { I iv = mk(c, a, b); c.say([&](std::ostream& q) { q << "s &= " << X::str(iv); }); s &= iv; auto none = [](bool& h, int&) { h = false; }; m.apply(lo(), a - 1, none); m.apply(b + 1, hi(), none); check(c, s, m, "&= interval"); break; }
                case 6: { T v = X::val(a); if constexpr (MAP) { c.say([&](std::ostream& q) { q << "s -= (" << wstr(a) << ",1)"; }); s -= typename S::element_type(v, 1); m.apply(a, a, [](bool& h, int& x) { if (h && --x == 0) h = false; }); } else { c.say([&](std::ostream& q) { q << "s -= " << wstr(a); }); s -= v; m.apply(a, a, [](bool& h, int&) { h = false; }); } check(c, s, m, "-= element"); break; }
                case 7: { T v = X::val(a); if constexpr (MAP) { c.say([&](std::ostream& q) { q << "s += (" << wstr(a) << ",1)"; }); s += typename S::element_type(v, 1); m.apply(a, a, [](bool& h, int& x) { x = h ? x + 1 : 1; h = x != 0; }); } else { c.say([&](std::ostream& q) { q << "s += " << wstr(a); }); s += v; m.apply(a, a, [](bool& h, int& x) { h = true; x = 1; }); } check(c, s, m, "+= element"); break; }
                case 8: if constexpr (!MAP) { I iv = mk(c, a, b); c.say([&](std::ostream& q) { q << "s ^= " << X::str(iv); }); s ^= iv; m.apply(a, b, [](bool& h, int& x) { h = !h; x = 1; }); check(c, s, m, "^= interval"); } break;
                default: if constexpr (!MAP) {
                    o.clear(); om.p.clear(); rnd(o, om, 1 + c.rng.below(4)); c.say([&](std::ostream& q) { q << "o = " << om.str(); });
                    S r; Pieces rm = m; auto rest = [&](const Pieces& x) { Pieces y; y.apply(lo(), hi(), [](bool& h, int& v) { h = true; v = 1; }); for (auto& z : x.p) y.apply(z.f, z.l, [](bool& h, int&) { h = false; }); return y; };
                    auto none = [](bool& h, int&) { h = false; }; auto on = [](bool& h, int& v) { h = true; v = 1; }; auto tog = [](bool& h, int& v) { h = !h; v = 1; };
                    switch (c.rng.below(5)) {
                        case 0: c.say([&](std::ostream& q) { q << "s += o"; }); s += o; for (auto& z : om.p) m.apply(z.f, z.l, on); break;
                        case 1: c.say([&](std::ostream& q) { q << "s -= o"; }); s -= o; for (auto& z : om.p) m.apply(z.f, z.l, none); break;
                        case 2: c.say([&](std::ostream& q) { q << "s &= o"; }); s &= o; for (auto& z : rest(om).p) m.apply(z.f, z.l, none); break;
                        case 3: c.say([&](std::ostream& q) { q << "s ^= o"; }); s ^= o; for (auto& z : om.p) m.apply(z.f, z.l, tog); break;
                        default: {
                            bool sup = true, hit = false; for (auto& z : om.p) { sup = sup && m.covers(z.f, z.l); hit = hit || m.meets(z.f, z.l); }
                            c.obs(); if (icl::contains(s, o) != sup) c.fail("contains(set)", "contains(set,set) wrong"); c.obs(); if (icl::intersects(s, o) != hit) c.fail("intersects(set)", "intersects(set,set) wrong");
                            c.obs(); if (icl::is_element_equal(s, o) != (m.p == om.p)) c.fail("is_element_equal", "is_element_equal wrong"); break;
                        }
                    }
                    check(c, s, m, "set operation");
                } break;
            }
            if (c.rng.chance(1, 3)) observe(c, s, m);
        }
        observe(c, s, m);
    }
    static void add(Case& c, S& x, Pieces& y, W a, W b) {
        I iv = mk(c, a, b); if constexpr (MAP) { int v = 1 + c.rng.below(3); c.say([&](std::ostream& q) { q << "s += (" << X::str(iv) << "," << v << ")"; }); x += std::make_pair(iv, v); y.apply(a, b, [&](bool& h, int& z) { z = h ? z + v : v; h = z != 0; }); }
        else { c.say([&](std::ostream& q) { q << "s += " << X::str(iv); }); x += iv; y.apply(a, b, [](bool& h, int& z) { h = true; z = 1; }); }
        check(c, x, y, "+= interval");
    }
    static void sub(Case& c, S& x, Pieces& y, W a, W b) {
        I iv = mk(c, a, b); c.say([&](std::ostream& q) { q << (MAP ? "erase " : "s -= ") << X::str(iv); });
        if constexpr (MAP) x.erase(iv); else x -= iv;
        y.apply(a, b, [](bool& h, int&) { h = false; }); check(c, x, y, "-= interval");
    }
};
template <class T, class I, Kind K, template <class> class C> void reg_wide(const std::string& n, int q) {
    reg(n + "/interval_set", q, q * 25, WideLab<I, K, icl::interval_set<T, C, I>, true, false>::run);
    reg(n + "/split_interval_set", q, q * 25, WideLab<I, K, icl::split_interval_set<T, C, I>, false, false>::run);
    reg(n + "/interval_map", q, q * 25, WideLab<I, K, icl::interval_map<T, int, icl::partial_absorber, C, icl::inplace_plus, icl::inter_section, I>, true, true>::run);
}
template <class T, template <class> class C> void reg_wides(const std::string& n, int q) {
    reg_wide<T, icl::discrete_interval<T, C>, DiscDyn, C>(n + "/dynamic", q); reg_wide<T, icl::closed_interval<T, C>, DiscCL, C>(n + "/closed", q);
    reg_wide<T, icl::right_open_interval<T, C>, DiscRO, C>(n + "/right_open", q); reg_wide<T, icl::left_open_interval<T, C>, DiscLO, C>(n + "/left_open", q); reg_wide<T, icl::open_interval<T, C>, DiscOP, C>(n + "/open", q);
}
} // namespace vf
