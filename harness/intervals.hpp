// P01-P03: exhaustive interval monitors over all raw bound pairs of a grid.
#pragma once
#include "domains_ext.hpp"
#include "cmpof.hpp"
#include <boost/icl/interval_bounds.hpp>
#include <boost/icl/detail/exclusive_less_than.hpp>

namespace vf {

template <class T, class = void> struct Count { static long long get(const T& v) { return (long long)v; } };
template <> struct Count<boost::gregorian::date_duration> { static long long get(const boost::gregorian::date_duration& v) { return v.days(); } };
template <> struct Count<boost::posix_time::time_duration> { static long long get(const boost::posix_time::time_duration& v) { return v.ticks(); } };
template <> struct Count<boost::chrono::duration<int>> { static long long get(const boost::chrono::duration<int>& v) { return v.count(); } };
template <class T> long long as_count(const T& v) { return Count<T>::get(v); }

typedef unsigned long long Mask;
inline int lo_bit(Mask m) { return m ? __builtin_ctzll(m) : -1; }
inline int hi_bit(Mask m) { return m ? 63 - __builtin_clzll(m) : -1; }

// Raw grid over domain D.  Coordinates 0..K-1 (values at(0)..at(K-1)).
// Discrete atoms: coordinate c in [-1, K] -> bit c+1.
// Continuous atoms: point c -> bit 2*(c+1), gap (c,c+1) -> bit 2*(c+1)+1, c from -1.
template <class D>
struct Grid {
    typedef typename D::interval_type I; typedef typename D::conv C; typedef typename D::domain_type T;
    static constexpr int K = 7;
    struct Raw { int l, u, bits; };
    static int static_bits() {
        return D::kind == DiscRO || D::kind == ContRO ? 2 : D::kind == DiscLO || D::kind == ContLO ? 1 : D::kind == DiscCL ? 3 : 0;
    }
    static std::vector<Raw> raws() {
        std::vector<Raw> v;
        for (int l = 0; l < K; ++l) for (int u = 0; u < K; ++u) {
            if (D::dynamic) for (int b = 0; b < 4; ++b) v.push_back({l, u, b});
            else v.push_back({l, u, static_bits()});
        }
        return v;
    }
    static I build(const Raw& r) {
        if constexpr (D::dynamic) return I(C::at(r.l), C::at(r.u), icl::interval_bounds(icl::bound_type(r.bits)));
        else return I(C::at(r.l), C::at(r.u));
    }
    static int pos(int c) { return D::discrete ? c + 1 : 2 * (c + 1); }
    static Mask mask(const Raw& r) {
        Mask m = 0;
        int lp = pos(r.l), up = pos(r.u);
        for (int p = 0; p <= pos(K); ++p) {
            bool in = (p > lp || (p == lp && (r.bits & 2))) && (p < up || (p == up && (r.bits & 1)));
            if (in) m |= Mask(1) << p;
        }
        return m;
    }
    static bool elem_ok(int p) { return p >= 0 && p <= pos(K); }
    static T elem(int p) {
        if (D::discrete) return C::at(p - 1);
        return p % 2 == 0 ? C::at(p / 2 - 1) : C::mid((p - 1) / 2 - 1);
    }
    static int coord(const T& v) { for (int c = -2; c <= K + 2; ++c) if (C::at(c) == v) return c; return -1000; }
    static bool decode(const I& iv, Mask& m) {
        Raw r; r.l = coord(iv.lower()); r.u = coord(iv.upper()); 
        if constexpr (D::dynamic) r.bits = iv.bounds().bits(); else r.bits = static_bits();
        if (r.l == -1000 || r.u == -1000) {
            if (D::default_like(iv)) { m = 0; return true; }   // canonical empty interval
            return false;
        }
        m = mask(r); return true;
    }
    static std::string str(const Raw& r) { return D::str(build(r)); }
};

template <class T, class = void> struct streamable : std::false_type {};
template <class T> struct streamable<T, decltype(void(std::declval<std::ostream&>() << std::declval<const T&>()))> : std::true_type {};
template <class D>
void p01_case(Case& c, int k) {
    typedef Grid<D> G; typedef typename G::I I; typedef typename G::T T;
    auto rs = G::raws();
    if (k >= int(rs.size())) return;
    auto r = rs[k]; I x = G::build(r); Mask m = G::mask(r);
    c.say([&](std::ostream& o) { o << "x=" << G::str(r); });
    c.nontrivial = true; c.see(m * 31 + k);
    auto need = [&](bool ok, const char* tag) { c.obs(); if (!ok) c.fail(tag, std::string(tag) + " wrong for " + G::str(r)); };
    need(x.lower() == G::C::at(r.l) && x.upper() == G::C::at(r.u), "member lower/upper");
    need(icl::lower(x) == G::C::at(r.l) && icl::upper(x) == G::C::at(r.u), "lower/upper");
    need(icl::bounds(x).bits() == r.bits, "bounds");
    need(icl::is_empty(x) == (m == 0), "is_empty");
    // membership of every probe value
    for (int p = 0; p <= G::pos(G::K); ++p) {
        if (!D::discrete && p == G::pos(G::K)) continue;
        bool want = (m >> p) & 1;
        c.obs();
        if (icl::contains(x, G::elem(p)) != want)
            c.fail("contains(element)", "contains(" + G::str(r) + ", " + G::C::str(G::elem(p)) + ") is " + (want ? "false" : "true"));
    }
    if constexpr (D::discrete) {
        if (m) {
            need(icl::first(x) == G::elem(lo_bit(m)), "first");
            need(icl::last(x) == G::elem(hi_bit(m)), "last");
            need(icl::last_next(x) == G::C::at(hi_bit(m)), "last_next");
        }
        need(as_count(icl::cardinality(x)) == __builtin_popcountll(m), "cardinality");
        need(as_count(icl::size(x)) == __builtin_popcountll(m), "size");
        need(as_count(icl::length(x)) == __builtin_popcountll(m), "length");
    } else {
        typedef typename icl::size_type_of<icl::interval_traits<I>>::type S;
        S s = icl::cardinality(x), z = icl::size(x);
        S want = m == 0 ? icl::identity_element<S>::value() : (r.l == r.u) ? icl::unit_element<S>::value() : icl::infinity<S>::value();
        need(s == want && z == want, "cardinality");
        need(m == 0 || !(icl::infinity<S>::value() == icl::unit_element<S>::value()), "infinity");
        if constexpr (icl::has_difference<T>::value && !std::is_same<T, std::string>::value) {
            auto len = icl::length(x);
            T lo = G::C::at(r.l), up = G::C::at(r.u);
            auto d = r.l <= r.u ? (up < lo ? lo - up : up - lo) : (lo - lo);
            if (m == 0) d = lo - lo;
            need(len == d, "length");
        }
    }
    // constructors / factories / hull / span / singleton must denote the same sets
    auto same = [&](const I& y, Mask want, const char* tag) {
        Mask got; c.obs();
        if (!G::decode(y, got) || got != want) c.fail(tag, std::string(tag) + " for operands of " + G::str(r) + " yields " + D::str(y));
    };
    T lv = G::C::at(r.l), uv = G::C::at(r.u);
    auto msk = [&](int l, int u, int b) { return G::mask({l, u, b}); };
    if constexpr (D::dynamic) {
        auto B = icl::interval_bounds(icl::bound_type(r.bits));
        same(icl::construct<I>(lv, uv, B), m, "construct(bounds)");
        same(icl::construct<I>(lv, uv), msk(r.l, r.u, 2), "construct default bounds");
        same(icl::dynamic_interval_traits<I>::construct(lv, uv, B), m, "traits construct");
        typedef typename I::bounded_domain_type BD;
        same(icl::construct<I>(BD(lv, B.left()), BD(uv, B.right())), m, "construct bounded");
        same(I::right_open(lv, uv), msk(r.l, r.u, 2), "::right_open");
        same(I::left_open(lv, uv), msk(r.l, r.u, 1), "::left_open");
        same(I::closed(lv, uv), msk(r.l, r.u, 3), "::closed");
        same(I::open(lv, uv), msk(r.l, r.u, 0), "::open");
        typedef typename cmp_of<I>::factory F;
        same(F::right_open(lv, uv), msk(r.l, r.u, 2), "interval<>::right_open");
        same(F::left_open(lv, uv), msk(r.l, r.u, 1), "interval<>::left_open");
        same(F::closed(lv, uv), msk(r.l, r.u, 3), "interval<>::closed");
        same(F::open(lv, uv), msk(r.l, r.u, 0), "interval<>::open");
        same(F::construct(lv, uv), msk(r.l, r.u, 2), "interval<>::construct");
        need(icl::bounded_lower(x).value() == lv && icl::bounded_lower(x).bound().bits() == (r.bits & 2), "bounded_lower");
        need(icl::bounded_upper(x).value() == uv && icl::bounded_upper(x).bound().bits() == (r.bits & 1), "bounded_upper");
    } else {
        same(icl::construct<I>(lv, uv), m, "construct");
        same(icl::interval_traits<I>::construct(lv, uv), m, "traits construct");
    }
    {
        int a = std::min(r.l, r.u), b = std::max(r.l, r.u);
        int sb = D::dynamic ? 2 : r.bits;
        same(icl::span<I>(lv, uv), msk(a, b, sb), "span");
    }
    if constexpr (D::elem_ops) {
        Mask one = Mask(1) << G::pos(r.l), hl = 0;
        for (int p = G::pos(std::min(r.l, r.u)); p <= G::pos(std::max(r.l, r.u)); ++p) hl |= Mask(1) << p;
        same(icl::singleton<I>(lv), one, "singleton");
        same(I(lv), one, "value constructor");
        same(icl::hull<I>(lv, uv), hl, "hull(values)");
    }
    need(icl::is_empty(I()), "default constructor is empty");
    I cp(x); same(cp, m, "copy"); cp = I(); cp = x; same(cp, m, "assign");
    need(cp.lower() == lv && cp.upper() == uv && icl::bounds(cp).bits() == r.bits, "copy keeps representation");
    if constexpr (streamable<T>::value) {
        std::ostringstream o; o << x;
        std::ostringstream w;
        w << (r.bits & 2 ? "[" : "(");
        if (m) w << lv << "," << uv;
        w << (r.bits & 1 ? "]" : ")");
        need(o.str() == w.str(), "operator<<");
    }
}

template <class D>
void p02_case(Case& c, int k) {
    typedef Grid<D> G; typedef typename G::I I;
    static const auto rs = G::raws();
    static const std::vector<I> is = [] { std::vector<I> v; for (auto& r : G::raws()) v.push_back(G::build(r)); return v; }();
    static const std::vector<Mask> ms = [] { std::vector<Mask> v; for (auto& r : G::raws()) v.push_back(G::mask(r)); return v; }();
    if (k >= int(rs.size())) return;
    const I& x = is[k]; Mask A = ms[k];
    c.nontrivial = true; c.see(k);
    c.say([&](std::ostream& o) { o << "x=" << G::str(rs[k]) << " against all " << rs.size() << " intervals y"; });
    for (size_t j = 0; j < rs.size(); ++j) {
        const I& y = is[j]; Mask B = ms[j];
        auto need = [&](bool got, bool want, const char* tag) {
            c.obs();
            if (got != want) c.fail(tag, std::string(tag) + "(" + G::str(rs[k]) + ", " + G::str(rs[j]) + ") is " + (got ? "true" : "false"));
        };
        bool ae = !A, be = !B;
        need(icl::contains(x, y), (B & ~A) == 0, "contains(interval)");
        need(icl::within(x, y), (A & ~B) == 0, "within(interval)");
        need(icl::intersects(x, y), (A & B) != 0, "intersects");
        need(icl::disjoint(x, y), (A & B) == 0, "disjoint");
        need(icl::exclusive_less(x, y), ae || be || hi_bit(A) < lo_bit(B), "exclusive_less");
        if (!ae && !be) need(icl::exclusive_less_than<I>()(x, y), hi_bit(A) < lo_bit(B), "exclusive_less_than");
        need(x == y, A == B, "==");
        need(x != y, A != B, "!=");
        bool lt = !ae && !be && (lo_bit(A) < lo_bit(B) || (lo_bit(A) == lo_bit(B) && hi_bit(A) < hi_bit(B)));
        bool gt = !ae && !be && (lo_bit(B) < lo_bit(A) || (lo_bit(A) == lo_bit(B) && hi_bit(B) < hi_bit(A)));
        need(x < y, lt, "<"); need(x > y, gt, ">");
        need(x <= y, !ae && !be && !gt, "<="); need(x >= y, !ae && !be && !lt, ">=");
        if (!ae && !be) {
            need(icl::touches(x, y), hi_bit(A) + 1 == lo_bit(B), "touches");
            need(icl::lower_less(x, y), lo_bit(A) < lo_bit(B), "lower_less");
            need(icl::upper_less(x, y), hi_bit(A) < hi_bit(B), "upper_less");
            need(icl::lower_equal(x, y), lo_bit(A) == lo_bit(B), "lower_equal");
            need(icl::upper_equal(x, y), hi_bit(A) == hi_bit(B), "upper_equal");
            need(icl::lower_less_equal(x, y), lo_bit(A) <= lo_bit(B), "lower_less_equal");
            need(icl::upper_less_equal(x, y), hi_bit(A) <= hi_bit(B), "upper_less_equal");
        }
    }
}

template <class D>
void p03_case(Case& c, int k) {
    typedef Grid<D> G; typedef typename G::I I; typedef typename G::T T;
    static const auto rs = G::raws();
    static const std::vector<I> is = [] { std::vector<I> v; for (auto& r : G::raws()) v.push_back(G::build(r)); return v; }();
    static const std::vector<Mask> ms = [] { std::vector<Mask> v; for (auto& r : G::raws()) v.push_back(G::mask(r)); return v; }();
    if (k >= int(rs.size())) return;
    const I& x = is[k]; Mask A = ms[k];
    c.nontrivial = true; c.see(k);
    c.say([&](std::ostream& o) { o << "x=" << G::str(rs[k]) << " against all " << rs.size() << " intervals y"; });
    auto span_mask = [](int lo, int hi) { Mask m = 0; for (int p = lo; p <= hi; ++p) m |= Mask(1) << p; return m; };
    for (size_t j = 0; j < rs.size(); ++j) {
        const I& y = is[j]; Mask B = ms[j];
        auto same = [&](const I& got, Mask want, const char* tag) {
            Mask m; c.obs();
            if (!G::decode(got, m) || m != want)
                c.fail(tag, std::string(tag) + " of x=" + G::str(rs[k]) + " y=" + G::str(rs[j]) + " yields " + D::str(got));
        };
        bool ae = !A, be = !B;
        same(x & y, A & B, "x & y");
        { I z = x; z = z & y; same(z, A & B, "x = x & y"); }
        Mask h = A | B; if (h) h = span_mask(lo_bit(h), hi_bit(h));
        same(icl::hull(x, y), h, "hull");
        // left_subtract(y, x): y without x and everything left of x
        Mask ls = B; if (!ae) for (int p = 0; p <= hi_bit(A); ++p) ls &= ~(Mask(1) << p);
        same(icl::left_subtract(y, x), ls, "left_subtract(y,x)");
        Mask rsub = A; if (!be) for (int p = lo_bit(B); p < 64; ++p) rsub &= ~(Mask(1) << p);
        same(icl::right_subtract(x, y), rsub, "right_subtract(x,y)");
        Mask gap = 0;
        if (!ae && !be) {
            if (hi_bit(A) < lo_bit(B)) gap = span_mask(hi_bit(A) + 1, lo_bit(B) - 1);
            else if (hi_bit(B) < lo_bit(A)) gap = span_mask(hi_bit(B) + 1, lo_bit(A) - 1);
        }
        same(icl::inner_complement(x, y), gap, "inner_complement");
        same(icl::between(x, y), gap, "between");
        if constexpr (D::dynamic) {
            int l = rs[k].bits, r = rs[j].bits;
            c.obs(2);
            if (icl::outer_bounds(x, y).bits() != ((l & 2) | (r & 1))) c.fail("outer_bounds", "outer_bounds of " + G::str(rs[k]) + " " + G::str(rs[j]));
            if (icl::inner_bounds(x, y).bits() != (((l & 1) ? 0 : 2) | ((r & 2) ? 0 : 1))) c.fail("inner_bounds", "inner_bounds of " + G::str(rs[k]) + " " + G::str(rs[j]));
        }
        if constexpr (icl::has_difference<T>::value && !std::is_same<T, std::string>::value) {
            c.obs();
            auto d = icl::distance(x, y);
            if constexpr (D::discrete) {
                long long want = __builtin_popcountll(gap);
                if (as_count(d) != want) c.fail("distance", "distance(" + G::str(rs[k]) + ", " + G::str(rs[j]) + ") = " + std::to_string(as_count(d)) + " expected " + std::to_string(want));
            } else {
                T p = G::C::at(0), q = G::C::at(0);
                if (!ae && !be && hi_bit(A) < lo_bit(B)) { p = G::C::at(rs[k].u); q = G::C::at(rs[j].l); }
                else if (!ae && !be && hi_bit(B) < lo_bit(A)) { p = G::C::at(rs[j].u); q = G::C::at(rs[k].l); }
                auto want = p < q ? q - p : p - q;
                if (!(d == want)) c.fail("distance", "distance(" + G::str(rs[k]) + ", " + G::str(rs[j]) + ") differs from the length of the gap");
            }
        }
        if (!(x.lower() == G::C::at(rs[k].l)) || !(y.upper() == G::C::at(rs[j].u))) c.fail("operand changed", "operand changed");
    }
}

template <int P, class D> void reg_interval(const char* name) {
    int n = int(Grid<D>::raws().size());
    if (P == 1) reg(name, n, n, p01_case<D>);
    if (P == 2) reg(name, n, n, p02_case<D>);
    if (P == 3) reg(name, n, n, p03_case<D>);
}
} // namespace vf
