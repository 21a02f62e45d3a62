// P23: intervals at the extremes of the key type.  Oracle: the element range
// [f,l] in 128-bit integers, computed from the raw bounds.
#pragma once
#include "intervals.hpp"

namespace vf {
typedef __int128 W;
inline std::string wstr(W v) { bool n = v < 0; if (n) v = -v; std::string s; do { s = char('0' + int(v % 10)) + s; v /= 10; } while (v); return n ? "-" + s : s; }
struct WR { W f, l; bool e() const { return f > l; } bool operator==(const WR& o) const { return (e() && o.e()) || (f == o.f && l == o.l); } };
inline std::string wstr(const WR& r) { return r.e() ? "empty" : "{" + wstr(r.f) + ".." + wstr(r.l) + "}"; }

template <class I, Kind K>
struct XLab {
    typedef typename icl::interval_traits<I>::domain_type T;
    typedef typename icl::interval_traits<I>::domain_compare Cmp;
    static constexpr bool desc = std::is_same<Cmp, std::greater<T>>::value;
    static constexpr bool dyn = K == DiscDyn;
    static constexpr int sbits = K == DiscRO ? 2 : K == DiscLO ? 1 : K == DiscCL ? 3 : 0;
    static W ord(T v) { return desc ? -W(v) : W(v); }       // position in the domain's order
    static T val(W o) { return T(desc ? -o : o); }
    static W omin() { return desc ? -W(std::numeric_limits<T>::max()) : W(std::numeric_limits<T>::min()); }
    static W omax() { return desc ? -W(std::numeric_limits<T>::min()) : W(std::numeric_limits<T>::max()); }
    static bool repr(W o) { return omin() <= o && o <= omax(); }
    static const std::vector<T>& points() {
        static const std::vector<T> v = [] {
            std::vector<T> p; for (int i = 0; i < 3; ++i) p.push_back(val(omin() + i));
            W mid = omin() + (omax() - omin()) / 2; p.push_back(val(mid)); p.push_back(val(mid + 1));
            for (int i = 2; i >= 0; --i) p.push_back(val(omax() - i));
            return p;
        }();
        return v;
    }
    struct Raw { T l, u; int bits; WR r; };
    static WR range(T l, T u, int bits) { return WR{ord(l) + !(bits & 2), ord(u) - !(bits & 1)}; }
    static const std::vector<Raw>& raws() {
        static const std::vector<Raw> v = [] {
            std::vector<Raw> x;
            for (T l : points()) for (T u : points()) for (int b = 0; b < 4; ++b) { if (!dyn && b != sbits) continue; x.push_back({l, u, b, range(l, u, b)}); }
            return x;
        }();
        return v;
    }
    static I build(T l, T u, int b) { if constexpr (dyn) return I(l, u, icl::interval_bounds(icl::bound_type(b))); else return I(l, u); }
    static I build(const Raw& r) { return build(r.l, r.u, r.bits); }
    static WR decode(const I& i) { int b = sbits; if constexpr (dyn) b = i.bounds().bits(); return range(i.lower(), i.upper(), b); }
    // can an interval of this type denote r at all?
    static bool fits(const WR& r) {
        if (r.e()) return true;
        if constexpr (dyn) return repr(r.f) && repr(r.l);
        return repr(sbits & 2 ? r.f : r.f - 1) && repr(sbits & 1 ? r.l : r.l + 1);
    }
    static std::string str(const I& i) { int b = sbits; if constexpr (dyn) b = i.bounds().bits(); return std::string(b & 2 ? "[" : "(") + wstr(W(i.lower())) + "," + wstr(W(i.upper())) + (b & 1 ? "]" : ")"); }

    static void one(Case& c, int k) {
        const Raw& r = raws()[k]; I x = build(r);
        c.say([&](std::ostream& o) { o << "x=" << str(x); });
        c.nontrivial = true; c.see(k);
        auto need = [&](bool ok, const char* tag) { c.obs(); if (!ok) c.fail(tag, std::string(tag) + " wrong for " + str(x)); };
        need(icl::is_empty(x) == r.r.e(), "is_empty");
        for (T p : points()) need(icl::contains(x, p) == (r.r.f <= ord(p) && ord(p) <= r.r.l), "contains(element)");
        if (!r.r.e()) {
            need(ord(icl::first(x)) == r.r.f, "first"); need(ord(icl::last(x)) == r.r.l, "last");
            if (repr(r.r.l + 1)) need(ord(icl::last_next(x)) == r.r.l + 1, "last_next");
        }
        typedef typename icl::size_type_of<icl::interval_traits<I>>::type S; typedef typename icl::difference_type_of<icl::interval_traits<I>>::type Df;
        W n = r.r.e() ? 0 : r.r.l - r.r.f + 1;
        if (n <= W(std::numeric_limits<S>::max()) && (r.r.e() || repr(r.r.l + 1))) { need(W(icl::cardinality(x)) == n, "cardinality"); need(W(icl::size(x)) == n, "size"); }
        if (n <= W(std::numeric_limits<Df>::max()) && (r.r.e() || repr(r.r.l + 1))) need(W(icl::length(x)) == n, "length");
        auto same = [&](const I& y, const WR& want, const char* tag) { c.obs(); if (!(decode(y) == want)) c.fail(tag, std::string(tag) + " for operands of " + str(x) + " yields " + str(y) + " expected " + wstr(want)); };
        W a = std::min(ord(r.l), ord(r.u)), b = std::max(ord(r.l), ord(r.u));
        WR s{ord(r.l), ord(r.l)}, h{a, b};
        if (fits(s)) { same(icl::singleton<I>(r.l), s, "singleton"); same(I(r.l), s, "value constructor"); }
        if (fits(h)) same(icl::hull<I>(r.l, r.u), h, "hull(values)");
        same(icl::span<I>(r.l, r.u), range(val(a), val(b), dyn ? 2 : sbits), "span");
        if constexpr (dyn) {
            typedef typename cmp_of<I>::factory F;
            same(F::right_open(r.l, r.u), range(r.l, r.u, 2), "interval<>::right_open"); same(F::left_open(r.l, r.u), range(r.l, r.u, 1), "interval<>::left_open");
            same(F::closed(r.l, r.u), range(r.l, r.u, 3), "interval<>::closed"); same(F::open(r.l, r.u), range(r.l, r.u, 0), "interval<>::open");
        }
    }
    static void two(Case& c, int k) {
        const auto& rs = raws(); static const std::vector<I> is = [] { std::vector<I> v; for (auto& r : raws()) v.push_back(build(r)); return v; }();
        const I& x = is[k]; WR A = rs[k].r; bool ae = A.e();
        c.nontrivial = true; c.see(k);
        c.say([&](std::ostream& o) { o << "x=" << str(x) << " against all " << rs.size() << " intervals y"; });
        typedef typename icl::difference_type_of<icl::interval_traits<I>>::type Df;
        for (size_t j = 0; j < rs.size(); ++j) {
            const I& y = is[j]; WR B = rs[j].r; bool be = B.e();
            auto need = [&](bool got, bool want, const char* tag) { c.obs(); if (got != want) c.fail(tag, std::string(tag) + "(" + str(x) + ", " + str(y) + ") is " + (got ? "true" : "false")); };
            auto same = [&](const I& got, WR want, const char* tag) { if (want.e()) want = WR{1, 0}; c.obs(); if (!(decode(got) == want)) c.fail(tag, std::string(tag) + " of x=" + str(x) + " y=" + str(y) + " yields " + str(got) + " expected " + wstr(want)); };
            bool ba = be || (!ae && A.f <= B.f && B.l <= A.l), ab = ae || (!be && B.f <= A.f && A.l <= B.l);
            WR X = ae || be ? WR{1, 0} : WR{std::max(A.f, B.f), std::min(A.l, B.l)};
            need(icl::contains(x, y), ba, "contains(interval)"); need(icl::within(x, y), ab, "within(interval)");
            need(icl::intersects(x, y), !X.e(), "intersects"); need(icl::disjoint(x, y), X.e(), "disjoint");
            need(icl::exclusive_less(x, y), ae || be || A.l < B.f, "exclusive_less");
            need(x == y, A == B, "=="); need(x != y, !(A == B), "!=");
            bool lt = !ae && !be && (A.f < B.f || (A.f == B.f && A.l < B.l)), gt = !ae && !be && (B.f < A.f || (A.f == B.f && B.l < A.l));
            need(x < y, lt, "<"); need(x > y, gt, ">"); need(x <= y, !ae && !be && !gt, "<="); need(x >= y, !ae && !be && !lt, ">=");
            if (!ae && !be) {
                need(icl::touches(x, y), A.l + 1 == B.f, "touches"); need(icl::exclusive_less_than<I>()(x, y), A.l < B.f, "exclusive_less_than");
                need(icl::lower_less(x, y), A.f < B.f, "lower_less"); need(icl::upper_less(x, y), A.l < B.l, "upper_less");
                need(icl::lower_equal(x, y), A.f == B.f, "lower_equal"); need(icl::upper_equal(x, y), A.l == B.l, "upper_equal");
                need(icl::lower_less_equal(x, y), A.f <= B.f, "lower_less_equal"); need(icl::upper_less_equal(x, y), A.l <= B.l, "upper_less_equal");
            }
            same(x & y, X, "x & y");
            same(icl::hull(x, y), ae ? B : be ? A : WR{std::min(A.f, B.f), std::max(A.l, B.l)}, "hull");
            WR ls = B; if (!ae && !be && ls.f <= A.l) ls.f = A.l + 1; same(icl::left_subtract(y, x), ls, "left_subtract(y,x)");
            WR rsb = A; if (!ae && !be && rsb.l >= B.f) rsb.l = B.f - 1; same(icl::right_subtract(x, y), rsb, "right_subtract(x,y)");
            WR gap{1, 0}; if (!ae && !be) { if (A.l < B.f) gap = WR{A.l + 1, B.f - 1}; else if (B.l < A.f) gap = WR{B.l + 1, A.f - 1}; }
            same(icl::inner_complement(x, y), gap, "inner_complement"); same(icl::between(x, y), gap, "between");
            W n = gap.e() ? 0 : gap.l - gap.f + 1;
            if (n < W(std::numeric_limits<Df>::max())) { c.obs(); W d = W(icl::distance(x, y)); if (d != n) c.fail("distance", "distance(" + str(x) + ", " + str(y) + ") = " + wstr(d) + " expected " + wstr(n)); }
        }
    }
    static void reg(const std::string& n) { int k = int(raws().size()); vf::reg(n + "/single", k, k, one); vf::reg(n + "/pair", k, k, two); }
};
template <class T, template <class> class C> void reg_extremes(const std::string& n) {
    XLab<icl::discrete_interval<T, C>, DiscDyn>::reg(n + "/dynamic"); XLab<icl::closed_interval<T, C>, DiscCL>::reg(n + "/closed");
    XLab<icl::right_open_interval<T, C>, DiscRO>::reg(n + "/right_open"); XLab<icl::left_open_interval<T, C>, DiscLO>::reg(n + "/left_open"); XLab<icl::open_interval<T, C>, DiscOP>::reg(n + "/open");
}
} // namespace vf
