// P13 (extent) and P14 (iteration)
#pragma once
#include "observe.hpp"
namespace vf {
template <class D, class C> void extents(Case& c, const C& s, const std::vector<std::pair<int, int>>& segs, uint32_t cov) {
    typedef typename D::interval_type I; typedef typename D::domain_type T; typedef typename D::conv Cv;
    int n = int(segs.size());
    auto num = [&](long long got, long long want, const char* t) { c.obs(); c.see(uint64_t(got)); if (got != want) c.fail(t, std::string(t) + " is " + std::to_string(got) + ", must be " + std::to_string(want)); };
    num((long long)s.iterative_size(), n, "iterative_size()"); num((long long)icl::iterative_size(s), n, "iterative_size"); num((long long)icl::interval_count(s), n, "interval_count");
    num(s.empty(), n == 0, "empty"); num(icl::is_empty(s), n == 0, "is_empty");
    typedef typename C::size_type Sz;
    Sz inf = icl::infinity<Sz>::value(), want = Sz(0);
    if constexpr (D::discrete) { num(as_count(icl::cardinality(s)), popc(cov), "cardinality"); num(as_count(icl::size(s)), popc(cov), "size"); num(as_count(s.size()), popc(cov), "size()"); }
    else {
        bool infinite = false; long long pts = 0;
        for (auto& g : segs) { if (D::kind == ContDyn && g.second - g.first == 1 && g.first % 2 == 0) ++pts; else infinite = true; }
        Sz w = infinite ? inf : Sz(pts); (void)want;
        c.obs(3); if (!(icl::cardinality(s) == w) || !(icl::size(s) == w) || !(s.size() == w)) c.fail("cardinality", "cardinality of a continuous container: a finite number of points or infinity");
    }
    if constexpr (!std::is_same<T, std::string>::value) {
        typedef typename C::difference_type Df;
        auto dif = [](int l, int u) { return ascending<D>::value ? Cv::at(u) - Cv::at(l) : Cv::at(l) - Cv::at(u); };
        if constexpr (D::discrete) num(as_count(icl::length(s)), popc(cov), "length");
        else {
            Df w = Cv::at(0) - Cv::at(0);
            for (auto& g : segs) { if (D::kind == ContDyn) w += dif(g.first / 2, g.second / 2); else w += dif(g.first, g.second); }
            c.obs(); if (!(icl::length(s) == w)) c.fail("length", "length of a continuous container must be the sum of its segments' lengths");
        }
        if constexpr (D::discrete) {
            long long gap = 0; for (int k = 1; k < n; ++k) gap += segs[k].first - segs[k - 1].second;
            num(as_count(icl::distance(s)), gap, "distance");
        } else {
            Df w = Cv::at(0) - Cv::at(0);
            for (int k = 1; k < n; ++k) w += D::kind == ContDyn ? dif(segs[k - 1].second / 2, segs[k].first / 2) : dif(segs[k - 1].second, segs[k].first);
            c.obs(); if (!(icl::distance(s) == w)) c.fail("distance", "distance of a continuous container must be the sum of the gaps' lengths");
        }
    }
    I h = icl::hull(s); int a = 0, b = 0;
    if (n) {
        if (!D::decode(h, a, b) || a != segs[0].first || b != segs[n - 1].second) c.fail("hull", "hull is " + D::str(h));
        int fl, fu, ll, lu; I f = s.begin() == s.end() ? I() : icl::key_value<C>(s.begin()); auto li = s.end(); --li; I l = icl::key_value<C>(li);
        c.obs(4); (void)fl; (void)fu; (void)ll; (void)lu;
        if (!(icl::lower(s) == f.lower())) c.fail("lower", "lower is " + Cv::str(icl::lower(s))); if (!(icl::upper(s) == l.upper())) c.fail("upper", "upper is " + Cv::str(icl::upper(s)));
        if constexpr (D::discrete) {
            if (!(icl::first(s) == Cv::at(segs[0].first))) c.fail("first", "first is " + Cv::str(icl::first(s)));
            if (!(icl::last(s) == Cv::at(segs[n - 1].second - 1))) c.fail("last", "last is " + Cv::str(icl::last(s)));
        }
    } else {
        c.obs(3); if (!D::raw_empty(h)) c.fail("hull of empty", "hull of an empty container must be empty: " + D::str(h));
        if (!(icl::lower(s) == icl::unit_element<T>::value()) || !(icl::upper(s) == icl::identity_element<T>::value())) c.fail("lower/upper of empty", "lower/upper of an empty container must be the unit and identity element");
        if constexpr (D::discrete) if (!(icl::first(s) == icl::unit_element<T>::value()) || !(icl::last(s) == icl::identity_element<T>::value())) c.fail("first/last of empty", "first/last of an empty container must be the unit and identity element");
    }
}
template <class D, Style ST> struct SetSize {
    static void run(Case& c, int k) {
        typename SetType<D, ST>::type s; SetModel m; if (k) m = build_set<D>(c, s, 9); c.say([&](std::ostream& q) { q << style_name(ST) << " set " << m.str(); });
        c.nontrivial = m.cov != 0; c.see(m.cov * 31u + m.cut); extents<D>(c, s, m.segs(), m.cov);
        if (c.rng.chance(1, 6)) { s.clear(); extents<D>(c, s, {}, 0); }
    }
};
template <class D, class K, class Tr, MStyle ST> struct MapSize {
    static void run(Case& c, int k) {
        typename MapType<D, K, Tr, ST>::type s; MapModel<K> m; if (k) m = build_map<D, K>(c, s, 9); c.say([&](std::ostream& q) { q << "map " << m.str(); });
        c.nontrivial = m.cov != 0; c.see(m.hash());
        std::vector<std::pair<int, int>> sg; for (auto& g : m.segs()) sg.push_back({g.a, g.b});
        extents<D>(c, s, sg, m.cov);
        if (c.rng.chance(1, 6)) { s.clear(); extents<D>(c, s, {}, 0); }
    }
};
// ---------------------------------------------------------------- P14 --------
template <class D, class C> struct Walk {
    // forward, backward and random walk over [b, e) of element iterators; at(i) must equal want[i]
    template <class It, class Eq> static void go(Case& c, It b, It e, const std::vector<int>& want, Eq eq, const char* t) {
        size_t n = want.size(), k = 0;
        for (It i = b; ; ++i, ++k) {
            c.obs(); if (k == n) { if (!(i == e)) c.fail(t, std::string(t) + ": iteration visits too many elements"); break; }
            if (i == e) c.fail(t, std::string(t) + ": iteration ends after " + std::to_string(k) + " of " + std::to_string(n) + " elements");
            if (!eq(i, want[k])) c.fail(t, std::string(t) + ": wrong element at position " + std::to_string(k));
        }
        k = n; for (It i = e; k > 0;) { --k; if (k % 2) --i; else i--; c.obs(); if (!eq(i, want[k])) c.fail(t, std::string(t) + ": backward movement gives a wrong element at position " + std::to_string(k)); if (k == 0 && !(i == b)) c.fail(t, std::string(t) + ": backward movement does not reach the beginning"); }
        It i = b; long p = 0;
        for (int s = 0; s < 24; ++s) {
            bool f = c.rng.chance(1, 2);
            if (f && p < long(n)) { if (s % 3) ++i; else { It old = i++; if (!eq(old, want[size_t(p)])) c.fail(t, std::string(t) + ": post-increment"); } ++p; } else if (!f && p > 0) { --i; --p; }
            c.obs(); bool at_end = i == e; if (at_end != (p == long(n))) c.fail(t, std::string(t) + ": mixed movement reaches the end at the wrong position");
            if (!at_end && !eq(i, want[size_t(p)])) c.fail(t, std::string(t) + ": mixed movement gives a wrong element at position " + std::to_string(p));
            It j = i; if (!(j == i)) c.fail(t, "copied iterator differs");
        }
    }
};
template <class D, class C> void segment_walk(Case& c, const C& s, int n) {
    int k = 0; for (auto i = s.begin(); i != s.end(); ++i) ++k; int r = 0; for (auto i = s.rbegin(); i != s.rend(); ++i) ++r; c.obs(2);
    if (k != n || r != n) c.fail("segment iteration", "segment iteration forward or backward does not visit each segment once");
    std::vector<std::string> f, b; for (auto i = s.begin(); i != s.end(); ++i) f.push_back(D::str(icl::key_value<C>(i))); for (auto i = s.rbegin(); i != s.rend(); ++i) b.push_back(D::str(icl::key_value<C>(i)));
    std::reverse(b.begin(), b.end()); if (f != b) c.fail("segment iteration", "backward segment iteration is not the reverse of forward iteration");
}
template <class D, Style ST> struct SetIter {
    static void run(Case& c, int k) {
        typedef typename SetType<D, ST>::type S; S s; SetModel m; if (k) m = build_set<D>(c, s, 9); c.say([&](std::ostream& q) { q << style_name(ST) << " set " << m.str(); });
        c.nontrivial = m.cov != 0; c.see(m.cov * 31u + m.cut); segment_walk<D>(c, s, int(m.segs().size()));
        if constexpr (D::discrete) {
            std::vector<int> w; for (int i = 0; i < D::N; ++i) if (m.cov >> i & 1) w.push_back(i); std::vector<int> v(w.rbegin(), w.rend());
            auto eq = [](auto& it, int a) { return *it == D::conv::at(a); }; const S& cs = s;
            Walk<D, S>::go(c, icl::elements_begin(s), icl::elements_end(s), w, eq, "elements_begin"); Walk<D, S>::go(c, icl::elements_begin(cs), icl::elements_end(cs), w, eq, "const elements_begin");
            Walk<D, S>::go(c, icl::elements_rbegin(s), icl::elements_rend(s), v, eq, "elements_rbegin"); Walk<D, S>::go(c, icl::elements_rbegin(cs), icl::elements_rend(cs), v, eq, "const elements_rbegin");
        }
        if (!(extract_ok<D>(c, s, "operand") == m)) c.fail("operand modified", "iteration modified the container");
    }
};
template <class D, class K, class Tr, MStyle ST> struct MapIter {
    static void run(Case& c, int k) {
        typedef typename MapType<D, K, Tr, ST>::type M; M s; MapModel<K> m; if (k) m = build_map<D, K>(c, s, 9); c.say([&](std::ostream& q) { q << "map " << m.str(); });
        c.nontrivial = m.cov != 0; c.see(m.hash()); segment_walk<D>(c, s, int(m.segs().size()));
        if constexpr (D::discrete) {
            std::vector<int> w; for (int i = 0; i < D::N; ++i) if (m.has(i)) w.push_back(i); std::vector<int> v(w.rbegin(), w.rend());
            auto eq = [&](auto& it, int a) { return (*it).first == D::conv::at(a) && K::mv((*it).second) == m.val[a]; }; const M& cs = s;
            Walk<D, M>::go(c, icl::elements_begin(s), icl::elements_end(s), w, eq, "elements_begin"); Walk<D, M>::go(c, icl::elements_begin(cs), icl::elements_end(cs), w, eq, "const elements_begin");
            Walk<D, M>::go(c, icl::elements_rbegin(s), icl::elements_rend(s), v, eq, "elements_rbegin"); Walk<D, M>::go(c, icl::elements_rbegin(cs), icl::elements_rend(cs), v, eq, "const elements_rbegin");
        } 
    }
};
} // namespace vf
