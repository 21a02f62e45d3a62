// P10-P14: observers of interval sets and maps, compared with the element model.
#pragma once
#include "intervals.hpp"
#include "maplab.hpp"

namespace vf {

template <class D> int atom_max() { return D::N; }
template <class D> typename D::domain_type elem_at(Case& c, int a) { return D::elem(c.rng, a); }
inline int popc(uint32_t x) { return __builtin_popcount(x); }

// random container by history; the model is read back from the raw segments
template <class D, class S> SetModel build_set(Case& c, S& s, int n = 7) {
    n = c.rng.below(n + 1);
    for (int i = 0; i < n; ++i) {
        int a, b; D::range(c.rng, a, b); auto iv = D::make(c.rng, a, b);
        int k = c.rng.below(8); if (k == 0) s.subtract(iv); else if (k == 1) s.flip(iv); else s.add(iv);
    }
    return extract_ok<D>(c, s, "construction");
}
// an operand related to an existing one (sub/superset, equal elements, re-cut)
template <class D, class S> SetModel build_related(Case& c, S& s, const SetModel& m) {
    int k = c.rng.below(5);
    if (k == 0) return build_set<D>(c, s);
    for (auto& g : m.segs()) {
        if (k == 2 && c.rng.chance(1, 3)) continue;
        int a = g.first, b = g.second;
        if (k == 3 && c.rng.chance(1, 3)) { if (b - a > 1 && c.rng.chance(1, 2)) ++a; else if (b < D::N && c.rng.chance(1, 2)) ++b; }
        while (a < b) { int e = c.rng.chance(1, 2) ? b : c.rng.range(a + 1, b); s.add(D::make(c.rng, a, e)); a = e; }
    }
    if (k == 4) { int a, b; D::range(c.rng, a, b); if (c.rng.chance(1, 2)) s.add(D::make(c.rng, a, b)); else s.subtract(D::make(c.rng, a, b)); }
    return extract_ok<D>(c, s, "construction");
}
template <class D, class K, class Mp> MapModel<K> build_map(Case& c, Mp& s, int n = 7) {
    n = c.rng.below(n + 1);
    for (int i = 0; i < n; ++i) {
        int a, b; D::range(c.rng, a, b); auto iv = D::make(c.rng, a, b);
        int k = c.rng.below(8);
        typename Mp::segment_type p(iv, K::real(K::rnd(c.rng)));
        if (k == 0) s.erase(iv); else if (k == 1) s.insert(p); else if (k == 2) s.set(p); else s.add(p);
    }
    return extract_map_ok<D, K>(c, s, "construction");
}
template <class D, class K, class Mp> MapModel<K> build_related_map(Case& c, Mp& s, const MapModel<K>& m) {
    int k = c.rng.below(6);
    if (k == 0) return build_map<D, K>(c, s);
    for (auto& g : m.segs()) {
        if (k == 2 && c.rng.chance(1, 3)) continue;
        int a = g.a, b = g.b;
        if (k == 3 && b - a > 1 && c.rng.chance(1, 3)) ++a;
        while (a < b) {
            int e = c.rng.chance(1, 2) ? b : c.rng.range(a + 1, b);
            typename K::MV v = g.v; if (k == 4 && c.rng.chance(1, 3)) v = K::rnd(c.rng);
            s.set(typename Mp::segment_type(D::make(c.rng, a, e), K::real(v))); a = e;
        }
    }
    if (k == 5) { int a, b; D::range(c.rng, a, b); if (c.rng.chance(1, 2)) s.set(typename Mp::segment_type(D::make(c.rng, a, b), K::real(c.rng.chance(1, 2) ? K::ident() : K::rnd(c.rng)))); else s.erase(D::make(c.rng, a, b)); }
    return extract_map_ok<D, K>(c, s, "construction");
}

#define VF_EQ(expr, want, tag) do { bool vf_got = (expr), vf_want = (want); c.obs(); c.see(vf_got); \
    if (vf_got != vf_want) c.fail(tag, std::string(tag) + ": " #expr " is " + (vf_got ? "true" : "false") + ", must be " + (vf_want ? "true" : "false")); } while (0)

// ------------------------------------------------------------------ P10 sets --
template <class D, Style ST> struct SetPred {
    typedef typename SetType<D, ST>::type S; typedef typename D::interval_type I; typedef typename D::domain_type T;
    template <Style OS> static void with(Case& c, const S& s, const SetModel& m) {
        typename SetType<D, OS>::type o; SetModel om = build_related<D>(c, o, m);
        c.say([&](std::ostream& q) { q << "operand " << style_name(OS) << " set " << om.str(); });
        const auto& co = o;
        bool sub = (om.cov & ~m.cov) == 0, sup = (m.cov & ~om.cov) == 0, hit = om.cov & m.cov;
        VF_EQ(icl::contains(s, co), sub, "contains(set, set)");
        VF_EQ(icl::within(co, s), sub, "within(set, set)");
        VF_EQ(icl::contains(co, s), sup, "contains(set, set)");
        VF_EQ(icl::within(s, co), sup, "within(set, set)");
        VF_EQ(icl::intersects(s, co), hit, "intersects(set, set)");
        VF_EQ(icl::intersects(co, s), hit, "intersects(set, set)");
        VF_EQ(icl::disjoint(s, co), !hit, "disjoint(set, set)");
        VF_EQ(icl::disjoint(co, s), !hit, "disjoint(set, set)");
        if (!(extract_ok<D>(c, o, "operand") == om)) c.fail("operand modified", "a predicate modified its operand");
    }
    static void run(Case& c, int) {
        S s0; SetModel m = build_set<D>(c, s0); const S& s = s0;
        c.say([&](std::ostream& q) { q << style_name(ST) << " set " << m.str(); });
        c.nontrivial = m.cov != 0; c.see(m.cov * 31u + m.cut);
        VF_EQ(s.empty(), m.cov == 0, "empty"); VF_EQ(icl::is_empty(s), m.cov == 0, "is_empty");
        for (int a = D::probe_lo; a <= D::probe_hi; ++a) {
            T e = D::elem(c.rng, a); bool in = a >= 0 && (m.cov >> a & 1);
            c.say([&](std::ostream& q) { q << "element " << D::conv::str(e); });
            VF_EQ(icl::contains(s, e), in, "contains(set, element)");
            VF_EQ(icl::within(e, s), in, "within(element, set)");
            VF_EQ(icl::intersects(s, e), in, "intersects(set, element)");
            VF_EQ(icl::disjoint(s, e), !in, "disjoint(set, element)");
        }
        for (int k = 0; k < 10; ++k) {
            int a, b; D::range(c.rng, a, b); const I iv = D::make(c.rng, a, b); uint32_t r = rng_mask(a, b);
            c.say([&](std::ostream& q) { q << "interval " << D::str(iv); });
            VF_EQ(icl::contains(s, iv), (r & ~m.cov) == 0, "contains(set, interval)");
            VF_EQ(icl::within(iv, s), (r & ~m.cov) == 0, "within(interval, set)");
            VF_EQ(icl::intersects(s, iv), (r & m.cov) != 0, "intersects(set, interval)");
            VF_EQ(icl::disjoint(s, iv), (r & m.cov) == 0, "disjoint(set, interval)");
        }
        for (auto& g : m.segs()) { // exact segments and one-off neighbours
            I iv = D::make(c.rng, g.first, g.second);
            VF_EQ(icl::contains(s, iv), true, "contains(set, own segment)");
            if (g.second < D::N) { uint32_t r = rng_mask(g.first, g.second + 1); I w = D::make(c.rng, g.first, g.second + 1); VF_EQ(icl::contains(s, w), (r & ~m.cov) == 0, "contains(set, wider interval)"); }
            if (g.first > 0) { uint32_t r = rng_mask(g.first - 1, g.second); I w = D::make(c.rng, g.first - 1, g.second); VF_EQ(icl::contains(s, w), (r & ~m.cov) == 0, "contains(set, wider interval)"); }
        }
        VF_EQ(icl::contains(s, s), true, "contains(set, itself)");
        VF_EQ(icl::intersects(s, s), m.cov != 0, "intersects(set, itself)");
        with<JOIN>(c, s, m); with<SEP>(c, s, m); with<SPLIT>(c, s, m);
        if (!(extract_ok<D>(c, s, "operand") == m)) c.fail("operand modified", "a predicate modified its operand");
    }
};
// ------------------------------------------------------------------ P10 maps --
template <class D, class K, class Tr, MStyle ST> struct MapPred {
    typedef typename MapType<D, K, Tr, ST>::type M; typedef typename D::interval_type I; typedef typename D::domain_type T;
    typedef MapModel<K> Mod; typedef typename K::MV MV; typedef typename M::segment_type Seg;
    static constexpr bool total = Tr::is_total;
    typedef MapSpec<K, Tr::is_total, Tr::absorbs_identities, ST == MJOIN> Sp;
    static bool meets(const Mod& m, const Mod& o) { // is m & o non-empty?
        if (total) return true;
        Mod x = m; Sp::inter(x, o); return x.cov != 0;
    }
    static bool sub_of(const Mod& o, const Mod& m) { for (int i = 0; i < 20; ++i) if (o.has(i) && !(m.has(i) && m.val[i] == o.val[i])) return false; return true; }
    template <MStyle OS> static void with_map(Case& c, const M& s, const Mod& m) {
        typename MapType<D, K, Tr, OS>::type o; Mod om = build_related_map<D, K>(c, o, m);
        c.say([&](std::ostream& q) { q << "operand map " << om.str(); });
        const auto& co = o; bool sub = sub_of(om, m), sup = sub_of(m, om), hit = meets(m, om);
        VF_EQ(icl::contains(s, co), sub, "contains(map, map)"); VF_EQ(icl::within(co, s), sub, "within(map, map)");
        VF_EQ(icl::contains(co, s), sup, "contains(map, map)"); VF_EQ(icl::within(s, co), sup, "within(map, map)");
        VF_EQ(icl::intersects(s, co), hit, "intersects(map, map)"); VF_EQ(icl::disjoint(s, co), !hit, "disjoint(map, map)");
        VF_EQ(icl::intersects(co, s), hit, "intersects(map, map)");
        if (!(extract_map_ok<D, K>(c, o, "operand") == om)) c.fail("operand modified", "a predicate modified its operand");
    }
    template <Style OS> static void with_set(Case& c, const M& s, const Mod& m) {
        typename SetType<D, OS>::type o; SetModel km; km.cov = m.cov; km.cut = m.cut; SetModel om = build_related<D>(c, o, km);
        c.say([&](std::ostream& q) { q << "operand " << style_name(OS) << " set " << om.str(); });
        const auto& co = o; bool sub = (om.cov & ~m.cov) == 0, hit = om.cov & m.cov;
        if constexpr (!total) { VF_EQ(icl::contains(s, co), sub, "contains(map, set)"); VF_EQ(icl::within(co, s), sub, "within(set, map)"); VF_EQ(icl::intersects(s, co), hit, "intersects(map, set)"); VF_EQ(icl::disjoint(s, co), !hit, "disjoint(map, set)"); }
    }
    static void run(Case& c, int) {
        M s0; Mod m = build_map<D, K>(c, s0); const M& s = s0;
        c.say([&](std::ostream& q) { q << "map " << m.str(); });
        c.nontrivial = m.cov != 0; c.see(m.hash());
        VF_EQ(s.empty(), m.cov == 0, "empty"); VF_EQ(icl::is_empty(s), m.cov == 0, "is_empty");
        for (int a = D::probe_lo; a <= D::probe_hi; ++a) {
            T e = D::elem(c.rng, a); bool in = a >= 0 && m.has(a);
            MV v = in && c.rng.chance(1, 2) ? m.val[a] : K::rnd(c.rng); if (v == K::ident() && !in) v = K::rnd(c.rng);
            c.say([&](std::ostream& q) { q << "key " << D::conv::str(e) << " value " << K::str(v); });
            VF_EQ(icl::contains(s, e), total || in, "contains(map, key)"); VF_EQ(icl::within(e, s), total || in, "within(key, map)");
            if (!total) { VF_EQ(icl::intersects(s, e), in, "intersects(map, key)"); VF_EQ(icl::disjoint(s, e), !in, "disjoint(map, key)"); }
            if (in || !(total && v == K::ident())) {
                typename M::element_type el(e, K::real(v)); bool w = in && m.val[a] == v;
                VF_EQ(icl::contains(s, el), w, "contains(map, element)"); VF_EQ(icl::within(el, s), w, "within(element, map)");
            }
            if constexpr (D::elem_ops) if (a >= 0 && (D::discrete || a % 2 == 0)) {
                typename M::element_type el(e, K::real(v)); Mod o; o.put(a, v); if (Tr::absorbs_identities && v == K::ident()) continue;
                VF_EQ(icl::intersects(s, el), meets(m, o), "intersects(map, element)"); VF_EQ(icl::disjoint(s, el), !meets(m, o), "disjoint(map, element)");
            }
        }
        for (int k = 0; k < 8; ++k) {
            int a, b; D::range(c.rng, a, b); auto sg = m.segs();
            if (k > 3 && !sg.empty()) { auto& g = sg[c.rng.below(int(sg.size()))]; a = g.a; b = g.b; if (c.rng.chance(1, 3) && b < D::N) ++b; else if (c.rng.chance(1, 3) && a > 0) --a; }
            const I iv = D::make(c.rng, a, b); uint32_t r = rng_mask(a, b); bool in = (r & ~m.cov) == 0, hit = r & m.cov;
            MV v = a < b && m.has(a) && c.rng.chance(2, 3) ? m.val[a] : K::rnd(c.rng);
            c.say([&](std::ostream& q) { q << "interval " << D::str(iv) << " value " << K::str(v); });
            VF_EQ(icl::contains(s, iv), total || in, "contains(map, interval)"); VF_EQ(icl::within(iv, s), total || in, "within(interval, map)");
            if (!total) { VF_EQ(icl::intersects(s, iv), hit, "intersects(map, interval)"); VF_EQ(icl::disjoint(s, iv), !hit, "disjoint(map, interval)"); }
            bool all = in; for (int i = a; i < b; ++i) if (m.has(i) && !(m.val[i] == v)) all = false;
            const Seg sgm(iv, K::real(v));
            if (!(v == K::ident()) || in) {
                VF_EQ(icl::contains(s, sgm), a >= b || all, "contains(map, segment)"); VF_EQ(icl::within(sgm, s), a >= b || all, "within(segment, map)");
            }
            Mod o; for (int i = a; i < b; ++i) o.put(i, v);
            VF_EQ(icl::intersects(s, sgm), meets(m, o), "intersects(map, segment)"); VF_EQ(icl::disjoint(s, sgm), !meets(m, o), "disjoint(map, segment)");
        }
        VF_EQ(icl::contains(s, s), true, "contains(map, itself)");
        with_map<MJOIN>(c, s, m); with_map<MSPLIT>(c, s, m);
        with_set<JOIN>(c, s, m); with_set<SEP>(c, s, m); with_set<SPLIT>(c, s, m);
        if (!(extract_map_ok<D, K>(c, s, "operand") == m)) c.fail("operand modified", "a predicate modified its operand");
    }
};

// ---------------------------------------------------------------- P11 --------
inline int incl(bool sub, bool sup) { return (sub ? icl::inclusion::subset : 0) | (sup ? icl::inclusion::superset : 0); }
template <class T, class F> int lex(const std::vector<T>& a, const std::vector<T>& b, F less) {
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) { if (less(a[i], b[i])) return -1; if (less(b[i], a[i])) return 1; }
    return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
template <class C> void ordering_ops(Case& c, const C& x, const C& y, bool eq, int order, bool known_order) {
    VF_EQ(x == y, eq, "operator =="); VF_EQ(y == x, eq, "operator =="); VF_EQ(x != y, !eq, "operator !=");
    bool lt = x < y, gt = y < x;
    if (int(lt) + int(gt) + int(eq) != 1) c.fail("trichotomy", "exactly one of <, ==, > must hold of two containers");
    if (known_order) { VF_EQ(x < y, order < 0, "operator <"); VF_EQ(y < x, order > 0, "operator <"); }
    VF_EQ(x > y, gt, "operator >"); VF_EQ(x <= y, !gt, "operator <="); VF_EQ(x >= y, !lt, "operator >=");
}
template <class D> struct ascending { template <class X> static constexpr bool f() { return std::is_same<typename cmp_of<typename D::interval_type>::template cmp<X>, std::less<X>>::value; } static constexpr bool value = f<typename D::domain_type>(); };

template <class D, Style ST> struct SetOrd {
    typedef typename SetType<D, ST>::type S;
    template <Style OS> static void with(Case& c, const S& s, const SetModel& m) {
        typename SetType<D, OS>::type o; SetModel om = build_related<D>(c, o, m);
        c.say([&](std::ostream& q) { q << "operand " << style_name(OS) << " set " << om.str(); });
        const auto& co = o; bool eq = m.cov == om.cov;
        VF_EQ(icl::is_element_equal(s, co), eq, "is_element_equal"); VF_EQ(icl::is_element_equal(co, s), eq, "is_element_equal");
        // element-wise lexicographic order: first differing atom decides; a proper prefix is less
        int ord = 0; uint32_t d = m.cov ^ om.cov;
        if (d) { int k = __builtin_ctz(d); bool mine = m.cov >> k & 1; uint32_t above = k < 31 ? ~((2u << k) - 1) : 0;
            if (mine) ord = (om.cov & above) ? -1 : 1; else ord = (m.cov & above) ? 1 : -1; }
        VF_EQ(icl::is_element_less(s, co), ord < 0, "is_element_less"); VF_EQ(icl::is_element_greater(s, co), ord > 0, "is_element_greater");
        VF_EQ(icl::is_element_less(co, s), ord > 0, "is_element_less"); VF_EQ(icl::is_element_greater(co, s), ord < 0, "is_element_greater");
        bool sub = (m.cov & ~om.cov) == 0, sup = (om.cov & ~m.cov) == 0;
        int w = incl(sub, sup), g = icl::inclusion_compare(s, co); c.obs();
        if (g != w) c.fail("inclusion_compare(set, set)", "inclusion_compare gives " + std::to_string(g) + ", must be " + std::to_string(w));
        if constexpr (OS == ST) {
            bool same = m == om; int od = lex(m.segs(), om.segs(), [](auto& a, auto& b) { return a < b; });
            ordering_ops(c, s, co, same, od, ascending<D>::value);
        }
    }
    static void run(Case& c, int) {
        S s; SetModel m = build_set<D>(c, s); c.say([&](std::ostream& q) { q << style_name(ST) << " set " << m.str(); });
        c.nontrivial = m.cov != 0; c.see(m.cov * 31u + m.cut);
        for (int i = 0; i < 3; ++i) { with<JOIN>(c, s, m); with<SEP>(c, s, m); with<SPLIT>(c, s, m); }
        { S t(s); ordering_ops(c, s, t, true, 0, true); ordering_ops(c, s, s, true, 0, true); VF_EQ(icl::is_element_equal(s, s), true, "is_element_equal"); }
        S x[3]; for (auto& y : x) build_related<D>(c, y, m); // transitivity
        if (x[0] < x[1] && x[1] < x[2]) VF_EQ(x[0] < x[2], true, "transitivity");
        if (!(extract_ok<D>(c, s, "operand") == m)) c.fail("operand modified", "a comparison modified its operand");
    }
};
template <class D, class K, class Tr, MStyle ST> struct MapOrd {
    typedef typename MapType<D, K, Tr, ST>::type M; typedef MapModel<K> Mod; typedef typename K::MV MV;
    static bool distinct_eq(const Mod& a, const Mod& b) {
        for (int i = 0; i < 20; ++i) { bool x = a.has(i) && !(a.val[i] == K::ident()), y = b.has(i) && !(b.val[i] == K::ident()); if (x != y || (x && !(a.val[i] == b.val[i]))) return false; }
        return true;
    }
    static int incl_map(const Mod& a, const Mod& b) {
        bool sub = true, sup = true;
        for (int i = 0; i < 20; ++i) {
            if (a.has(i) && !b.has(i)) sub = false; if (b.has(i) && !a.has(i)) sup = false;
            if (a.has(i) && b.has(i) && !(a.val[i] == b.val[i])) sub = sup = false;
        }
        return incl(sub, sup);
    }
    template <MStyle OS> static void with(Case& c, const M& s, const Mod& m) {
        typename MapType<D, K, Tr, OS>::type o; Mod om = build_related_map<D, K>(c, o, m);
        c.say([&](std::ostream& q) { q << (OS == MJOIN ? "operand map " : "operand split map ") << om.str(); });
        const auto& co = o; bool eq = m.same_values(om);
        VF_EQ(icl::is_element_equal(s, co), eq, "is_element_equal"); VF_EQ(icl::is_element_equal(co, s), eq, "is_element_equal");
        int ord = 0; // lexicographic over (key, value) pairs
        {
            std::vector<int> ka, kb; for (int i = 0; i < 20; ++i) { if (m.has(i)) ka.push_back(i); if (om.has(i)) kb.push_back(i); }
            for (size_t i = 0;; ++i) {
                if (i == ka.size() || i == kb.size()) { ord = ka.size() < kb.size() ? -1 : ka.size() > kb.size() ? 1 : 0; break; }
                if (ka[i] != kb[i]) { ord = ka[i] < kb[i] ? -1 : 1; break; }
                if (m.val[ka[i]] < om.val[ka[i]]) { ord = -1; break; } if (om.val[ka[i]] < m.val[ka[i]]) { ord = 1; break; }
            }
        }
        VF_EQ(icl::is_element_less(s, co), ord < 0, "is_element_less"); VF_EQ(icl::is_element_greater(s, co), ord > 0, "is_element_greater");
        int w = incl_map(m, om), g = icl::inclusion_compare(s, co); c.obs();
        if (g != w) c.fail("inclusion_compare(map, map)", "inclusion_compare gives " + std::to_string(g) + ", must be " + std::to_string(w));
        if constexpr (OS == ST) {
            bool same = m == om;
            int od = lex(m.segs(), om.segs(), [](auto& a, auto& b) { return std::make_tuple(a.a, a.b, a.v) < std::make_tuple(b.a, b.b, b.v); });
            ordering_ops(c, s, co, same, od, ascending<D>::value);
            VF_EQ(icl::is_distinct_equal(s, co), distinct_eq(m, om), "is_distinct_equal");
        }
    }
    template <Style OS> static void with_set(Case& c, const M& s, const Mod& m) {
        typename SetType<D, OS>::type o; SetModel km; km.cov = m.cov; km.cut = m.cut; SetModel om = build_related<D>(c, o, km);
        const auto& co = o; int w = incl((m.cov & ~om.cov) == 0, (om.cov & ~m.cov) == 0), g = icl::inclusion_compare(s, co), h = icl::inclusion_compare(co, s); c.obs(2);
        int wr = (w & icl::inclusion::subset ? icl::inclusion::superset : 0) | (w & icl::inclusion::superset ? icl::inclusion::subset : 0);
        if (g != w || h != wr) c.fail("inclusion_compare(map, set)", "inclusion_compare of a map and a key set is wrong");
    }
    static void run(Case& c, int) {
        M s; Mod m = build_map<D, K>(c, s); c.say([&](std::ostream& q) { q << "map " << m.str(); });
        c.nontrivial = m.cov != 0; c.see(m.hash());
        for (int i = 0; i < 2; ++i) { with<MJOIN>(c, s, m); with<MSPLIT>(c, s, m); with<ST>(c, s, m); }
        with_set<JOIN>(c, s, m); with_set<SEP>(c, s, m); with_set<SPLIT>(c, s, m);
        M t(s); ordering_ops(c, s, t, true, 0, true); ordering_ops(c, s, s, true, 0, true);
        if (!(extract_map_ok<D, K>(c, s, "operand") == m)) c.fail("operand modified", "a comparison modified its operand");
    }
};

// ---------------------------------------------------------------- P12 --------
template <class D, class C, class It> int index_of(C& s, It it) { int k = 0; for (auto i = s.begin(); ; ++i, ++k) { if (i == it) return k; if (i == s.end()) return -7; } }
template <class D, class S, class Segs> void lookups(Case& c, S& s0, const Segs& segs, uint32_t cov) {
    const S& s = s0; int n = int(segs.size()); typedef typename D::interval_type I; typedef typename D::domain_type T;
    auto same = [&](int got, int want, const char* t, const std::string& q) { c.obs(); c.see(uint64_t(got)); if (got != want) c.fail(t, std::string(t) + " of " + q + " gives segment #" + std::to_string(got) + " of " + std::to_string(n) + ", must be #" + std::to_string(want)); };
    for (int a = D::probe_lo; a <= D::probe_hi; ++a) {
        T e = D::elem(c.rng, a); int want = n; for (int k = 0; k < n; ++k) if (segs[k].first <= a && a < segs[k].second) want = k;
        std::string q = "key " + D::conv::str(e);
        same(index_of<D>(s, s.find(e)), want, "find(key)", q); same(index_of<D>(s, icl::find(s, e)), want, "icl::find(key)", q);
        same(index_of<D>(s, s0.find(e)), want, "find(key)", q);
    }
    for (int k = 0; k < 14; ++k) {
        int a, b; D::range(c.rng, a, b); if (a >= b) continue;
        if (k > 8 && n) { auto& g = segs[c.rng.below(n)]; a = g.first; b = g.second; if (c.rng.chance(1, 2)) { a = std::max(0, a - 1 + c.rng.below(3)); b = std::min(D::N, b - 1 + c.rng.below(3)); if (a >= b) continue; } }
        I iv = D::make(c.rng, a, b); std::string q = "interval " + D::str(iv);
        int lo = 0; while (lo < n && segs[lo].second <= a) ++lo; int up = lo; while (up < n && segs[up].first < b) ++up;
        int f = lo < up ? lo : n;
        same(index_of<D>(s, s.find(iv)), f, "find(interval)", q); same(index_of<D>(s, icl::find(s, iv)), f, "icl::find(interval)", q);
        same(index_of<D>(s, s.lower_bound(iv)), lo, "lower_bound", q); same(index_of<D>(s, s.upper_bound(iv)), up, "upper_bound", q);
        same(index_of<D>(s0, s0.lower_bound(iv)), lo, "lower_bound", q); same(index_of<D>(s0, s0.upper_bound(iv)), up, "upper_bound", q);
        auto er = s.equal_range(iv); same(index_of<D>(s, er.first), lo, "equal_range.first", q); same(index_of<D>(s, er.second), up, "equal_range.second", q);
        auto er2 = s0.equal_range(iv); same(index_of<D>(s0, er2.first), lo, "equal_range.first", q); same(index_of<D>(s0, er2.second), up, "equal_range.second", q);
    }
}
template <class D, Style ST> struct SetFind {
    static void run(Case& c, int) {
        typename SetType<D, ST>::type s; SetModel m = build_set<D>(c, s, 10); c.say([&](std::ostream& q) { q << style_name(ST) << " set " << m.str(); });
        c.nontrivial = m.cov != 0; c.see(m.cov * 31u + m.cut);
        lookups<D>(c, s, m.segs(), m.cov);
        if (!(extract_ok<D>(c, s, "operand") == m)) c.fail("operand modified", "a lookup modified the container");
    }
};
template <class D, class K, class Tr, MStyle ST> struct MapFind {
    static void run(Case& c, int) {
        typename MapType<D, K, Tr, ST>::type s0; auto m = build_map<D, K>(c, s0, 10); c.say([&](std::ostream& q) { q << "map " << m.str(); });
        c.nontrivial = m.cov != 0; c.see(m.hash());
        std::vector<std::pair<int, int>> sg; for (auto& g : m.segs()) sg.push_back({g.a, g.b});
        lookups<D>(c, s0, sg, m.cov);
        const auto& s = s0;
        for (int a = D::probe_lo; a <= D::probe_hi; ++a) {
            auto e = D::elem(c.rng, a); auto want = a >= 0 && m.has(a) ? m.val[a] : K::ident();
            auto got = K::mv(s(e)); c.obs();
            if (!(got == want)) c.fail("operator()", "map(" + D::conv::str(e) + ") is " + K::str(got) + ", must be " + K::str(want));
        }
        if (!(extract_map_ok<D, K>(c, s, "operand") == m)) c.fail("operand modified", "a lookup modified the container");
    }
};
} // namespace vf
