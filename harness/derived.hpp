// P22: derived views and transformations.
#pragma once
#include "observe.hpp"
#include <boost/icl/split_interval_map.hpp>
#include <boost/icl/detail/interval_morphism.hpp>
#include <sstream>

namespace vf {
template <class T> std::string plain(const T& v) { std::ostringstream o; o << v; return o.str(); }
// the documented notation of an interval, from its raw bounds
template <class D> std::string note(const typename D::interval_type& iv) {
    int bd = 0; if constexpr (D::dynamic) bd = iv.bounds().bits(); else bd = D::kind == DiscRO || D::kind == ContRO ? 2 : D::kind == DiscLO || D::kind == ContLO ? 1 : D::kind == DiscCL ? 3 : 0;
    int a, b; bool empty = D::raw_empty(iv); (void)a; (void)b;
    std::string l = bd & 2 ? "[" : "(", r = bd & 1 ? "]" : ")";
    return empty ? l + r : l + plain(iv.lower()) + "," + plain(iv.upper()) + r;
}
template <class C> std::basic_string<C> wide(const std::string& s) { return std::basic_string<C>(s.begin(), s.end()); }

template <class D, Style ST> struct SetDerived {
    typedef typename SetType<D, ST>::type S; typedef typename D::interval_type I; typedef typename D::domain_type T;
    static void same(Case& c, const char* what, const SetModel& got, const SetModel& want) { c.obs(); c.see(got.cov * 31u + got.cut); if (!(got == want)) c.fail(what, std::string(what) + " gives " + got.str() + ", must be " + want.str()); }
    static void run(Case& c, int) {
        S s; SetModel m = build_set<D>(c, s, 9); c.nontrivial = m.cov != 0; c.see(m.cov * 31u + m.cut);
        c.say([&](std::ostream& q) { q << style_name(ST) << " set " << m.str(); });
        { S x(s); auto& r = icl::join(x); c.check(&r == &x, "join", "join returns its argument"); SetModel w = m; w.cut = 0; same(c, "join(set)", extract_ok<D>(c, x, "join"), w);
          icl::join(x); same(c, "join(set) twice", extract_ok<D>(c, x, "join"), w);
          int a, b; D::range(c.rng, a, b); x.add(D::make(c.rng, a, b)); m_add(w, ST, a, b); same(c, "add after join", extract_ok<D>(c, x, "join"), w); }
        { std::ostringstream o; o << s; std::string w = "{"; for (auto& iv : s) w += note<D>(iv); w += "}"; c.obs(); if (o.str() != w) c.fail("stream", "set streams as " + o.str() + ", must be " + w); }
        for (int i = 0; i < 4; ++i) { int a, b; D::range(c.rng, a, b); I iv = i == 3 ? D::empty(c.rng) : D::make(c.rng, a, b); std::string w = note<D>(iv); c.obs(); if (plain(iv) != w) c.fail("stream", "interval " + D::str(iv) + " streams as " + plain(iv) + ", must be " + w); }
        { // what is missing between the first and the last element
            S gaps; if (!icl::is_empty(s)) gaps.add(icl::hull(s)); gaps -= s; uint32_t hull = 0; auto g = m.segs(); if (!g.empty()) hull = rng_mask(g[0].first, g.back().second);
            SetModel w; w.cov = hull & ~m.cov; SetModel got = extract_ok<D>(c, gaps, "gaps"); got.cut = 0; same(c, "hull - set", got, w); }
        if constexpr (D::kind == DiscDyn || D::kind == DiscRO || D::kind == DiscCL || D::kind == DiscLO || D::kind == DiscOP) if constexpr (std::is_same<std::less<T>, typename S::domain_compare>::value) {
            std::set<T> atoms; for (auto it = icl::elements_begin(s); it != icl::elements_end(s); ++it) atoms.insert(*it);
            S back; icl::segmental::cluster(back, atoms); SetModel w = SetModel(); for (int i = 0; i < 31; ++i) if (m.cov >> i & 1) m_add(w, ST, i, i + 1); same(c, "cluster(atoms)", extract_ok<D>(c, back, "cluster"), w);
        }
        with_copy<JOIN>(c, s, m); with_copy<SEP>(c, s, m); with_copy<SPLIT>(c, s, m);
    }
    template <Style OS> static void with_copy(Case& c, const S& s, const SetModel& m) { // selection by hand: the same segments one by one
        typename SetType<D, OS>::type o; SetModel w; for (auto& iv : s) { o.insert(iv); } for (auto& g : m.segs()) m_add(w, OS, g.first, g.second);
        c.obs(); SetModel got = extract_ok<D>(c, o, "copy"); if (!(got == w)) c.fail("segment copy", "segments copied one by one into a " + std::string(style_name(OS)) + " set give " + got.str() + ", must be " + w.str());
    }
};

template <class D, class K, class Tr, MStyle ST> struct MapDerived {
    typedef typename MapType<D, K, Tr, ST>::type M; typedef typename D::interval_type I; typedef typename D::domain_type T; typedef MapModel<K> Mod; typedef typename M::segment_type Seg;
    static constexpr bool absorb = Tr::absorbs_identities; typedef MapSpec<K, Tr::is_total, absorb, ST == MJOIN> Sp;
    static void same(Case& c, const char* what, const Mod& got, const Mod& want) { c.obs(); c.see(got.hash()); if (!(got == want)) c.fail(what, std::string(what) + " gives " + got.str() + ", must be " + want.str()); }
    template <Style OS> static void views(Case& c, const M& s, const Mod& m) {
        typedef typename SetType<D, OS>::type S; auto segs = m.segs();
        { S d; if (c.rng.chance(1, 2)) build_set<D>(c, d, 3); auto& r = icl::domain(d, s); c.check(&r == &d, "domain", "domain returns its result"); SetModel w; for (auto& g : segs) { w.cov |= rng_mask(g.a, g.b); if (OS != JOIN) w.cut |= 1u << g.a; } w.norm();
          SetModel got = extract_ok<D>(c, d, "domain"); c.obs(); c.see(got.cov); if (!(got == w)) c.fail("domain", "domain() gives " + got.str() + ", must be " + w.str()); }
        { S d; if (c.rng.chance(1, 2)) build_set<D>(c, d, 3); icl::between(d, s); SetModel w; for (size_t i = 1; i < segs.size(); ++i) w.cov |= rng_mask(segs[i - 1].b, segs[i].a); w.norm();
          SetModel got = extract_ok<D>(c, d, "between"); c.obs(); if (!(got == w)) c.fail("between", "between() gives " + got.str() + ", must be " + w.str()); }
    }
    static void run(Case& c, int) {
        M s; Mod m = build_map<D, K>(c, s, 9); M o; Mod om = build_related_map<D, K>(c, o, m); c.nontrivial = m.cov != 0; c.see(m.hash());
        c.say([&](std::ostream& q) { q << "map " << m.str() << " source " << om.str(); });
        views<JOIN>(c, s, m); views<SEP>(c, s, m); views<SPLIT>(c, s, m);
        const uint32_t pick = uint32_t(c.rng.next()); auto pick_seg = [&](int a, int b, const typename K::MV& v) { return pick & 64 ? bool(pick >> (a + b) % 32 & 1) : hash_str(K::str(v)) & 1; };
        auto pred = [&](const typename M::value_type& g) { int a, b; if (!D::decode(g.first, a, b)) c.fail("predicate", "predicate called with a foreign segment"); return pick_seg(a, b, K::mv(g.second)); };
        { M x(s); auto& r = icl::erase_if(pred, x); c.check(&r == &x, "erase_if", "erase_if returns its argument"); Mod w = m; for (auto& g : m.segs()) if (pick_seg(g.a, g.b, g.v)) Sp::erase(w, g.a, g.b); w.norm(ST == MJOIN); same(c, "erase_if", extract_map_ok<D, K>(c, x, "erase_if"), w); }
        { M x(s); auto& r = icl::add_if(pred, x, (const M&)o); c.check(&r == &x, "add_if", "add_if returns its argument"); Mod w = m; for (auto& g : om.segs()) if (pick_seg(g.a, g.b, g.v)) Sp::add(w, g.a, g.b, g.v); same(c, "add_if", extract_map_ok<D, K>(c, x, "add_if"), w); }
        { M x(s); auto& r = icl::assign_if(pred, x, (const M&)o); c.check(&r == &x, "assign_if", "assign_if returns its argument"); Mod w; for (auto& g : om.segs()) if (pick_seg(g.a, g.b, g.v)) Sp::add(w, g.a, g.b, g.v); same(c, "assign_if", extract_map_ok<D, K>(c, x, "assign_if"), w); }
        if (!(extract_map_ok<D, K>(c, o, "operand") == om)) c.fail("operand modified", "a selective copy modified its source");
        { M x(s); auto& r = icl::absorb_identities(x); c.check(&r == &x, "absorb_identities", "absorb_identities returns its argument"); Mod w = m; for (int i = 0; i < 20; ++i) if (w.has(i) && w.val[i] == K::ident()) w.del(i); w.norm(ST == MJOIN); same(c, "absorb_identities", extract_map_ok<D, K>(c, x, "absorb_identities"), w); }
        { M x(s); auto& r = icl::join(x); c.check(&r == &x, "join", "join returns its argument"); Mod w = m; w.norm(true); w.cut = 0; for (int g = 1; g < 20; ++g) if (w.has(g) && w.has(g - 1) && !(w.val[g] == w.val[g - 1])) w.cut |= 1u << g; same(c, "join(map)", extract_map_ok<D, K>(c, x, "join"), w); }
        if constexpr (!K::set_like) {
            std::ostringstream q; q << s; std::string w = "{"; for (auto it = s.begin(); it != s.end(); ++it) w += "(" + note<D>(it->first) + "->" + plain(it->second) + ")"; w += "}"; c.obs(); if (q.str() != w) c.fail("stream", "map streams as " + q.str() + ", must be " + w);
        }
        if constexpr (D::discrete && std::is_same<std::less<T>, typename M::domain_compare>::value) {
            typedef typename M::atomized_type A; A a; icl::segmental::atomize(a, s);
            int n = 0; for (auto it = a.begin(); it != a.end(); ++it, ++n) { int k = D::coord(it->first); c.obs(); if (k < 0 || !m.has(k) || !(m.val[k] == K::mv(it->second))) c.fail("atomize", "atomize yields a foreign association"); }
            c.obs(); if (n != popc(m.cov)) c.fail("atomize", "atomize yields " + std::to_string(n) + " associations, must be " + std::to_string(popc(m.cov)));
            M back; icl::segmental::cluster(back, a); Mod w; for (int i = 0; i < 20; ++i) if (m.has(i)) Sp::add(w, i, i + 1, m.val[i]); same(c, "cluster(atomize(map))", extract_map_ok<D, K>(c, back, "cluster"), w);
        }
        { typedef typename MapType<D, K, Tr, MJOIN>::type J; typedef typename MapType<D, K, Tr, MSPLIT>::type P; P p; Mod pm = build_map<D, K>(c, p, 8); J j; icl::segmental::joiner<J, P>()(j, p); Mod w = pm; w.norm(true); same(c, "joiner", extract_map_ok<D, K>(c, j, "joiner"), w); }
    }
};
} // namespace vf
