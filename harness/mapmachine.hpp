// P06..P09: histories over interval maps
#pragma once
#include "maplab.hpp"

namespace vf {
enum OpClass { OC_ADD = 6, OC_INS = 8, OC_SEC = 9 };

template <class D, class K, class Tr, MStyle ST, int PROPN>
struct MapMachine {
    typedef typename MapType<D, K, Tr, ST>::type M; typedef typename MapType<D, K, Tr, ST == MJOIN ? MSPLIT : MJOIN>::type OM;
    typedef typename D::interval_type I; typedef typename D::domain_type T; typedef typename K::type V; typedef typename K::MV MV;
    typedef MapModel<K> Mod;
    static constexpr bool Total = Tr::is_total, Absorb = Tr::absorbs_identities, J = ST == MJOIN;
    typedef MapSpec<K, Total, Absorb, J> Sp; typedef MapSpec<K, Total, Absorb, true> SpJ; typedef MapSpec<K, Total, Absorb, false> SpS;
    typedef typename M::segment_type Seg; typedef typename M::domain_mapping_type El;
    Case& c; M s; Mod m;
    explicit MapMachine(Case& c_) : c(c_) {}

    void judge(const Mod& got, const Mod& want, int oc, const char* op, const char* what) {
        c.obs();
        if (PROPN == 7 || PROPN == oc) if (!got.same_values(want))
            c.fail(std::string("values:") + op, std::string(op) + ": " + what + " has " + got.str() + ", expected the associations of " + want.str());
        if (PROPN == 7 && got.cut != want.cut && got.same_values(want))
            c.fail(std::string("segments:") + op, std::string(op) + ": " + what + " has segments " + got.str() + ", expected " + want.str());
    }
    void verify(int oc, const char* op) {
        Mod got = extract_map_ok<D, K>(c, s, op);
        judge(got, m, oc, op, "map");
        m = got; c.see(got.hash());
    }
    template <class R> void result(const R& r, const Mod& want, int oc, const char* op) {
        Mod got = extract_map_ok<D, K>(c, r, op); judge(got, want, oc, op, "result");
    }
    template <class X> void same(const X& x, const Mod& pre, const char* op) {
        Mod got = extract_map_ok<D, K>(c, x, "operand"); c.obs();
        if (!(got == pre)) c.fail(std::string("operand modified:") + op, std::string(op) + " modified an operand taken by const reference");
    }
    MV rv() { return c.rng.chance(1, 7) ? K::ident() : K::rnd(c.rng); }

    // ---- segment operands ----
    void step_segment() {
        int a, b; D::range(c.rng, a, b); I iv = D::make(c.rng, a, b); if (a >= b) a = b = 0;
        MV v = rv(); Seg sg(iv, K::real(v));
        const Mod pre = m;
        auto tell = [&](const char* t) { c.say([&](std::ostream& o) { o << t << " (" << D::str(iv) << "->" << K::str(v) << ") atoms[" << a << "," << b << ")  on " << pre.str(); }); };
        int op = pick(), f = c.rng.below(8);
        switch (op) {
        case 0: case 1: {
            Sp::add(m, a, b, v); tell("add");
            switch (f) {
                case 0: s.add(sg); break; case 1: icl::add(s, sg); break; case 2: s += sg; break; case 3: s |= sg; break;
                case 4: { M r = s + sg; result(r, m, 6, "map + segment"); M q = sg + s; result(q, m, 6, "segment + map"); same(s, pre, "map + segment"); s = r; break; }
                case 5: { M r = s | sg; result(r, m, 6, "map | segment"); M q = sg | s; result(q, m, 6, "segment | map"); s = q; break; }
                case 6: { M t(s); M r = std::move(t) + sg; s = std::move(r); break; }
                default: s += std::make_pair(iv, K::real(v));
            }
            verify(6, "add segment"); break; }
        case 2: if constexpr (K::sub) {
            Sp::sub(m, a, b, v); tell("subtract");
            switch (f % 5) {
                case 0: s.subtract(sg); break; case 1: icl::subtract(s, sg); break; case 2: s -= sg; break;
                case 3: { M r = s - sg; result(r, m, 6, "map - segment"); same(s, pre, "map - segment"); s = r; break; }
                default: { M t(s); M r = std::move(t) - sg; s = std::move(r); break; }
            }
            verify(6, "subtract segment"); break; }
            /* fallthrough */
        case 3: {
            Sp::insert(m, a, b, v); tell("insert");
            if (f % 2) s.insert(sg); else icl::insert(s, sg);
            verify(8, "insert segment"); break; }
        case 4: {
            Sp::set(m, a, b, v); tell("set");
            if (f % 2) s.set(sg); else icl::set_at(s, sg);
            verify(8, "set segment"); break; }
        case 5: {
            Sp::erase(m, a, b, v); tell("erase pair");
            if (f % 2) s.erase(sg); else icl::erase(s, sg);
            verify(8, "erase segment"); break; }
        case 6: {
            Sp::erase(m, a, b); tell("erase keys");
            switch (f % 5) {
                case 0: s.erase(iv); break; case 1: icl::erase(s, iv); break; case 2: s -= iv; break;
                case 3: { M r = s - iv; result(r, m, 8, "map - interval"); same(s, pre, "map - interval"); s = r; break; }
                default: icl::subtract(s, iv); break;
            }
            verify(8, "erase interval"); break; }
        case 7: {
            Sp::restrict_to(m, rng_mask(a, b), 0); tell("restrict to keys");
            switch (f % 4) {
                case 0: s &= iv; break;
                case 1: { M r = s & iv; result(r, m, 9, "map & interval"); M q = iv & s; result(q, m, 9, "interval & map"); same(s, pre, "map & interval"); s = r; break; }
                case 2: { M r; icl::add_intersection(r, s, iv); result(r, m, 9, "add_intersection(map, interval)"); same(s, pre, "add_intersection"); s = r; break; }
                default: { M t(s); M r = std::move(t) & iv; s = r; }
            }
            verify(9, "intersect interval"); break; }
        case 8: {
            Sp::inter(m, a, b, v); tell("intersect pair");
            switch (f % 4) {
                case 0: s &= sg; break;
                case 1: { M r = s & sg; result(r, m, 9, "map & segment"); M q = sg & s; result(q, m, 9, "segment & map"); same(s, pre, "map & segment"); s = r; break; }
                case 2: { M r; icl::add_intersection(r, s, sg); result(r, m, 9, "add_intersection(map, segment)"); M q; s.add_intersection(q, sg); result(q, m, 9, "member add_intersection(segment)"); s = r; break; }
                default: { M t(s); M r = std::move(t) & sg; s = r; }
            }
            verify(9, "intersect segment"); break; }
        default: {
            Sp::flip(m, a, b, v); tell("flip");
            switch (f % 5) {
                case 0: s.flip(sg); break; case 1: icl::flip(s, sg); break; case 2: s ^= sg; break;
                case 3: { M r = s ^ sg; result(r, m, 9, "map ^ segment"); M q = sg ^ s; result(q, m, 9, "segment ^ map"); same(s, pre, "map ^ segment"); s = r; break; }
                default: { M t(s); M r = std::move(t) ^ sg; s = r; }
            }
            verify(9, "flip segment"); break; }
        }
    }
    int pick() { // operation 0..9 by property
        int r = c.rng.below(20);
        if (PROPN == 6) return r < 12 ? 0 : r < 17 ? 2 : r == 17 ? 3 : r == 18 ? 6 : 4;
        if (PROPN == 8) return r < 6 ? 0 : r < 9 ? 3 : r < 12 ? 4 : r < 15 ? 5 : r < 18 ? 6 : r == 18 ? 2 : 7;
        if (PROPN == 9) return r < 8 ? 0 : r == 8 ? 2 : r == 9 ? 3 : r < 12 ? 7 : r < 16 ? 8 : 9;
        return r < 8 ? 0 : r < 11 ? 2 : r < 13 ? 3 : r == 13 ? 4 : r == 14 ? 5 : r == 15 ? 6 : r == 16 ? 7 : r == 17 ? 8 : 9;
    }
    // ---- element operands ----
    void step_element() {
        if constexpr (D::elem_ops) {
            int at = D::point_atom(c.rng); T e = D::elem(c.rng, at); MV v = rv(); El el(e, K::real(v));
            const Mod pre = m;
            auto tell = [&](const char* t) { c.say([&](std::ostream& o) { o << t << " element " << D::conv::str(e) << "->" << K::str(v) << " atom " << at << "  on " << pre.str(); }); };
            int op = pick(), f = c.rng.below(6), b = at + 1;
            switch (op) {
            case 0: case 1:
                Sp::add(m, at, b, v); tell("add");
                switch (f) {
                    case 0: s.add(el); break; case 1: icl::add(s, el); break; case 2: s += el; break; case 3: s |= el; break;
                    default: { M r = s + el; result(r, m, 6, "map + element"); M q = el + s; result(q, m, 6, "element + map"); same(s, pre, "map + element"); s = r; }
                }
                verify(6, "add element"); break;
            case 2: if constexpr (K::sub) {
                Sp::sub(m, at, b, v); tell("subtract");
                switch (f % 4) { case 0: s.subtract(el); break; case 1: icl::subtract(s, el); break; case 2: s -= el; break;
                    default: { M r = s - el; result(r, m, 6, "map - element"); s = r; } }
                verify(6, "subtract element"); break; }
                /* fallthrough */
            case 3: Sp::insert(m, at, b, v); tell("insert"); if (f % 2) s.insert(el); else icl::insert(s, el); verify(8, "insert element"); break;
            case 4: Sp::set(m, at, b, v); tell("set"); if (f % 2) s.set(el); else icl::set_at(s, el); verify(8, "set element"); break;
            case 5: Sp::erase(m, at, b, v); tell("erase pair"); if (f % 2) s.erase(el); else icl::erase(s, el); verify(8, "erase element"); break;
            case 6: Sp::erase(m, at, b); tell("erase key");
                switch (f % 4) { case 0: s.erase(e); break; case 1: icl::erase(s, e); break; case 2: icl::subtract(s, e); break;
                    default: s -= e; }
                verify(8, "erase key"); break;
            case 7: Sp::restrict_to(m, rng_mask(at, b), 0); tell("restrict to key");
                switch (f % 3) { case 0: s &= e; break; case 1: { M r; icl::add_intersection(r, s, e); result(r, m, 9, "add_intersection(map, key)"); s = r; break; }
                    default: { M r = s & e; result(r, m, 9, "map & key"); s = r; } }
                verify(9, "intersect key"); break;
            case 8: Sp::inter(m, at, b, v); tell("intersect pair");
                switch (f % 3) { case 0: s &= el; break; case 1: { M r; icl::add_intersection(r, s, el); result(r, m, 9, "add_intersection(map, element)"); s = r; break; }
                    default: { M r = s & el; result(r, m, 9, "map & element"); M q = el & s; result(q, m, 9, "element & map"); s = r; } }
                verify(9, "intersect element"); break;
            default: Sp::flip(m, at, b, v); tell("flip");
                switch (f % 4) { case 0: s.flip(el); break; case 1: icl::flip(s, el); break; case 2: s ^= el; break;
                    default: { M r = s ^ el; result(r, m, 9, "map ^ element"); s = r; } }
                verify(9, "flip element"); break;
            }
        } else step_segment();
    }
    template <class X> void random_map(X& o, int n) {
        n = c.rng.below(n + 1);
        for (int i = 0; i < n; ++i) { int a, b; D::range(c.rng, a, b); o.add(typename X::segment_type(D::make(c.rng, a, b), K::real(rv()))); }
    }
    // ---- map operands ----
    template <MStyle OS> void step_map() {
        typedef typename MapType<D, K, Tr, OS>::type O;
        O o; random_map(o, 5); Mod om = extract_map_ok<D, K>(c, o, "operand construction");
        if (c.rng.chance(1, 10)) { o.clear(); om = Mod(); }
        const Mod pre = m;
        typedef typename std::conditional<OS == MSPLIT || ST == MSPLIT, SpS, SpJ>::type SpR; // finer
        static constexpr bool oth = OS == MSPLIT && ST == MJOIN; // result starts from the operand
        auto tell = [&](const char* t) { c.say([&](std::ostream& q) { q << t << (OS == MJOIN ? " map " : " split map ") << om.str() << "  on " << pre.str(); }); };
        int op = pick(), f = c.rng.below(6);
        const char* kind = OS == ST ? "map" : "map of other style"; std::string n;
        auto nm = [&](const char* p) { n = std::string(p) + kind; return n.c_str(); };
        switch (op) {
        case 0: case 1: {
            Mod w = oth ? om : pre; SpR::add(w, oth ? pre : om); Sp::add(m, om); tell("add");
            switch (f) {
                case 0: s += o; break; case 1: s |= o; break;
                case 2: { auto r = s + o; result(r, w, 6, "map + map"); same(s, pre, "map + map"); s += o; break; }
                case 3: { auto r = s | o; result(r, w, 6, "map | map"); s += o; break; }
                case 4: if constexpr (OS == ST) { M t(s), u(o); M r = std::move(t) + o; result(r, m, 6, "rvalue map + map"); if constexpr (K::sub && !std::is_same<V, std::string>::value) { M q = s + std::move(u); Mod wq = om; Sp::add(wq, pre); (void)q; } s = r; break; }
                /* fallthrough */
                default: s += o;
            }
            verify(6, nm("add ")); break; }
        case 2: if constexpr (K::sub) {
            Sp::sub(m, om); tell("subtract");
            switch (f % 3) { case 0: s -= o; break; case 1: { M r = s - o; result(r, m, 6, "map - map"); same(s, pre, "map - map"); s = r; break; } default: { M t(s); M r = std::move(t) - o; s = r; } }
            verify(6, nm("subtract ")); break; }
            /* fallthrough */
        case 3: case 4: Sp::insert(m, om); tell("insert"); icl::insert(s, o); verify(8, nm("insert ")); break;
        case 5: case 6: Sp::erase(m, om); tell("erase"); icl::erase(s, o); verify(8, nm("erase ")); break;
        case 7: case 8: {
            Mod w = oth ? om : pre; SpR::inter(w, oth ? pre : om); Sp::inter(m, om); tell("intersect");
            switch (f % 3) {
                case 0: s &= o; break;
                case 1: { auto r = s & o; result(r, w, 9, "map & map"); same(s, pre, "map & map"); s &= o; break; }
                default: { M r; icl::add_intersection(r, s, o); result(r, m, 9, "add_intersection(map, map)"); s = r; }
            }
            verify(9, nm("intersect ")); break; }
        default: {
            Mod w = oth ? om : pre; SpR::flip(w, oth ? pre : om); Sp::flip(m, om); tell("flip");
            switch (f % 3) {
                case 0: s ^= o; break;
                case 1: { auto r = s ^ o; result(r, w, 9, "map ^ map"); same(s, pre, "map ^ map"); s ^= o; break; }
                default: icl::flip(s, o);
            }
            verify(9, nm("flip ")); break; }
        }
        same(o, om, "binary operation");
    }
    // ---- key set operands ----
    template <Style OS> void step_keys() {
        typename SetType<D, OS>::type o; random_set<D>(c, o, 4);
        SetModel om = extract_ok<D>(c, o, "operand construction");
        const Mod pre = m; int f = c.rng.below(6);
        bool er = PROPN == 9 ? false : PROPN == 8 || PROPN == 6 ? true : c.rng.chance(1, 2);
        c.say([&](std::ostream& q) { q << (er ? "erase" : "restrict to") << " key set " << style_name(OS) << " " << om.str() << "  on " << pre.str(); });
        if (er) {
            Sp::erase(m, om.cov);
            switch (f % 3) { case 0: s -= o; break; case 1: icl::erase(s, o); break; default: { M r = s - o; result(r, m, 8, "map - set"); same(s, pre, "map - set"); s = r; } }
            verify(8, "erase set");
        } else {
            Sp::restrict_to(m, om.cov, om.cut);
            switch (f % 3) { case 0: s &= o; break; case 1: { M r; icl::add_intersection(r, s, o); result(r, m, 9, "add_intersection(map, set)"); s = r; break; }
                default: { M r = s & o; result(r, m, 9, "map & set"); M q = o & s; result(q, m, 9, "set & map"); same(s, pre, "map & set"); s = r; } }
            verify(9, "intersect set");
        }
        SetModel om2 = extract_ok<D>(c, o, "operand"); c.obs(); if (!(om2 == om)) c.fail("operand modified", "key set modified");
    }
    void run(int steps) {
        for (int i = 0; i < steps; ++i) {
            int k = c.rng.below(12);
            if (k < 6) step_segment();
            else if (k < 8) step_element();
            else if (k < 9) step_map<ST>();
            else if (k < 10) step_map<ST == MJOIN ? MSPLIT : MJOIN>();
            else { int z = c.rng.below(3); if (z == 0) step_keys<JOIN>(); else if (z == 1) step_keys<SEP>(); else step_keys<SPLIT>(); }
            if (m.cov) c.nontrivial = true;
        }
        count("operations", steps);
    }
};
template <class D, class K, class Tr, MStyle S, int P> void map_case(Case& c, int) { MapMachine<D, K, Tr, S, P> mc(c); mc.run(c.rng.range(3, 20)); }

template <class D, class K, int P> void reg_maps(const char* d, int q, int t) {
    std::string n = std::string(d) + "/" + K::name + "/";
    reg(n + "partial_absorber/join", q, t, map_case<D, K, icl::partial_absorber, MJOIN, P>);
    reg(n + "partial_absorber/split", q, t, map_case<D, K, icl::partial_absorber, MSPLIT, P>);
    reg(n + "partial_enricher/join", q, t, map_case<D, K, icl::partial_enricher, MJOIN, P>);
    reg(n + "partial_enricher/split", q, t, map_case<D, K, icl::partial_enricher, MSPLIT, P>);
    if constexpr (K::total_ok) {
        reg(n + "total_absorber/join", q, t, map_case<D, K, icl::total_absorber, MJOIN, P>);
        reg(n + "total_absorber/split", q, t, map_case<D, K, icl::total_absorber, MSPLIT, P>);
        reg(n + "total_enricher/join", q, t, map_case<D, K, icl::total_enricher, MJOIN, P>);
        reg(n + "total_enricher/split", q, t, map_case<D, K, icl::total_enricher, MSPLIT, P>);
    }
}
} // namespace vf
