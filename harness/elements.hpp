// P21: element containers (std::set, icl::map) under the ICL operations.
#pragma once
#include "observe.hpp"
#include <boost/icl/map.hpp>
#include <boost/icl/set.hpp>
#include <boost/icl/split_interval_map.hpp>

namespace vf {
using icl::operator+=; using icl::operator-=; using icl::operator&=; using icl::operator^=; using icl::operator|=;
using icl::operator+; using icl::operator-; using icl::operator&; using icl::operator^; using icl::operator|;

constexpr int EN = 10; // keys 0..EN-1
// ------------------------------------------------------------------ element sets
template <class D> struct ElemSet {
    typedef typename D::domain_type T; typedef std::set<T> S; typedef typename SetType<D, JOIN>::type IS;
    static T key(int k) { return D::conv::at(k); }
    static uint32_t get(Case& c, const S& s, const char* w) {
        uint32_t m = 0; int prev = -1;
        for (auto& e : s) { int k = D::coord(e, 0, EN); if (k < 0 || k >= EN) c.fail("set:foreign", std::string(w) + ": foreign element"); if (k <= prev) c.fail("set:order", w); prev = k; m |= 1u << k; }
        return m;
    }
    static S make(Case& c, uint32_t m) { S s; for (int k = 0; k < EN; ++k) if (m >> k & 1) s.insert(key(k)); return s; }
    static std::string str(uint32_t m) { std::string o; for (int k = 0; k < EN; ++k) if (m >> k & 1) o += std::to_string(k) + " "; return "{" + o + "}"; }
    static uint32_t rel(Case& c, uint32_t m) { uint32_t r = uint32_t(c.rng.next()) & ((1u << EN) - 1); switch (c.rng.below(6)) { case 0: return m; case 1: return m & r; case 2: return m | r; case 3: return r & uint32_t(c.rng.next()); case 4: return m ^ (1u << c.rng.below(EN)); default: return r; } }
    static void run(Case& c, int) {
        S s; uint32_t m = 0; IS is;
        int n = 4 + c.rng.below(16);
        for (int i = 0; i < n; ++i) {
            const int k = c.rng.below(EN); const T e = key(k); const uint32_t b = 1u << k, om = rel(c, m); const S o = make(c, om); uint32_t want = m; std::string nm;
            auto hint = [&] { auto h = s.begin(); std::advance(h, c.rng.below(int(s.size()) + 1)); return h; };
            bool mirror = true; // same step on an interval set
            switch (c.rng.below(26)) {
                case 0: nm = "add"; c.check(&icl::add(s, e) == &s, "set:return", "add returns the set"); want |= b; is.add(e); break;
                case 1: nm = "+= element"; s += e; want |= b; is += e; break;
                case 2: nm = "|= element"; s |= e; want |= b; is += e; break;
                case 3: nm = "+ element"; s = c.rng.chance(1, 2) ? s + e : e + s; want |= b; is += e; break;
                case 4: nm = "hinted add"; { auto it = icl::add(s, hint(), e); c.check(it != s.end() && *it == e, "set:iterator", "hinted add returns the element"); } want |= b; is += e; break;
                case 5: nm = "insert"; { auto r = icl::insert(s, e); c.check(r.second == !(m & b) && *r.first == e, "set:insert", "insert's result"); } want |= b; is.insert(e); break;
                case 6: nm = "hinted insert"; { auto it = icl::insert(s, hint(), e); c.check(*it == e, "set:iterator", "hinted insert returns the element"); } want |= b; is += e; break;
                case 7: nm = "subtract"; icl::subtract(s, e); want &= ~b; is.subtract(e); break;
                case 8: nm = "-= element"; s -= e; want &= ~b; is -= e; break;
                case 9: nm = "- element"; s = s - e; want &= ~b; is -= e; break;
                case 10: nm = "erase element"; { auto r = icl::erase(s, e); c.check(r == ((m & b) ? 1u : 0u), "set:erase", "erase counts what it erased"); } want &= ~b; is.erase(e); break;
                case 11: nm = "flip"; icl::flip(s, e); want ^= b; is.flip(e); break;
                case 12: nm = "^ element"; if (c.rng.chance(1, 2)) s ^= e; else s = c.rng.chance(1, 2) ? s ^ e : e ^ s; want ^= b; is ^= e; break;
                case 13: nm = "& element"; if (c.rng.chance(1, 2)) s &= e; else s = c.rng.chance(1, 2) ? s & e : e & s; want &= b; is &= e; break;
                case 14: nm = "+= set"; s += o; want |= om; for (auto& x : o) is += x; break;
                case 15: nm = "| set"; if (c.rng.chance(1, 2)) s |= o; else s = c.rng.chance(1, 2) ? s | o : s + o; want |= om; for (auto& x : o) is += x; break;
                case 16: nm = "-= set"; if (c.rng.chance(1, 2)) s -= o; else s = s - o; want &= ~om; for (auto& x : o) is -= x; break;
                case 17: nm = "&= set"; if (c.rng.chance(1, 2)) s &= o; else s = s & o; want &= om; { IS io; for (auto& x : o) io += x; is &= io; } break;
                case 18: nm = "^= set"; if (c.rng.chance(1, 2)) s ^= o; else s = s ^ o; want ^= om; for (auto& x : o) is ^= x; break;
                case 19: nm = "insert set"; icl::insert(s, o); want |= om; for (auto& x : o) is += x; break;
                case 20: nm = "erase set"; icl::erase(s, o); want &= ~om; for (auto& x : o) is -= x; break;
                case 21: nm = "add_intersection"; { uint32_t tm = rel(c, m); S t = make(c, tm); if (c.rng.chance(1, 2)) { icl::add_intersection(t, s, o); tm |= m & om; } else { icl::add_intersection(t, s, e); tm |= m & b; } if (get(c, t, "add_intersection") != tm) c.fail("set:add_intersection", "section is " + str(get(c, t, "")) + ", must be " + str(tm)); } break;
                case 22: nm = "self"; mirror = false; switch (c.rng.below(7)) { case 0: s += s; break; case 1: s &= s; break; case 2: s ^= s; want = 0; break; case 3: s -= s; want = 0; break; case 4: icl::erase(s, s); want = 0; break; case 5: icl::insert(s, s); break; default: s |= s; } is.clear(); for (int q = 0; q < EN; ++q) if (want >> q & 1) is += key(q); break;
                case 23: nm = "erase_if"; icl::erase_if([&](const T& x) { return o.count(x) != 0; }, s); want &= ~om; for (auto& x : o) is -= x; break;
                case 24: nm = "add_if"; icl::add_if([&](const T& x) { return D::coord(x, 0, EN) % 2 == k % 2; }, s, o); for (int q = k % 2; q < EN; q += 2) if (om >> q & 1) { want |= 1u << q; is += key(q); } break;
                case 25: nm = "assign_if"; icl::assign_if([&](const T& x) { return D::coord(x, 0, EN) % 2 == k % 2; }, s, o); want = 0; is.clear(); for (int q = k % 2; q < EN; q += 2) if (om >> q & 1) { want |= 1u << q; is += key(q); } break;
            }
            c.say([&](std::ostream& z) { z << nm << " key " << k << " operand " << str(om) << " on " << str(m) << " -> " << str(want); });
            uint32_t got = get(c, s, nm.c_str()); c.obs(2); c.see(got * 64u + uint32_t(nm.size()));
            if (got != want) c.fail("set:" + nm, nm + " left " + str(got) + ", must be " + str(want));
            if (get(c, o, "operand") != om) c.fail("set:operand", nm + " changed its const operand");
            m = want; if (m) c.nontrivial = true;
            { uint32_t im = 0; for (int q = 0; q < EN; ++q) if (icl::contains(is, key(q))) im |= 1u << q; if (im != m) c.fail("set:mirror", nm + ": interval set " + str(im) + ", element set " + str(m)); }
        }
        // observers
        const S& cs = s;
        for (int k = 0; k < EN; ++k) { T e = key(k); bool in = m >> k & 1; VF_EQ(icl::contains(cs, e), in, "contains(set, element)"); VF_EQ(icl::within(e, cs), in, "within(element, set)"); VF_EQ(icl::intersects(cs, e), in, "intersects(set, element)"); }
        for (int r = 0; r < 8; ++r) {
            const uint32_t om = rel(c, m); const S o = make(c, om);
            c.say([&](std::ostream& z) { z << str(m) << " with " << str(om); });
            bool sub = !(om & ~m), sup = !(m & ~om);
            VF_EQ(icl::contains(cs, o), sub, "contains(set, set)"); VF_EQ(icl::within(o, cs), sub, "within(set, set)"); VF_EQ(icl::contains(o, cs), sup, "contains(set, set)");
            VF_EQ(icl::intersects(cs, o), (m & om) != 0, "intersects(set, set)");
            VF_EQ(icl::disjoint(cs, o), (m & om) == 0, "disjoint(set, set)");
            VF_EQ(cs == o, m == om, "=="); VF_EQ(cs != o, m != om, "!="); VF_EQ(icl::is_element_equal(cs, o), m == om, "is_element_equal");
            std::vector<int> a, b; for (int k = 0; k < EN; ++k) { if (m >> k & 1) a.push_back(k); if (om >> k & 1) b.push_back(k); }
            VF_EQ(cs < o, a < b, "<"); VF_EQ(cs > o, b < a, ">"); VF_EQ(cs <= o, a <= b, "<="); VF_EQ(cs >= o, a >= b, ">=");
            int ic = icl::inclusion_compare(cs, o), wi = sub && sup ? icl::inclusion::equal : sub ? icl::inclusion::superset : sup ? icl::inclusion::subset : icl::inclusion::unrelated;
            c.obs(); if (ic != wi) c.fail("set:inclusion_compare", "inclusion_compare is " + std::to_string(ic) + ", must be " + std::to_string(wi));
        }
        VF_EQ(icl::contains(cs, cs), true, "contains(set, itself)"); VF_EQ(icl::is_empty(cs), m == 0, "is_empty");
        c.check(icl::size(cs) == size_t(popc(m)) && icl::cardinality(cs) == size_t(popc(m)) && icl::iterative_size(cs) == size_t(popc(m)), "set:size", "size, cardinality and iterative_size count the elements");
    }
};
// ------------------------------------------------------------------ element maps
template <class D, class K, class Tr> struct ElemMap {
    typedef typename D::domain_type T; typedef typename K::MV MV; typedef typename K::type V;
    typedef icl::map<T, V, Tr, cmp_of<typename D::interval_type>::template cmp, K::template combine> M;
    typedef typename M::element_type P; typedef typename M::set_type S;
    typedef typename MapType<D, K, Tr, MSPLIT>::type IM; typedef typename IM::element_type IP;
    typedef MapModel<K> Mod; typedef MapSpec<K, Tr::is_total, Tr::absorbs_identities, false> Sp;
    static constexpr bool total = Tr::is_total, absorb = Tr::absorbs_identities;
    static T key(int k) { return D::conv::at(k); }
    static Mod get(Case& c, const M& s, const std::string& w) {
        Mod m; int prev = -1;
        for (auto it = s.begin(); it != s.end(); ++it) {
            int k = D::coord(it->first, 0, EN); if (k < 0 || k >= EN) c.fail("map:foreign", w + ": foreign key"); if (k <= prev) c.fail("map:order", w); prev = k;
            MV v = K::mv(it->second); if (absorb && v == K::ident()) c.fail("map:identity", w + ": an absorber stores an identity value"); m.put(k, v);
        }
        return m;
    }
    static Mod get_i(Case& c, const IM& s) {
        Mod m; for (int k = 0; k < EN; ++k) { auto it = s.find(key(k)); if (it != s.end()) m.put(k, K::mv(it->second)); }
        return m;
    }
    static M make(const Mod& m) { M x; for (int k = 0; k < EN; ++k) if (m.has(k)) x.insert(P(key(k), K::real(m.val[k]))); return x; }
    static IM make_i(const Mod& m) { IM x; for (int k = 0; k < EN; ++k) if (m.has(k)) x.insert(IP(key(k), K::real(m.val[k]))); return x; }
    static MV value(Case& c) { return K::rnd(c.rng); }
    static Mod rel(Case& c, const Mod& m) {
        Mod r; int kind = c.rng.below(6);
        for (int k = 0; k < EN; ++k) {
            bool in = kind == 0 ? m.has(k) : kind == 1 ? m.has(k) && c.rng.chance(1, 2) : kind == 2 ? m.has(k) || c.rng.chance(1, 3) : c.rng.chance(1, kind == 3 ? 4 : 2);
            if (!in) continue;
            MV v = m.has(k) && (kind < 3 ? !(kind == 0 && c.rng.chance(1, 12)) : c.rng.chance(1, 2)) ? m.val[k] : value(c);
            if (absorb && v == K::ident()) continue;
            r.put(k, v);
        }
        r.norm(false); return r;
    }
    static uint32_t mask(const Mod& m) { return m.cov; }
    static std::string txt(const Mod& m) { std::string o = "{"; for (int k = 0; k < EN; ++k) if (m.has(k)) o += "(" + std::to_string(k) + "->" + K::str(m.val[k]) + ")"; return o + "}"; }
    static void run(Case& c, int) {
        M s; Mod m; IM im;
        int n = 4 + c.rng.below(18);
        for (int i = 0; i < n; ++i) {
            const int k = c.rng.below(EN); const T e = key(k);
            const MV v = m.has(k) && c.rng.chance(1, 3) ? m.val[k] : m.has(k) && K::signed_inverse && c.rng.chance(1, 4) ? K::neg(m.val[k]) : value(c);
            const P p(e, K::real(v)); const IP ip(e, K::real(v)); const Mod om = rel(c, m); const M o = make(om); const IM io = make_i(om); uint32_t km = uint32_t(c.rng.next()) & ((1u << EN) - 1); if (c.rng.chance(1, 3)) km &= m.cov;
            S ks0; for (int q = 0; q < EN; ++q) if (km >> q & 1) ks0.insert(key(q)); const S& ks = ks0;
            typename SetType<D, JOIN>::type iks; for (int q = 0; q < EN; ++q) if (km >> q & 1) iks.add(key(q));
            Mod want = m; std::string nm;
            auto hint = [&] { auto h = s.begin(); std::advance(h, c.rng.below(int(s.iterative_size()) + 1)); return h; };
            auto ret = [&](typename M::iterator it, const char* w) { c.obs(); if (want.has(k) ? it == s.end() || !(it->first == e) : false) c.fail(std::string("map:iterator:") + w, std::string(w) + " must return the key's position"); };
            int f = c.rng.below(30);
            switch (f) {
                case 0: nm = "add"; if (c.rng.chance(1, 2)) s.add(p); else icl::add(s, p); Sp::add(want, k, k + 1, v); im.add(ip); break;
                case 1: nm = "+= pair"; if (c.rng.chance(1, 2)) s += p; else s |= p; Sp::add(want, k, k + 1, v); im += ip; break;
                case 2: nm = "+ pair"; switch (c.rng.below(4)) { case 0: s = s + p; break; case 1: s = p + s; break; case 2: s = s | p; break; default: s = p | s; } Sp::add(want, k, k + 1, v); im += ip; break;
                case 3: nm = "hinted add"; { Sp::add(want, k, k + 1, v); auto it = c.rng.chance(1, 2) ? s.add(hint(), p) : icl::add(s, hint(), p); if (!Sp::noop(v)) ret(it, "hinted add"); im += ip; } break;
                case 4: nm = "insert"; { bool nw = !m.has(k) && !Sp::noop(v); auto r = c.rng.chance(1, 2) ? s.insert(p) : icl::insert(s, p); Sp::insert(want, k, k + 1, v); c.obs(); if (!Sp::noop(v) && (r.second != nw || !(r.first->first == e))) c.fail("map:insert", "insert's result pair"); im.insert(ip); } break;
                case 5: nm = "hinted insert"; { auto it = c.rng.chance(1, 2) ? s.insert(hint(), p) : icl::insert(s, hint(), p); Sp::insert(want, k, k + 1, v); if (!Sp::noop(v)) ret(it, "hinted insert"); im.insert(ip); } break;
                case 6: nm = "set"; if (c.rng.chance(1, 2)) s.set(p); else icl::set_at(s, p); Sp::set(want, k, k + 1, v); im.set(ip); break;
                case 7: nm = "erase pair"; { auto r = c.rng.chance(1, 2) ? s.erase(p) : icl::erase(s, p); bool hit = m.has(k) && m.val[k] == v; Sp::erase(want, k, k + 1, v); c.check(r == (hit ? 1u : 0u), "map:erase", "erase(pair) counts what it erased"); im.erase(ip); } break;
                case 8: nm = "erase key"; { auto r = c.rng.chance(1, 2) ? s.erase(e) : icl::erase(s, e); Sp::erase(want, k, k + 1); c.check(r == (m.has(k) ? 1u : 0u), "map:erase", "erase(key) counts what it erased"); im.erase(e); } break;
                case 9: nm = "flip"; if (Sp::noop(v)) break; if (c.rng.chance(1, 2)) s.flip(p); else icl::flip(s, p); Sp::flip(want, k, k + 1, v); im.flip(ip); break;
                case 10: nm = "^ pair"; if (Sp::noop(v)) break; if (c.rng.chance(1, 2)) s ^= p; else s = c.rng.chance(1, 2) ? s ^ p : p ^ s; Sp::flip(want, k, k + 1, v); im ^= ip; break;
                case 11: nm = "& pair"; if (c.rng.chance(1, 2)) s &= p; else s = c.rng.chance(1, 2) ? s & p : p & s; Sp::inter(want, k, k + 1, v); im &= ip; break;
                case 12: nm = "& key"; if (c.rng.chance(1, 2)) s &= e; else s = c.rng.chance(1, 2) ? s & e : e & s; Sp::restrict_to(want, 1u << k, 0); im &= e; break;
                case 13: nm = "& set"; if (c.rng.chance(1, 2)) s &= ks; else s = c.rng.chance(1, 2) ? s & ks : ks & s; Sp::restrict_to(want, km, 0); im &= iks; break;
                case 14: nm = "- set"; if (c.rng.chance(1, 2)) s -= ks; else s = s - ks; Sp::erase(want, km); im -= iks; break;
                case 15: nm = "erase set"; icl::erase(s, ks); Sp::erase(want, km); im -= iks; break;
                case 16: nm = "+= map"; if (c.rng.chance(1, 2)) s += o; else s |= o; Sp::add(want, om); im += io; break;
                case 17: nm = "+ map"; s = c.rng.chance(1, 2) ? s + o : s | o; Sp::add(want, om); im += io; break;
                case 18: nm = "&= map"; if (c.rng.chance(1, 2)) s &= o; else s = s & o; Sp::inter(want, om); im &= io; break;
                case 19: nm = "^= map"; if (c.rng.chance(1, 2)) s ^= o; else s = s ^ o; Sp::flip(want, om); im ^= io; break;
                case 20: nm = "insert map"; icl::insert(s, o); Sp::insert(want, om); icl::insert(im, io); break;
                case 21: nm = "erase map"; icl::erase(s, o); Sp::erase(want, om); icl::erase(im, io); break;
                case 22: nm = "subtract"; if constexpr (K::sub) { switch (c.rng.below(4)) { case 0: s.subtract(p); break; case 1: icl::subtract(s, p); break; case 2: s -= p; break; default: s = s - p; } Sp::sub(want, k, k + 1, v); im -= ip; } break;
                case 23: nm = "-= map"; if constexpr (K::sub) { if (c.rng.chance(1, 2)) s -= o; else s = s - o; Sp::sub(want, om); im -= io; } break;
                case 24: nm = "subtract key"; if (c.rng.chance(1, 2)) s.subtract(e); else icl::subtract(s, e); Sp::erase(want, k, k + 1); im.erase(e); break;
                case 25: nm = "insert range"; s.insert(o.begin(), o.end()); Sp::insert(want, om); icl::insert(im, io); break;
                case 26: nm = "self"; { Mod x = m; switch (c.rng.below(6)) {
                    case 0: nm = "self +="; s += s; Sp::add(want, x); im += IM(im); break;
                    case 1: nm = "self -="; if constexpr (K::sub) { s -= s; Sp::sub(want, x); im -= IM(im); } break;
                    case 2: nm = "self &="; s &= s; Sp::inter(want, x); im &= IM(im); break;
                    case 3: nm = "self ^="; s ^= s; Sp::flip(want, x); im ^= IM(im); break;
                    case 4: nm = "self erase"; icl::erase(s, s); Sp::erase(want, x); icl::erase(im, IM(im)); break;
                    default: nm = "self insert"; icl::insert(s, s); break; } } break;
                case 27: nm = "erase_if"; icl::erase_if([&](const P& x) { return ks.count(x.first) != 0; }, s); Sp::erase(want, km); im -= iks; break;
                case 28: nm = "add_if"; { auto pr = [&](const P& x) { return ks.count(x.first) != 0; }; Mod f = om; Sp::restrict_to(f, km, 0); if (c.rng.chance(1, 2)) { icl::add_if(pr, s, o); Sp::add(want, f); im += make_i(f); } else { nm = "assign_if"; icl::assign_if(pr, s, o); want = f; im = make_i(f); } } break;
                case 29: nm = "absorb_identities"; { auto& r = icl::absorb_identities(s); c.check(&r == &s, "map:return", "absorb_identities returns its argument"); } for (int q = 0; q < EN; ++q) if (want.has(q) && want.val[q] == K::ident()) want.del(q); im = make_i(want); break;
            }
            c.say([&](std::ostream& z) { z << nm << " key " << k << " value " << K::str(v) << " map " << txt(om) << " keys " << km << " on " << txt(m) << " -> " << txt(want); });
            Mod got = get(c, s, nm); c.obs(2); c.see(got.hash());
            if (!got.same_values(want)) c.fail("map:" + nm, nm + " left " + txt(got) + ", must be " + txt(want));
            if (!get(c, o, "operand").same_values(om)) c.fail("map:operand", nm + " changed its const operand");
            m = want; m.norm(false); if (m.cov) c.nontrivial = true;
            Mod gi = get_i(c, im); c.obs(); if (!gi.same_values(m)) c.fail("map:mirror", nm + ": interval map holds " + txt(gi) + ", element map " + txt(m));
        }
        const M& cs = s;
        for (int k = 0; k < EN; ++k) {
            T e = key(k); bool in = m.has(k); MV v = in && c.rng.chance(2, 3) ? m.val[k] : value(c); const P p(e, K::real(v));
            c.say([&](std::ostream& z) { z << "key " << k << " value " << K::str(v); });
            VF_EQ(icl::contains(cs, e), in, "contains(map, key)"); VF_EQ(icl::within(e, cs), in, "within(key, map)"); VF_EQ(icl::contains(cs, p), in && m.val[k] == v, "contains(map, pair)"); VF_EQ(icl::within(p, cs), in && m.val[k] == v, "within(pair, map)");
            VF_EQ(icl::intersects(cs, e), total || in, "intersects(map, key)");
            bool hit = total; if (!total) { Mod x = m; Sp::inter(x, k, k + 1, v); hit = x.cov != 0; }
            VF_EQ(icl::intersects(cs, p), hit, "intersects(map, pair)");
            c.obs(); if (!(K::mv(cs(e)) == (in ? m.val[k] : K::ident()))) c.fail("map:operator()", "operator() gives the wrong value");
            VF_EQ(cs.find(e) != cs.end(), in, "find");
            { M t = make(rel(c, m)); Mod tm = get(c, t, "section"); icl::add_intersection(t, cs, p); Mod x = tm; if (total) { Sp::add(x, m); Sp::add(x, k, k + 1, v); } else { Mod y = m; Sp::inter(y, k, k + 1, v); Sp::add(x, y); } c.obs(); if (x.cov == tm.cov || total || tm.cov == 0) if (!get(c, t, "add_intersection").same_values(x) && (tm.cov & (1u << k)) == 0) c.fail("map:add_intersection", "add_intersection left " + txt(get(c, t, "")) + ", must be " + txt(x)); }
        }
        for (int r = 0; r < 8; ++r) {
            const Mod om = rel(c, m); const M o = make(om); uint32_t km = r % 2 ? m.cov & uint32_t(c.rng.next()) : uint32_t(c.rng.next()) & uint32_t(c.rng.next()) & ((1u << EN) - 1); S ks; for (int q = 0; q < EN; ++q) if (km >> q & 1) ks.insert(key(q));
            c.say([&](std::ostream& z) { z << txt(m) << " with " << txt(om) << " keys " << km; });
            bool sub = true, sup = true; for (int q = 0; q < EN; ++q) { if (om.has(q) && !(m.has(q) && m.val[q] == om.val[q])) sub = false; if (m.has(q) && !(om.has(q) && m.val[q] == om.val[q])) sup = false; }
            VF_EQ(icl::contains(cs, o), sub, "contains(map, map)"); VF_EQ(icl::within(o, cs), sub, "within(map, map)"); VF_EQ(icl::contains(o, cs), sup, "contains(map, map)"); VF_EQ(icl::within(cs, o), sup, "within(map, map)");
            VF_EQ(icl::contains(cs, (const S&)ks), !(km & ~m.cov), "contains(map, set)"); VF_EQ(icl::within((const S&)ks, cs), !(km & ~m.cov), "within(set, map)");
            Mod x = m; Sp::inter(x, om); bool keyhit = m.cov & om.cov;
            if (total || keyhit == (x.cov != 0)) { VF_EQ(icl::intersects(cs, o), total || keyhit, "intersects(map, map)"); VF_EQ(icl::disjoint(cs, o), !(total || keyhit), "disjoint(map, map)"); }
            VF_EQ(icl::intersects(cs, (const S&)ks), total || (km & m.cov), "intersects(map, set)");
            bool eq = m.same_values(om);
            VF_EQ(cs == o, eq, "=="); VF_EQ(cs != o, !eq, "!="); VF_EQ(icl::is_element_equal(cs, o), eq, "is_element_equal");
            Mod a = m, b = om; for (int q = 0; q < EN; ++q) { if (a.has(q) && a.val[q] == K::ident()) a.del(q); if (b.has(q) && b.val[q] == K::ident()) b.del(q); }
            VF_EQ(icl::is_distinct_equal(cs, o), a.same_values(b), "is_distinct_equal");
            if constexpr (!K::set_like) {
                auto ord = [](const std::pair<int, MV>& x, const std::pair<int, MV>& y) { return x.first != y.first ? x.first < y.first : D::conv::at(0) < D::conv::at(1) ? x.second < y.second : y.second < x.second; };
                std::vector<std::pair<int, MV>> l, g; for (int q = 0; q < EN; ++q) { if (m.has(q)) l.push_back({q, m.val[q]}); if (om.has(q)) g.push_back({q, om.val[q]}); }
                bool lt = std::lexicographical_compare(l.begin(), l.end(), g.begin(), g.end(), ord), gt = std::lexicographical_compare(g.begin(), g.end(), l.begin(), l.end(), ord);
                VF_EQ(icl::operator<(cs, o), lt, "<"); VF_EQ(icl::operator>(cs, o), gt, ">"); VF_EQ(icl::operator<=(cs, o), !gt, "<="); VF_EQ(icl::operator>=(cs, o), !lt, ">=");
            }
            if constexpr (!K::set_like) { int w = 3; if (m.cov & ~om.cov) w &= icl::inclusion::superset; if (om.cov & ~m.cov) w &= icl::inclusion::subset; for (int q = 0; q < EN; ++q) if (m.has(q) && om.has(q) && !(m.val[q] == om.val[q])) w = 0;
                int ic = icl::inclusion_compare(cs, o); c.obs(); if (ic != w) c.fail("map:inclusion_compare", "inclusion_compare is " + std::to_string(ic) + ", must be " + std::to_string(w)); }
            S d; icl::domain(d, cs); uint32_t dm = 0; for (auto& q : d) dm |= 1u << D::coord(q, 0, EN); c.obs(); if (dm != m.cov) c.fail("map:domain", "domain() is not the key set");
        }
        VF_EQ(icl::contains(cs, cs), true, "contains(map, itself)"); VF_EQ(icl::is_empty(cs), m.cov == 0, "is_empty");
        c.check(icl::size(cs) == size_t(popc(m.cov)) && icl::cardinality(cs) == size_t(popc(m.cov)) && icl::iterative_size(cs) == size_t(popc(m.cov)), "map:size", "size, cardinality and iterative_size count the keys");
    }
};
} // namespace vf
