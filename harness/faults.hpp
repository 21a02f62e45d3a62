// P19: exceptions injected at every step of every operation.
#pragma once
#include "tracked.hpp"
#include "values.hpp"
#include <boost/icl/split_interval_map.hpp>

namespace vf {
struct Fuse { // armed for the lifetime of the object
    Fuse(int mask, long n) { auto& l = Ledger::get(); l.mask = mask; l.fuse = n; l.events = 0; l.blown = false; }
    ~Fuse() { auto& l = Ledger::get(); l.mask = 0; l.fuse = -1; }
};
template <class D, class S, class O, class Ext> struct FaultLab {
    // op: f(x, o) with x mutable, o const.  Ext decodes.
    template <class Op> static void shake(Case& c, const S& s, const O& o, int mask, const char* name, Op op) {
        auto& l = Ledger::get();
        auto ms = Ext::get(c, s, "build"); auto mo = Ext::get(c, o, "build");
        long total = 0;
        { S x(s); { Fuse f(mask, -1); op(x, o); total = l.events; } }
        if (!total) return;
        c.nontrivial = true;
        long step = total > 12 ? (total + 11) / 12 : 1, off = step > 1 ? c.rng.below(int(step)) : 0;
        for (long k = off; k < total; k += step) {
            c.say([&](std::ostream& q) { q << name << ": fault at event " << k << " of " << total << " on " << Ext::str(ms) << " with " << Ext::str(mo); });
            long obj0 = l.live_objects; size_t blk0 = l.blocks.size();
            {
                S x(s); bool thrown = false, blown;
                { Fuse f(mask, k); try { op(x, o); } catch (Injected&) { thrown = true; } blown = l.blown; }
                c.obs(6); count(thrown ? "faults propagated" : "faults not reached"); c.see(thrown);
                if (blown && !thrown) c.fail("mem:swallowed", std::string(name) + " swallowed the user's exception");
                if (!(Ext::get(c, o, "operand") == mo)) c.fail("mem:operand", std::string(name) + " failed and left a const operand changed");
                if (!(mask & F_KEYASSIGN)) Ext::valid(c, x, name); // a half assigned user key can leave any interval
                else { S cp(x); for (auto it = cp.begin(); it != cp.end(); ++it) count("segments walked"); }
                { S y(x); S z; z = x; (void)(y == z); x.swap(y); }
                S w(s); w = x; x = s; if (!(Ext::get(c, x, "assigned") == ms)) c.fail("mem:assign", std::string(name) + ": container cannot be assigned after a failure");
                w.clear(); if (!w.empty()) c.fail("mem:clear", "container cannot be cleared after a failure");
            }
            if (!l.error.empty()) { std::string e; e.swap(l.error); c.fail("mem:lifetime", std::string(name) + ": " + e); }
            if (l.live_objects != obj0 || l.blocks.size() != blk0) c.fail("mem:leak", std::string(name) + ": failing at event " + std::to_string(k) + " leaks " + std::to_string(l.live_objects - obj0) + " objects, " + std::to_string((long)l.blocks.size() - (long)blk0) + " blocks");
        }
    }
};
template <class D> struct SetExt {
    template <class S> static SetModel get(Case& c, const S& s, const char* n) { return extract_ok<D>(c, s, n); }
    static std::string str(const SetModel& m) { return m.str(); }
    template <class S> static void valid(Case& c, const S& s, const char* n) { std::string bad; extract<D>(s, bad); if (!bad.empty()) c.fail("mem:structure", std::string(n) + " failed and left a malformed container: " + bad); }
};
template <class D, class K> struct MapExt {
    template <class S> static MapModel<K> get(Case& c, const S& s, const char* n) { return extract_map_ok<D, K>(c, s, n); }
    static std::string str(const MapModel<K>& m) { return m.str(); }
    template <class S> static void valid(Case& c, const S& s, const char* n) { std::string bad; extract_map<D, K>(s, bad); if (!bad.empty()) c.fail("mem:structure", std::string(n) + " failed and left a malformed container: " + bad); }
};
template <class F> void faulted(Case& c, F body) { c.lenient = true; Ledger::get().error.clear(); try { body(); } catch (CaseSkip&) { count("cases left to other properties"); } }

template <class D, Style ST, int MASK> void fault_set(Case& c, int) {
    faulted(c, [&] {
        typedef typename SetType<D, ST>::type S; typedef typename SetType<D, SPLIT>::type O; typedef FaultLab<D, S, O, SetExt<D>> L;
        S s; auto m = build_set<D>(c, s, 7); O o; build_related<D>(c, o, m); S q; build_related<D>(c, q, m);
        c.see(m.cov * 31u + m.cut);
        int a, b; D::range(c.rng, a, b); auto iv = D::make(c.rng, a, b); int p = c.rng.below(int(s.iterative_size()) + 1);
        c.say([&](std::ostream& z) { z << "interval " << D::str(iv); });
#define X(name, stmt) L::shake(c, s, o, MASK, name, [&](S& x, const O& o) { (void)o; stmt; });
        X("add", x.add(iv)) X("subtract", x.subtract(iv)) X("flip", x.flip(iv)) X("&= interval", x &= iv)
        X("hinted add", auto h = x.begin(); std::advance(h, p); x.add(h, iv))
        X("+= set", x += o) X("-= set", x -= o) X("&= set", x &= o) X("^= set", x ^= o) X("assign", x = o) X("set + set", auto r = x + o) X("set - set", S r = x - o) X("set & set", auto r = x & o) X("set ^ set", auto r = x ^ o)
        X("copy", S r(x)) X("move", S r(std::move(x)); x = std::move(r)) X("contains", (void)icl::contains(x, o)) X("intersects", (void)icl::intersects(x, iv)) X("find", if (a < b) (void)x.find(iv)) X("==", (void)(x == q)) X("is_element_equal", (void)icl::is_element_equal(x, o)) X("size", (void)x.size()) X("elements", for (auto e = icl::elements_begin(x); e != icl::elements_end(x); ++e) (void)*e)
        X("self +=", x += x) X("self ^=", x ^= x) X("construct from set", S r(o))
#undef X
    });
}
template <class D, class K, class Tr, MStyle ST, int MASK> void fault_map(Case& c, int) {
    faulted(c, [&] {
        typedef typename MapType<D, K, Tr, ST>::type S; typedef typename MapType<D, K, Tr, MSPLIT>::type O; typedef FaultLab<D, S, O, MapExt<D, K>> L; typedef typename S::segment_type Seg;
        S s; auto m = build_map<D, K>(c, s, 7); O o; build_related_map<D, K>(c, o, m); S q; build_related_map<D, K>(c, q, m);
        typename SetType<D, JOIN>::type ks; build_set<D>(c, ks, 4);
        c.see(m.hash());
        int a, b; D::range(c.rng, a, b); Seg iv(D::make(c.rng, a, b), K::real(K::rnd(c.rng))); int p = c.rng.below(int(s.iterative_size()) + 1);
        c.say([&](std::ostream& z) { z << "segment " << D::str(iv.first) << "->" << K::str(K::mv(iv.second)); });
#define X(name, stmt) L::shake(c, s, o, MASK, name, [&](S& x, const O& o) { (void)o; stmt; });
        X("add", x.add(iv)) X("subtract", x.subtract(iv)) X("insert", x.insert(iv)) X("set", x.set(iv)) X("erase", x.erase(iv)) X("erase key", x.erase(iv.first)) X("flip", x.flip(iv)) X("&= segment", x &= iv) X("&= interval", x &= iv.first)
        X("hinted add", auto h = x.begin(); std::advance(h, p); x.add(h, iv)) X("hinted insert", auto h = x.begin(); std::advance(h, p); x.insert(h, iv))
        X("+= map", x += o) X("-= map", x -= o) X("&= map", x &= o) X("^= map", x ^= o) X("-= set", x -= ks) X("&= set", x &= ks) X("assign", x = o) X("map + map", auto r = x + o) X("map - map", S r = x - o) X("map & map", auto r = x & o) X("map ^ map", auto r = x ^ o)
        X("copy", S r(x)) X("contains", (void)icl::contains(x, o)) X("intersects", (void)icl::intersects(x, o)) X("find", if (a < b) (void)x.find(iv.first)) X("==", (void)(x == q)) X("is_element_equal", (void)icl::is_element_equal(x, o)) X("operator()", if (!x.empty()) (void)x(icl::first(x)))
        X("self +=", x += x) X("self -=", x -= x)
#undef X
    });
}
} // namespace vf
