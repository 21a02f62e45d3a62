// P18: memory safety and lifetime accounting over histories.
#pragma once
#include "tracked.hpp"
#include "values.hpp"
#include "observe2.hpp"

namespace vf {
// run a deterministic case body; everything it created must be gone afterwards.
// (The library's function-local static identity values stay: a second run of
// the same body must not add to them.)
template <class F> void accounted(Case& c, F body) {
    auto& l = Ledger::get(); l.error.clear();
    const Rng start = c.rng; c.lenient = true;
    for (int round = 0; round < 2; ++round) {
        long o = l.live_objects, c0 = l.constructed, a0 = l.allocations; size_t b = l.blocks.size();
        c.rng = start;
        try { body(); } catch (CaseSkip&) { count("cases left to other properties"); }
        c.obs(3);
        if (!l.error.empty()) { std::string e; e.swap(l.error); c.fail("mem:lifetime", e); }
        if (round == 0) { count("objects constructed", l.constructed - c0); count("allocations watched", l.allocations - a0); }
        if (l.live_objects == o && l.blocks.size() == b) return;
        if (round == 1) c.fail("mem:leak", "after destroying every container " + std::to_string(l.live_objects - o) + " objects and " + std::to_string((long)l.blocks.size() - (long)b) + " blocks of this history are still alive");
    }
}
template <class D, Style ST> void mem_set(Case& c, int) { accounted(c, [&] { SetMachine<D, ST, 0> m(c); m.run(c.rng.range(3, 22)); }); }
template <class D, class K, class Tr, MStyle ST> void mem_map(Case& c, int) { accounted(c, [&] { MapMachine<D, K, Tr, ST, 0> m(c); m.run(c.rng.range(3, 20)); }); }
template <class D, Style ST> void mem_setval(Case& c, int k) { accounted(c, [&] { SetValue<D, ST>::run(c, k); }); }
template <class D, class K, class Tr, MStyle ST> void mem_mapval(Case& c, int k) { accounted(c, [&] { MapValue<D, K, Tr, ST>::run(c, k); }); }
template <class D, Style ST> void mem_sethint(Case& c, int k) { accounted(c, [&] { SetHint<D, ST>::run(c, k); }); }
template <class D, class K, class Tr, MStyle ST> void mem_maphint(Case& c, int k) { accounted(c, [&] { MapHint<D, K, Tr, ST>::run(c, k); }); }
template <class D, Style ST> void mem_setobs(Case& c, int k) { accounted(c, [&] { SetPred<D, ST>::run(c, k); SetFind<D, ST>::run(c, k); SetIter<D, ST>::run(c, k); SetOrd<D, ST>::run(c, k); }); }

// iterators and references to segments an operation does not touch stay usable
template <class D, Style ST> void stable_set(Case& c, int) {
    typedef typename SetType<D, ST>::type S; typedef typename S::const_iterator It;
    S s; SetModel m = build_set<D>(c, s, 9); c.see(m.cov * 31u + m.cut);
    for (int k = 0; k < 12; ++k) {
        struct Held { It it; const void* at; int a, b; }; std::vector<Held> held;
        for (It it = s.begin(); it != s.end(); ++it) { int a, b; D::decode(*it, a, b); held.push_back(Held{it, &*it, a, b}); }
        int a, b; D::range(c.rng, a, b); auto iv = D::make(c.rng, a, b); int op = c.rng.below(4);
        c.say([&](std::ostream& o) { o << "op " << op << " " << D::str(iv) << " atoms[" << a << "," << b << ") on " << m.str(); });
        if (op == 0) s.add(iv); else if (op == 1) s.subtract(iv); else if (op == 2) s.flip(iv); else { auto h = s.begin(); std::advance(h, c.rng.below(int(s.iterative_size()) + 1)); s.add(h, iv); }
        m = extract_ok<D>(c, s, "op");
        for (auto& h : held) {
            if (a < b && h.b >= a && h.a <= b) continue; // overlapping or touching the operand: may be changed
            c.nontrivial = true; c.obs();
            bool found = false; for (It it = s.begin(); it != s.end(); ++it) found |= &*it == h.at;
            if (!found) c.fail("mem:segment moved", "a segment the operation does not touch is no longer the same object");
            int x, y; if (&*h.it != h.at || !D::decode(*h.it, x, y) || x != h.a || y != h.b) c.fail("mem:iterator", "an iterator to a segment the operation does not touch no longer shows that segment");
            It n = h.it; ++n; count("held iterators checked");
        }
    }
}
template <class D, class K, class Tr, MStyle ST> void stable_map(Case& c, int) {
    typedef typename MapType<D, K, Tr, ST>::type M; typedef typename M::iterator It; typedef typename M::segment_type Seg;
    M s; auto m = build_map<D, K>(c, s, 9); c.see(m.hash());
    for (int k = 0; k < 12; ++k) {
        struct Held { It it; const void* at; int a, b; typename K::MV v; }; std::vector<Held> held;
        for (It it = s.begin(); it != s.end(); ++it) { int a, b; D::decode(it->first, a, b); held.push_back(Held{it, &*it, a, b, K::mv(it->second)}); }
        int a, b; D::range(c.rng, a, b); Seg iv(D::make(c.rng, a, b), K::real(c.rng.chance(1, 8) ? K::ident() : K::rnd(c.rng))); int op = c.rng.below(7);
        if (op == 5 && Tr::is_total) op = 0;
        c.say([&](std::ostream& o) { o << "op " << op << " " << D::str(iv.first) << " atoms[" << a << "," << b << ") on " << m.str(); });
        if (op == 0) s.add(iv); else if (op == 1) s.erase(iv.first); else if (op == 2) s.insert(iv); else if (op == 3) s.set(iv); else if (op == 4) s.erase(iv); else if (op == 5) s.flip(iv); else { auto h = s.begin(); std::advance(h, c.rng.below(int(s.iterative_size()) + 1)); s.add(h, iv); }
        m = extract_map_ok<D, K>(c, s, "op");
        for (auto& h : held) {
            if (a < b && h.b >= a && h.a <= b) continue;
            c.nontrivial = true; c.obs();
            bool found = false; for (It it = s.begin(); it != s.end(); ++it) found |= (const void*)&*it == h.at;
            if (!found) c.fail("mem:segment moved", "a segment the operation does not touch is no longer the same object");
            int x, y; if ((const void*)&*h.it != h.at || !D::decode(h.it->first, x, y) || x != h.a || y != h.b || !(K::mv(h.it->second) == h.v)) c.fail("mem:iterator", "an iterator to a segment the operation does not touch no longer shows that segment");
            count("held iterators checked");
        }
    }
}
} // namespace vf
