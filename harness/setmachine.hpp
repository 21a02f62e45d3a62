// P04 / P05: histories over interval sets
#pragma once
#include "setlab.hpp"

namespace vf {

enum { V_COV = 1, V_CUT = 2 };

template <class D, Style ST, int VIEW>
struct SetMachine {
    typedef typename SetType<D, ST>::type S; typedef typename D::interval_type I; typedef typename D::domain_type T;
    Case& c; S s; SetModel m;
    explicit SetMachine(Case& c_) : c(c_) {}

    void verify(const char* op) {
        SetModel got = extract_ok<D>(c, s, op);
        c.obs();
        if (got.cov != m.cov) c.fail(std::string("elements:") + op, std::string(op) + ": container has " + got.str() + ", the set of elements must be that of " + m.str());
        if (VIEW == V_CUT && got.cut != m.cut) c.fail(std::string("segments:") + op, std::string(op) + ": container has segments " + got.str() + ", expected " + m.str());
        m = got;
        c.see(got.cov * 2654435761u + got.cut);
    }
    template <class R> void verify_result(const R& r, SetModel want, const char* op) {
        SetModel got = extract_ok<D>(c, r, op);
        c.obs();
        if (got.cov != want.cov) c.fail(std::string("elements:") + op, std::string(op) + ": result " + got.str() + ", expected elements of " + want.str());
        if (VIEW == V_CUT && got.cut != want.cut) c.fail(std::string("segments:") + op, std::string(op) + ": result segments " + got.str() + ", expected " + want.str());
    }
    // op: 0 add 1 subtract 2 intersect 3 flip
    // ---- operand: interval ----
    void step_interval() {
        int a, b; D::range(c.rng, a, b); I iv = D::make(c.rng, a, b); if (a >= b) a = b = 0;
        int op = c.rng.below(10), f = c.rng.below(9);
        const SetModel pre = m;
        auto tell = [&](const char* t) { c.say([&](std::ostream& o) { o << t << " " << D::str(iv) << " atoms[" << a << "," << b << ")  on " << pre.str(); }); };
        if (op < 4) {
            m_add(m, ST, a, b); tell("add");
            switch (f) {
                case 0: s.add(iv); break;
                case 1: s.insert(iv); break;
                case 2: icl::add(s, iv); break;
                case 3: icl::insert(s, iv); break;
                case 4: s += iv; break;
                case 5: s |= iv; break;
                case 6: { S r = s + iv; verify_result(r, m, "set + interval"); S q = iv + s; verify_result(q, m, "interval + set"); same(s, pre); s = r; break; }
                case 7: { S r = s | iv; verify_result(r, m, "set | interval"); S q = iv | s; verify_result(q, m, "interval | set"); same(s, pre); s = q; break; }
                default: { S t(s); S r = std::move(t) + iv; s = std::move(r); break; }
            }
            verify("add interval");
        } else if (op < 7) {
            m_sub(m, a, b); tell("subtract");
            switch (f) {
                case 0: case 1: s.subtract(iv); break;
                case 2: s.erase(iv); break;
                case 3: icl::subtract(s, iv); break;
                case 4: icl::erase(s, iv); break;
                case 5: s -= iv; break;
                case 6: { S r = s - iv; verify_result(r, m, "set - interval"); same(s, pre); s = r; break; }
                case 7: { S t(s); S r = std::move(t) - iv; s = std::move(r); break; }
                default: s -= iv; break;
            }
            verify("subtract interval");
        } else if (op == 7) {
            m_and(m, a, b); tell("intersect");
            switch (f % 5) {
                case 0: s &= iv; break;
                case 1: { S r = s & iv; verify_result(r, m, "set & interval"); S q = iv & s; verify_result(q, m, "interval & set"); same(s, pre); s = r; break; }
                case 2: { S r; icl::add_intersection(r, s, iv); verify_result(r, m, "add_intersection(set, interval)"); same(s, pre); s = r; break; }
                case 3: { S t(s); S r = std::move(t) & iv; s = r; break; }
                default: s &= iv; break;
            }
            verify("intersect interval");
        } else {
            m_flip(m, ST, a, b); tell("flip");
            switch (f % 6) {
                case 0: s.flip(iv); break;
                case 1: icl::flip(s, iv); break;
                case 2: s ^= iv; break;
                case 3: { S r = s ^ iv; verify_result(r, m, "set ^ interval"); same(s, pre); s = r; break; }
                case 4: { S r = iv ^ s; verify_result(r, m, "interval ^ set"); s = r; break; }
                default: { S t(s); S r = std::move(t) ^ iv; s = r; break; }
            }
            verify("flip interval");
        }
    }
    void same(const S& x, const SetModel& pre) {
        SetModel got = extract_ok<D>(c, x, "operand");
        c.obs(); if (!(got == pre)) c.fail("operand modified by infix", "infix operator modified its operand");
    }
    // ---- operand: element ----
    void step_element() {
        if constexpr (D::elem_ops) {
            int at = D::point_atom(c.rng); T e = D::elem(c.rng, at);
            int op = c.rng.below(8), f = c.rng.below(7);
            const SetModel pre = m;
            auto tell = [&](const char* t) { c.say([&](std::ostream& o) { o << t << " element " << D::conv::str(e) << " atom " << at << "  on " << pre.str(); }); };
            if (op < 3) {
                m_add(m, ST, at, at + 1); tell("add");
                switch (f) {
                    case 0: s.add(e); break; case 1: s.insert(e); break; case 2: icl::add(s, e); break; case 3: icl::insert(s, e); break;
                    case 4: s += e; break; case 5: s |= e; break;
                    default: { S r = s + e; verify_result(r, m, "set + element"); S q = e + s; verify_result(q, m, "element + set"); s = r; }
                }
                verify("add element");
            } else if (op < 5) {
                m_sub(m, at, at + 1); tell("subtract");
                switch (f) {
                    case 0: s.subtract(e); break; case 1: s.erase(e); break; case 2: icl::subtract(s, e); break; case 3: icl::erase(s, e); break;
                    case 4: case 5: s -= e; break;
                    default: { S r = s - e; verify_result(r, m, "set - element"); s = r; }
                }
                verify("subtract element");
            } else if (op < 6) {
                m_and(m, at, at + 1); tell("intersect");
                if (f % 2) s &= e; else { S r = s & e; verify_result(r, m, "set & element"); S q = e & s; verify_result(q, m, "element & set"); s = r; }
                verify("intersect element");
            } else {
                m_flip(m, ST, at, at + 1); tell("flip");
                switch (f % 4) {
                    case 0: s.flip(e); break; case 1: icl::flip(s, e); break; case 2: s ^= e; break;
                    default: { S r = s ^ e; verify_result(r, m, "set ^ element"); s = r; }
                }
                verify("flip element");
            }
        } else step_interval();
    }
    // ---- operand: interval set of style OS ----
    template <Style OS> void step_set() {
        typedef typename SetType<D, OS>::type O;
        O o; random_set<D>(c, o, 5);
        if (c.rng.chance(1, 12)) o.clear();
        SetModel om = extract_ok<D>(c, o, "operand construction");
        int op = c.rng.below(8), f = c.rng.below(6);
        const SetModel pre = m;
        static constexpr Style RS = OS > ST ? OS : ST; // result style of infix forms: the finer one
        const std::string os = std::string(" ") + style_name(OS);
        auto tell = [&](const char* t) { c.say([&](std::ostream& q) { q << t << os << "-set " << om.str() << "  on " << pre.str(); }); };
        auto inf = [&](auto fn) { // expected result of an infix op, in result style: finer op= coarser
            SetModel x = OS > ST ? om : pre, y = OS > ST ? pre : om; fn(x, y); return x;
        };
        if (op < 3) {
            SetModel w = inf([](SetModel& x, const SetModel& y) { m_add(x, RS, y); });
            m_add(m, ST, om); tell("add");
            switch (f) {
                case 0: s += o; break; case 1: s |= o; break; case 2: icl::insert(s, o); break;
                case 3: { auto r = s + o; verify_result(r, w, "set + set"); auto q = s | o; verify_result(q, w, "set | set"); same(s, pre); s += o; break; }
                case 4: if constexpr (OS == ST) { S t(s); S u(o); S r = std::move(t) + o; verify_result(r, m, "rvalue + set"); S r2 = s + std::move(u); s = r; (void)r2; break; }
                /* fallthrough */
                default: s += o;
            }
            verify(OS == ST ? "add set" : "add set of other style");
        } else if (op < 5) {
            m_sub(m, om); tell("subtract");
            switch (f) {
                case 0: case 1: s -= o; break; case 2: icl::erase(s, o); break;
                case 3: { auto r = s - o; verify_result(r, m, "set - set"); same(s, pre); s -= o; break; }
                case 4: { S t(s); S r = std::move(t) - o; s = r; break; }
                default: s -= o;
            }
            verify("subtract set");
        } else if (op < 6) {
            SetModel w = inf([](SetModel& x, const SetModel& y) { m_and(x, RS, y); });
            m_and(m, ST, om); tell("intersect");
            switch (f) {
                case 0: case 1: s &= o; break;
                case 2: { auto r = s & o; verify_result(r, w, "set & set"); same(s, pre); s &= o; break; }
                case 3: { S r; icl::add_intersection(r, s, o); verify_result(r, m, "add_intersection(set, set)"); s = r; break; }
                default: s &= o;
            }
            verify("intersect set");
        } else {
            SetModel w = inf([](SetModel& x, const SetModel& y) { m_flip(x, RS, y); });
            m_flip(m, ST, om); tell("flip");
            switch (f) {
                case 0: case 1: s ^= o; break;
                case 2: { auto r = s ^ o; verify_result(r, w, "set ^ set"); same(s, pre); s ^= o; break; }
                case 3: icl::flip(s, o); break;
                default: s ^= o;
            }
            verify("flip set");
        }
        SetModel om2 = extract_ok<D>(c, o, "operand");
        c.obs(); if (!(om2 == om)) c.fail("operand modified", "operand set modified by a binary operation");
    }
    void run(int steps) {
        for (int i = 0; i < steps; ++i) {
            int k = c.rng.below(10);
            if (k < 5) step_interval();
            else if (k < 7) step_element();
            else if (k == 7) step_set<JOIN>();
            else if (k == 8) step_set<SEP>();
            else step_set<SPLIT>();
            if (m.cov) c.nontrivial = true;
        }
        count("operations", steps);
    }
};
template <class D, Style ST, int VIEW> void set_case(Case& c, int) { SetMachine<D, ST, VIEW> mc(c); mc.run(c.rng.range(3, 22)); }
template <class D, int VIEW> void reg_sets(const char* name, int q, int t) {
    reg(std::string(name) + "/join", q, t, set_case<D, JOIN, VIEW>);
    reg(std::string(name) + "/sep", q, t, set_case<D, SEP, VIEW>);
    reg(std::string(name) + "/split", q, t, set_case<D, SPLIT, VIEW>);
}
} // namespace vf
