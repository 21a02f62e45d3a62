// further domain types: rationals, dates, times, durations, pointers, user type
#pragma once
#include <boost/icl/rational.hpp>
#include <boost/icl/gregorian.hpp>
#include <boost/icl/ptime.hpp>
#include <boost/chrono/duration.hpp>
#include "domains.hpp" // after the adaptors: they must precede the concept headers

namespace vf {
struct CRat {
    typedef boost::rational<int> type; static constexpr bool has_mid = true;
    static type at(int k) { return type(k, 3) - 1; }
    static type mid(int k) { return type(2 * k + 1, 6) - 1; }
    static std::string str(const type& v) { return std::to_string(v.numerator()) + "/" + std::to_string(v.denominator()); }
};
struct CDate {
    typedef boost::gregorian::date type; static constexpr bool has_mid = false;
    static type at(int k) { return boost::gregorian::date(2004, 2, 24) + boost::gregorian::date_duration(k); }
    static type mid(int k) { return at(k); }
    static std::string str(const type& v) { return v.is_special() ? "special" : boost::gregorian::to_iso_extended_string(v); }
};
struct CDateDur {
    typedef boost::gregorian::date_duration type; static constexpr bool has_mid = false;
    static type at(int k) { return boost::gregorian::date_duration(k - 4); }
    static type mid(int k) { return at(k); }
    static std::string str(const type& v) { return std::to_string(v.days()); }
};
struct CPtime {
    typedef boost::posix_time::ptime type; static constexpr bool has_mid = false;
    static type at(int k) { return boost::posix_time::ptime(boost::gregorian::date(2008, 12, 31), boost::posix_time::time_duration(23, 59, 59, 999995)) + boost::posix_time::microseconds(k); }
    static type mid(int k) { return at(k); }
    static std::string str(const type& v) { return v.is_special() ? "special" : boost::posix_time::to_iso_string(v); }
};
struct CTdur {
    typedef boost::posix_time::time_duration type; static constexpr bool has_mid = false;
    static type at(int k) { return boost::posix_time::microseconds(k - 3); }
    static type mid(int k) { return at(k); }
    static std::string str(const type& v) { return boost::posix_time::to_simple_string(v); }
};
struct CChrono {
    typedef boost::chrono::duration<int> type; static constexpr bool has_mid = false;
    static type at(int k) { return type(k - 4); }
    static type mid(int k) { return at(k); }
    static std::string str(const type& v) { return std::to_string(v.count()); }
};
struct CChronoD {
    typedef boost::chrono::duration<double> type; static constexpr bool has_mid = true;
    static type at(int k) { return type(k * 0.5 - 2); }
    static type mid(int k) { return type(k * 0.5 - 1.75); }
    static std::string str(const type& v) { return std::to_string(v.count()); }
};
struct CPtr {
    typedef int* type; static constexpr bool has_mid = false;
    static int* base() { static int a[64]; return a + 4; }
    static type at(int k) { return base() + k; }
    static type mid(int k) { return at(k); }
    static std::string str(const type& v) { return std::to_string((long)(v - base())); }
};
// minimal user-defined discrete type
struct UInt {
    int v;
    UInt() : v(0) {}
    explicit UInt(int x) : v(x) {}
    UInt& operator++() { ++v; return *this; }
    UInt& operator--() { --v; return *this; }
    friend bool operator<(const UInt& a, const UInt& b) { return a.v < b.v; }
    friend bool operator==(const UInt& a, const UInt& b) { return a.v == b.v; }
    friend int operator-(const UInt& a, const UInt& b) { return a.v - b.v; }
    typedef int difference_type;
    typedef std::size_t size_type;
    friend std::ostream& operator<<(std::ostream& o, const UInt& a) { return o << a.v; }
};
struct CUser {
    typedef UInt type; static constexpr bool has_mid = false;
    static type at(int k) { return UInt(k - 4); }
    static type mid(int k) { return at(k); }
    static std::string str(const type& v) { return std::to_string(v.v); }
};
typedef Dom<CRat, I_cd<boost::rational<int>>, ContDyn> D_rat;
typedef Dom<CRat, I_ro<boost::rational<int>>, ContRO> D_rat_ro;
typedef Dom<CDate, I_dd<boost::gregorian::date>, DiscDyn> D_date;
typedef Dom<CDate, I_cl<boost::gregorian::date>, DiscCL> D_date_cl;
typedef Dom<CDateDur, I_dd<boost::gregorian::date_duration>, DiscDyn> D_datedur;
typedef Dom<CPtime, I_dd<boost::posix_time::ptime>, DiscDyn> D_ptime;
typedef Dom<CTdur, I_dd<boost::posix_time::time_duration>, DiscDyn> D_tdur;
typedef Dom<CChrono, I_dd<boost::chrono::duration<int>>, DiscDyn> D_chr;
typedef Dom<CChronoD, I_cd<boost::chrono::duration<double>>, ContDyn> D_chrd;
typedef Dom<CPtr, I_dd<int*>, DiscDyn> D_ptr;
typedef Dom<CUser, I_dd<UInt>, DiscDyn> D_user;
typedef Dom<CUser, I_ro<UInt>, DiscRO> D_user_ro;
} // namespace vf
