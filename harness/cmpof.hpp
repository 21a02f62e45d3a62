#pragma once
#include "domains.hpp"
namespace vf {
template <class I> struct cmp_of;
template <template <class, template <class> class> class I, class T, template <class> class Cmp>
struct cmp_of<I<T, Cmp>> { typedef icl::interval<T, Cmp> factory; template <class X> using cmp = Cmp<X>; };
}
