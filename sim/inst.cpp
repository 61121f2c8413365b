// Parts of the C++ library that the workload would otherwise take uninstrumented from libc++.a
// (its headers declare them "extern template"): compiled here like the workload, so that their
// reads and writes of the program's objects are seen by the simulator too.  Stream classes that
// std::cout and std::cerr share stay as they are: concurrent output to those is allowed.
#include <algorithm>
#include <sstream>
#include <string>
_LIBCPP_BEGIN_NAMESPACE_STD
template <class _Comp, class _It> void __sort(_It a, _It b, _Comp) { __less<> l; std::__introsort<_ClassicAlgPolicy, __less<> &, _It, __use_branchless_sort<__less<>, _It>::value>(a, b, l, 2 * std::__log2i(b - a)); }
#define SORT(T) template void __sort<__less<T> &, T *>(T *, T *, __less<T> &);
SORT(char) SORT(wchar_t) SORT(signed char) SORT(unsigned char) SORT(short) SORT(unsigned short) SORT(int) SORT(unsigned) SORT(long) SORT(unsigned long) SORT(long long) SORT(unsigned long long) SORT(float) SORT(double) SORT(long double)
template class basic_string<char>;
_LIBCPP_END_NAMESPACE_STD
