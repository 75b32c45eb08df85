// Stand-in for a header that the installed Boost does not have yet (it came with a later release of Boost.Core).
#pragma once
#if __has_include_next(<boost/core/invoke_swap.hpp>)
#include_next <boost/core/invoke_swap.hpp>
#else
#include <boost/core/swap.hpp>
namespace boost { namespace core { template <class T1, class T2> void invoke_swap(T1& l, T2& r) { ::boost::swap(l, r); } } }
#endif
