#ifndef VP_ALGOIM_BOOLUARRAY_HPP
#define VP_ALGOIM_BOOLUARRAY_HPP
#include "uvector.hpp"
#include <bitset>
namespace algoim {
namespace detail {
  constexpr int ipow(int b, int e) { return e <= 0 ? 1 : b * ipow(b, e - 1); }
}// namespace detail
template<int N, int E> struct booluarray
{
  std::bitset<static_cast<std::size_t>(detail::ipow(E, N))> bits;
  booluarray() = default;
  booluarray(bool v)
  {
    if (v) bits.set();
  }
  static std::size_t idx(const uvector<int, N> &i)
  {
    int f = 0;
    for (int d = 0; d < N; ++d) f = f * E + i(d);
    return static_cast<std::size_t>(f);
  }
  bool operator()(const uvector<int, N> &i) const { return bits[idx(i)]; }
  typename std::bitset<static_cast<std::size_t>(detail::ipow(E, N))>::reference operator()(const uvector<int, N> &i)
  {
    return bits[idx(i)];
  }
};
}// namespace algoim
#endif
