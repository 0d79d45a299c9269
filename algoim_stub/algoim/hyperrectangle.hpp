#ifndef VP_ALGOIM_HYPERRECTANGLE_HPP
#define VP_ALGOIM_HYPERRECTANGLE_HPP
#include "uvector.hpp"
namespace algoim {
template<typename T, int N> struct HyperRectangle
{
  uvector<uvector<T, N>, 2> range;
  HyperRectangle(const uvector<T, N> &xmin, const uvector<T, N> &xmax)
  {
    range(0) = xmin;
    range(1) = xmax;
  }
  const uvector<T, N> &side(int s) const { return range(s); }
  uvector<T, N> &side(int s) { return range(s); }
  const uvector<T, N> &min() const { return range(0); }
  uvector<T, N> &min() { return range(0); }
  T min(int d) const { return range(0)(d); }
  T &min(int d) { return range(0)(d); }
  const uvector<T, N> &max() const { return range(1); }
  uvector<T, N> &max() { return range(1); }
  T max(int d) const { return range(1)(d); }
  T &max(int d) { return range(1)(d); }
  uvector<T, N> extent() const { return range(1) - range(0); }
  T extent(int d) const { return range(1)(d) - range(0)(d); }
  uvector<T, N> midpoint() const { return (range(0) + range(1)) * 0.5; }
  T midpoint(int d) const { return (range(0)(d) + range(1)(d)) * 0.5; }
};
}// namespace algoim
#endif
