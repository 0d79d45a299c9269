#ifndef VP_ALGOIM_XARRAY_HPP
#define VP_ALGOIM_XARRAY_HPP
#include "uvector.hpp"
namespace algoim {
// Non-owning N-dimensional view, last index fastest.
template<typename T, int N> struct xarray
{
  T *data_;
  uvector<int, N> ext_;
  xarray(T *d, const uvector<int, N> &e) : data_(d), ext_(e) {}
  xarray(const xarray &) = default;
  xarray &operator=(const xarray &) = default;
  const uvector<int, N> &ext() const { return ext_; }
  int ext(int k) const { return ext_(k); }
  int size() const { return prod(ext_); }
  T *data() { return data_; }
  const T *data() const { return data_; }
  T &operator[](int i) { return data_[i]; }
  const T &operator[](int i) const { return data_[i]; }
  int flat(const uvector<int, N> &i) const
  {
    int f = 0;
    for (int d = 0; d < N; ++d) f = f * ext_(d) + i(d);
    return f;
  }
  T &m(const uvector<int, N> &i) { return data_[flat(i)]; }
  const T &m(const uvector<int, N> &i) const { return data_[flat(i)]; }
};
}// namespace algoim
#endif
