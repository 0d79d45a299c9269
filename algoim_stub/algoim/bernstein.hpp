#ifndef VP_ALGOIM_BERNSTEIN_HPP
#define VP_ALGOIM_BERNSTEIN_HPP
#include "binomial.hpp"
#include "booluarray.hpp"
#include "hyperrectangle.hpp"
#include "interval.hpp"
#include "xarray.hpp"
#include <map>
#include <memory>
#include <numbers>
#ifndef ALGOIM_M
#define ALGOIM_M 8
#endif
namespace algoim {
template<typename T> struct spark_buffers_
{
  std::vector<std::unique_ptr<T[]>> bufs;
  template<typename... R> explicit spark_buffers_(T **p, int n, R... rest) { add(p, n, rest...); }
  void add() {}
  template<typename... R> void add(T **p, int n, R... rest)
  {
    bufs.emplace_back(new T[static_cast<std::size_t>(std::max(n, 1))]());
    *p = bufs.back().get();
    add(rest...);
  }
};
#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
#define algoim_spark_alloc(T, ...) spark_buffers_<T> VP_CAT(vp_spark_, __LINE__)(__VA_ARGS__)

namespace bernstein {
  inline real modifiedChebyshevNode(int i, int n)
  {
    if (n == 1) return 0.5;
    return 0.5 - 0.5 * std::cos(std::numbers::pi * i / (n - 1));
  }
  // Values of the n Bernstein polynomials of degree n-1.
  inline void basis_(real x, int n, real *out)
  {
    out[0] = 1;
    for (int k = 1; k < n; ++k) {
      real saved = 0;
      for (int j = 0; j < k; ++j) {
        const real t = out[j];
        out[j] = saved + (1 - x) * t;
        saved = x * t;
      }
      out[k] = saved;
    }
  }
  inline void dbasis_(real x, int n, real *out)
  {
    if (n == 1) {
      out[0] = 0;
      return;
    }
    std::vector<real> b(static_cast<std::size_t>(n));
    basis_(x, n - 1, b.data());
    for (int i = 0; i < n; ++i) {
      const real l = i > 0 ? b[static_cast<std::size_t>(i - 1)] : 0;
      const real r = i < n - 1 ? b[static_cast<std::size_t>(i)] : 0;
      out[i] = (n - 1) * (l - r);
    }
  }
  template<int N> real contract_(const xarray<real, N> &a, const std::array<std::vector<real>, N> &w)
  {
    std::vector<real> cur(a.data(), a.data() + a.size());
    int len = a.size();
    for (int d = N - 1; d >= 0; --d) {
      const int e = a.ext(d);
      len /= e;
      for (int i = 0; i < len; ++i) {
        real s = 0;
        for (int j = 0; j < e; ++j) s += cur[static_cast<std::size_t>(i * e + j)] * w[static_cast<std::size_t>(d)][static_cast<std::size_t>(j)];
        cur[static_cast<std::size_t>(i)] = s;
      }
    }
    return cur[0];
  }
  template<int N> real evalBernsteinPoly(const xarray<real, N> &a, const uvector<real, N> &x)
  {
    std::array<std::vector<real>, N> w;
    for (int d = 0; d < N; ++d) {
      w[static_cast<std::size_t>(d)].resize(static_cast<std::size_t>(a.ext(d)));
      basis_(x(d), a.ext(d), w[static_cast<std::size_t>(d)].data());
    }
    return contract_<N>(a, w);
  }
  template<int N> uvector<real, N> evalBernsteinPolyGradient(const xarray<real, N> &a, const uvector<real, N> &x)
  {
    std::array<std::vector<real>, N> w;
    std::array<std::vector<real>, N> dw;
    for (int d = 0; d < N; ++d) {
      const auto D = static_cast<std::size_t>(d);
      w[D].resize(static_cast<std::size_t>(a.ext(d)));
      dw[D].resize(static_cast<std::size_t>(a.ext(d)));
      basis_(x(d), a.ext(d), w[D].data());
      dbasis_(x(d), a.ext(d), dw[D].data());
    }
    uvector<real, N> g;
    for (int d = 0; d < N; ++d) {
      const auto D = static_cast<std::size_t>(d);
      std::swap(w[D], dw[D]);
      g(d) = contract_<N>(a, w);
      std::swap(w[D], dw[D]);
    }
    return g;
  }
  template<int N> int uniformSign(const xarray<real, N> &a)
  {
    int s = 0;
    for (int i = 0; i < a.size(); ++i) {
      const int t = a[i] > 0 ? 1 : (a[i] < 0 ? -1 : 0);
      if (t == 0) return 0;
      if (s == 0) s = t;
      if (s != t) return 0;
    }
    return s;
  }
  // Restricts, in place, a strided univariate Bernstein polynomial to [lo, hi].
  template<typename T> void subdiv1_(T *p, int n, int stride, real lo, real hi)
  {
    // Keep [lo, 1], then the left part up to (hi - lo) / (1 - lo); or mirrored when lo is close to 1.
    const auto right = [&](real t) {
      for (int k = 1; k < n; ++k)
        for (int i = 0; i < n - k; ++i) p[i * stride] = p[i * stride] * (1 - t) + p[(i + 1) * stride] * t;
    };
    const auto left = [&](real t) {
      for (int k = 1; k < n; ++k)
        for (int i = n - 1; i >= k; --i) p[i * stride] = p[(i - 1) * stride] * (1 - t) + p[i * stride] * t;
    };
    if (std::abs(hi) >= std::abs(1 - lo)) {
      left(hi);
      right(lo / hi);
    } else {
      right(lo);
      left((hi - lo) / (1 - lo));
    }
  }
  template<typename T, int N> void deCasteljau(xarray<T, N> &a, const real *lo, const real *hi)
  {
    for (int d = 0; d < N; ++d) {
      int stride = 1;
      for (int k = d + 1; k < N; ++k) stride *= a.ext(k);
      const int n = a.ext(d);
      const int outer = a.size() / (stride * n);
      for (int o = 0; o < outer; ++o)
        for (int s = 0; s < stride; ++s) subdiv1_(a.data() + o * n * stride + s, n, stride, lo[d], hi[d]);
    }
  }
  template<int N> void collapseAlongAxis(const xarray<real, N> &a, const uvector<real, N - 1> &x, int k, real *out)
  {
    const int n = a.ext(k);
    int stride = 1;
    for (int j = k + 1; j < N; ++j) stride *= a.ext(j);
    if constexpr (N == 1) {
      for (int i = 0; i < n; ++i) out[i] = a[i];
    } else {
      uvector<int, N - 1> e = remove_component(a.ext(), k);
      std::vector<real> slice(static_cast<std::size_t>(prod(e)));
      for (int i = 0; i < n; ++i) {
        std::size_t c = 0;
        for (int j = 0; j < a.size(); ++j)
          if ((j / stride) % n == i) slice[c++] = a[j];
        out[i] = evalBernsteinPoly<N - 1>(xarray<real, N - 1>(slice.data(), e), x);
      }
    }
  }
  namespace detail_ {
    inline void roots_(std::vector<real> p, real lo, real hi, real scale, int depth, std::vector<real> &out)
    {
      const int n = static_cast<int>(p.size());
      int var = 0;
      int last = 0;
      bool zero = true;
      for (const real c : p) {
        if (std::abs(c) > 1e-14 * scale) zero = false;
        const int s = c > 0 ? 1 : (c < 0 ? -1 : 0);
        if (s != 0 && last != 0 && s != last) ++var;
        if (s != 0) last = s;
      }
      if (zero) {
        if (depth > 0) out.push_back(0.5 * (lo + hi));
        return;
      }
      if (p[0] == 0) out.push_back(lo);
      if (p[static_cast<std::size_t>(n - 1)] == 0) out.push_back(hi);
      if (var == 0) return;
      if (var == 1 && p[0] * p[static_cast<std::size_t>(n - 1)] < 0) {
        // Bisection on the local polynomial (with a secant start), evaluated by de Casteljau.
        real a = 0;
        real b = 1;
        real fa = p[0];
        real fb = p[static_cast<std::size_t>(n - 1)];
        std::vector<real> w(static_cast<std::size_t>(n));
        for (int it = 0; it < 200 && b - a > 1e-16; ++it) {
          real t = 0.5 * (a + b);
          if (it % 2 == 0) {
            const real s = a - fa * (b - a) / (fb - fa);
            if (s > a && s < b) t = s;
          }
          basis_(t, n, w.data());
          real f = 0;
          for (int i = 0; i < n; ++i) f += w[static_cast<std::size_t>(i)] * p[static_cast<std::size_t>(i)];
          if (f == 0) {
            a = b = t;
            break;
          }
          if ((f > 0) == (fa > 0)) {
            a = t;
            fa = f;
          } else {
            b = t;
            fb = f;
          }
        }
        out.push_back(lo + (hi - lo) * 0.5 * (a + b));
        return;
      }
      if (depth >= 44) {
        out.push_back(0.5 * (lo + hi));
        return;
      }
      std::vector<real> l(p);
      std::vector<real> r(p);
      subdiv1_(l.data(), n, 1, 0.0, 0.5);
      subdiv1_(r.data(), n, 1, 0.5, 1.0);
      const real mid = 0.5 * (lo + hi);
      roots_(l, lo, mid, scale, depth + 1, out);
      roots_(r, mid, hi, scale, depth + 1, out);
    }
  }// namespace detail_
  inline int bernsteinUnitIntervalRealRoots(const real *p, int n, real *out)
  {
    real scale = 0;
    for (int i = 0; i < n; ++i) scale = std::max(scale, std::abs(p[i]));
    if (scale == 0 || n < 2) return 0;
    std::vector<real> r;
    detail_::roots_(std::vector<real>(p, p + n), 0.0, 1.0, scale, 0, r);
    std::sort(r.begin(), r.end());
    int c = 0;
    for (const real x : r) {
      if (c > 0 && x - out[c - 1] < 1e-11) continue;
      if (c < n - 1) out[c++] = x;
    }
    return c;
  }
}// namespace bernstein
}// namespace algoim
#endif
