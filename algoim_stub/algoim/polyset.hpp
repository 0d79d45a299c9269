#ifndef VP_ALGOIM_POLYSET_HPP
#define VP_ALGOIM_POLYSET_HPP
#include "bernstein.hpp"
namespace algoim {
template<int N, int E> struct PolySet
{
  struct Item
  {
    std::vector<real> c;
    uvector<int, N> ext;
    booluarray<N, E> mask;
  };
  std::vector<Item> items;
  std::size_t count() const { return items.size(); }
  xarray<real, N> poly(std::size_t i) const
  {
    return xarray<real, N>(const_cast<real *>(items[i].c.data()), items[i].ext);
  }
  const booluarray<N, E> &mask(std::size_t i) const { return items[i].mask; }
  booluarray<N, E> &mask(std::size_t i) { return items[i].mask; }
  void push_back(const xarray<real, N> &p, const booluarray<N, E> &m)
  {
    items.push_back(Item{ std::vector<real>(p.data(), p.data() + p.size()), p.ext(), m });
  }
};
namespace detail {
  template<int N> uvector<int, N> unflat(int f, int E)
  {
    uvector<int, N> i;
    for (int d = N - 1; d >= 0; --d) {
      i(d) = f % E;
      f /= E;
    }
    return i;
  }
  template<int N, int E> bool maskEmpty(const booluarray<N, E> &m) { return m.bits.none(); }
  template<int N, int E> void mark_(const std::vector<real> &c, const uvector<int, N> &ext, const uvector<int, N> &lo, int len, const booluarray<N, E> &in, booluarray<N, E> &out)
  {
    bool anyset = false;
    for (int f = 0; f < ipow(len, N) && !anyset; ++f) {
      uvector<int, N> i = unflat<N>(f, len);
      i += lo;
      anyset = in(i);
    }
    if (!anyset) return;
    std::vector<real> w(c);
    xarray<real, N> x(w.data(), ext);
    uvector<real, N> a, b;
    for (int d = 0; d < N; ++d) {
      a(d) = static_cast<real>(lo(d)) / E - 1e-6;
      b(d) = static_cast<real>(lo(d) + len) / E + 1e-6;
    }
    bernstein::deCasteljau(x, a.data(), b.data());
    if (bernstein::uniformSign<N>(x) != 0) return;
    if (len == 1) {
      out(lo) = true;
      return;
    }
    const int h = len / 2;
    for (int f = 0; f < ipow(2, N); ++f) {
      uvector<int, N> s = unflat<N>(f, 2);
      mark_<N, E>(c, ext, lo + s * h, h, in, out);
    }
  }
  template<int N, int E> booluarray<N, E> nonzeroMask(const xarray<real, N> &p, const booluarray<N, E> &m)
  {
    booluarray<N, E> out(false);
    mark_<N, E>(std::vector<real>(p.data(), p.data() + p.size()), p.ext(), uvector<int, N>(0), E, m, out);
    return out;
  }
  template<int N> std::vector<real> derivative_(const xarray<real, N> &p, int k, uvector<int, N> &e)
  {
    e = p.ext();
    e(k) = std::max(e(k) - 1, 1);
    std::vector<real> c(static_cast<std::size_t>(prod(e)), 0.0);
    if (p.ext(k) == 1) return c;
    xarray<real, N> o(c.data(), e);
    for (int f = 0; f < o.size(); ++f) {
      uvector<int, N> i;
      int g = f;
      for (int d = N - 1; d >= 0; --d) {
        i(d) = g % e(d);
        g /= e(d);
      }
      o[f] = (p.m(inc_component(i, k, 1)) - p.m(i)) * (p.ext(k) - 1);
    }
    return c;
  }
  template<int N, int E> booluarray<N, E> discriminantMask_(const xarray<real, N> &p, const booluarray<N, E> &m, int k)
  {
    if (p.ext(k) < 3) return booluarray<N, E>(false);
    uvector<int, N> e;
    std::vector<real> d = derivative_(p, k, e);
    return nonzeroMask<N, E>(xarray<real, N>(d.data(), e), m);
  }
  template<int N, int E> booluarray<N - 1, E> collapseMask_(const booluarray<N, E> &m, int k)
  {
    booluarray<N - 1, E> o(false);
    for (int f = 0; f < ipow(E, N); ++f) {
      const uvector<int, N> i = unflat<N>(f, E);
      if (m(i)) o(remove_component(i, k)) = true;
    }
    return o;
  }
  template<int N, int E> booluarray<N - 1, E> faceMask_(const booluarray<N, E> &m, int k, int side)
  {
    booluarray<N - 1, E> o(false);
    for (int f = 0; f < ipow(E, N); ++f) {
      const uvector<int, N> i = unflat<N>(f, E);
      if (i(k) == (side == 0 ? 0 : E - 1) && m(i)) o(remove_component(i, k)) = true;
    }
    return o;
  }
  template<int N, int E> uvector<int, N> cellOf_(const uvector<real, N> &x)
  {
    uvector<int, N> i;
    for (int d = 0; d < N; ++d) i(d) = std::min(E - 1, std::max(0, static_cast<int>(std::floor(x(d) * E))));
    return i;
  }
  template<int N, int E> bool pointWithinMask(const booluarray<N, E> &m, const uvector<real, N> &x) { return m(cellOf_<N, E>(x)); }
  template<int N, int E> bool lineIntersectsMask(const booluarray<N, E> &m, const uvector<real, N - 1> &x, int k)
  {
    uvector<real, N> y = add_component(x, k, 0.0);
    uvector<int, N> i = cellOf_<N, E>(y);
    for (int j = 0; j < E; ++j) {
      i(k) = j;
      if (m(i)) return true;
    }
    return false;
  }
  template<int N, int E> uvector<real, N> score_estimate(const PolySet<N, E> &phi, uvector<bool, N> &has_disc)
  {
    uvector<real, N> s(0.0);
    has_disc = uvector<bool, N>(false);
    for (std::size_t i = 0; i < phi.count(); ++i) {
      const auto p = phi.poly(i);
      for (int f = 0; f < ipow(E, N); ++f) {
        const uvector<int, N> c = unflat<N>(f, E);
        if (!phi.mask(i)(c)) continue;
        uvector<real, N> x;
        for (int d = 0; d < N; ++d) x(d) = (c(d) + 0.5) / E;
        uvector<real, N> g = bernstein::evalBernsteinPolyGradient(p, x);
        real t = 0;
        for (int d = 0; d < N; ++d) t += std::abs(g(d));
        if (t > 0)
          for (int d = 0; d < N; ++d) s(d) += std::abs(g(d)) / t;
      }
      for (int k = 0; k < N; ++k)
        if (!maskEmpty(discriminantMask_<N, E>(p, phi.mask(i), k))) has_disc(k) = true;
    }
    return s;
  }
  // Determinant of a small dense matrix (row major), partial pivoting.
  inline real det_(std::vector<real> a, int n)
  {
    real d = 1;
    for (int c = 0; c < n; ++c) {
      int p = c;
      for (int r = c + 1; r < n; ++r)
        if (std::abs(a[static_cast<std::size_t>(r * n + c)]) > std::abs(a[static_cast<std::size_t>(p * n + c)])) p = r;
      const real v = a[static_cast<std::size_t>(p * n + c)];
      if (v == 0) return 0;
      if (p != c) {
        for (int j = 0; j < n; ++j) std::swap(a[static_cast<std::size_t>(p * n + j)], a[static_cast<std::size_t>(c * n + j)]);
        d = -d;
      }
      d *= v;
      for (int r = c + 1; r < n; ++r) {
        const real f = a[static_cast<std::size_t>(r * n + c)] / v;
        if (f != 0)
          for (int j = c; j < n; ++j) a[static_cast<std::size_t>(r * n + j)] -= f * a[static_cast<std::size_t>(c * n + j)];
      }
    }
    return d;
  }
  // Resultant of two univariate Bernstein polynomials (homogeneous Sylvester determinant).
  inline real resultant_(const real *p, int np, const real *q, int nq)
  {
    const int a = np - 1;
    const int b = nq - 1;
    const int n = a + b;
    if (n == 0) return 1;
    const real *ba = Binomial::row(a);
    const real *bb = Binomial::row(b);
    std::vector<real> m(static_cast<std::size_t>(n * n), 0.0);
    for (int r = 0; r < b; ++r)
      for (int j = 0; j <= a; ++j) m[static_cast<std::size_t>(r * n + r + j)] = p[j] * ba[j];
    for (int r = 0; r < a; ++r)
      for (int j = 0; j <= b; ++j) m[static_cast<std::size_t>((b + r) * n + r + j)] = q[j] * bb[j];
    return det_(m, n);
  }
  inline real discriminant_(const real *p, int np) { return resultant_(p + 1, np - 1, p, np - 1); }
  // Inverse of the Bernstein collocation matrix at the modified Chebyshev nodes.
  inline const std::vector<real> &interp_(int n)
  {
    static thread_local std::map<int, std::vector<real>> cache;
    auto &inv = cache[n];
    if (!inv.empty()) return inv;
    using LD = long double;
    const auto S = [](int i) { return static_cast<std::size_t>(i); };
    std::vector<LD> a(S(n * 2 * n), 0.0L);
    for (int i = 0; i < n; ++i) {
      std::vector<real> b(S(n));
      bernstein::basis_(bernstein::modifiedChebyshevNode(i, n), n, b.data());
      for (int j = 0; j < n; ++j) a[S(i * 2 * n + j)] = b[S(j)];
      a[S(i * 2 * n + n + i)] = 1;
    }
    for (int c = 0; c < n; ++c) {
      int p = c;
      for (int r = c + 1; r < n; ++r)
        if (std::abs(a[S(r * 2 * n + c)]) > std::abs(a[S(p * 2 * n + c)])) p = r;
      for (int j = 0; j < 2 * n; ++j) std::swap(a[S(p * 2 * n + j)], a[S(c * 2 * n + j)]);
      const LD v = a[S(c * 2 * n + c)];
      for (int j = 0; j < 2 * n; ++j) a[S(c * 2 * n + j)] /= v;
      for (int r = 0; r < n; ++r) {
        const LD f = a[S(r * 2 * n + c)];
        if (r != c && f != 0)
          for (int j = 0; j < 2 * n; ++j) a[S(r * 2 * n + j)] -= f * a[S(c * 2 * n + j)];
      }
    }
    inv.resize(S(n * n));
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) inv[S(i * n + j)] = static_cast<real>(a[S(i * 2 * n + n + j)]);
    return inv;
  }
  template<int M> void interpolate_(std::vector<real> &v, const uvector<int, M> &e)
  {
    for (int d = 0; d < M; ++d) {
      int stride = 1;
      for (int k = d + 1; k < M; ++k) stride *= e(k);
      const int n = e(d);
      const auto &inv = interp_(n);
      const int outer = prod(e) / (stride * n);
      std::vector<real> t(static_cast<std::size_t>(n));
      for (int o = 0; o < outer; ++o)
        for (int s = 0; s < stride; ++s) {
          real *p = v.data() + o * n * stride + s;
          for (int i = 0; i < n; ++i) {
            real sum = 0;
            for (int j = 0; j < n; ++j) sum += inv[static_cast<std::size_t>(i * n + j)] * p[j * stride];
            t[static_cast<std::size_t>(i)] = sum;
          }
          for (int i = 0; i < n; ++i) p[i * stride] = t[static_cast<std::size_t>(i)];
        }
    }
  }
  // Samples f on the tensor Chebyshev grid, and appends the interpolant if it is not (numerically) zero.
  template<int M, int E, typename F>
  void appendInterpolant_(const uvector<int, M> &e, const booluarray<M, E> &mask, const F &f, PolySet<M, E> &out)
  {
    std::vector<real> v(static_cast<std::size_t>(prod(e)));
    real mx = 0;
    for (int i = 0; i < prod(e); ++i) {
      uvector<real, M> x;
      int g = i;
      for (int d = M - 1; d >= 0; --d) {
        x(d) = bernstein::modifiedChebyshevNode(g % e(d), e(d));
        g /= e(d);
      }
      v[static_cast<std::size_t>(i)] = f(x);
      mx = std::max(mx, std::abs(v[static_cast<std::size_t>(i)]));
    }
    if (mx < 1e-14) return;
    for (auto &c : v) c /= mx;
    interpolate_<M>(v, e);
    const xarray<real, M> p(v.data(), e);
    const auto m = nonzeroMask<M, E>(p, mask);
    if (!maskEmpty(m)) out.push_back(p, m);
  }
  template<int N, int E> void eliminate_axis(const PolySet<N, E> &phi, int k, PolySet<N - 1, E> &out)
  {
    out.items.clear();
    for (std::size_t i = 0; i < phi.count(); ++i) {
      const auto p = phi.poly(i);
      for (int side = 0; side < 2; ++side) {
        const auto fm = faceMask_<N, E>(phi.mask(i), k, side);
        if (maskEmpty(fm)) continue;
        const uvector<int, N - 1> e = remove_component(p.ext(), k);
        std::vector<real> c(static_cast<std::size_t>(prod(e)));
        int stride = 1;
        for (int j = k + 1; j < N; ++j) stride *= p.ext(j);
        std::size_t q = 0;
        real mx = 0;
        for (int j = 0; j < p.size(); ++j)
          if ((j / stride) % p.ext(k) == (side == 0 ? 0 : p.ext(k) - 1)) {
            mx = std::max(mx, std::abs(p[j]));
            c[q++] = p[j];
          }
        if (mx == 0) continue;
        const xarray<real, N - 1> x(c.data(), e);
        const auto m = nonzeroMask<N - 1, E>(x, fm);
        if (!maskEmpty(m)) out.push_back(x, m);
      }
      const auto dm = discriminantMask_<N, E>(p, phi.mask(i), k);
      if (!maskEmpty(dm)) {
        const int deg = p.ext(k) - 1;
        uvector<int, N - 1> e = remove_component(p.ext(), k);
        for (int d = 0; d < N - 1; ++d) e(d) = 2 * (deg - 1) * (e(d) - 1) + 1;
        std::vector<real> line(static_cast<std::size_t>(p.ext(k)));
        real sc = 0;
        for (int j = 0; j < p.size(); ++j) sc = std::max(sc, std::abs(p[j]));
        appendInterpolant_<N - 1, E>(
          e,
          collapseMask_<N, E>(dm, k),
          [&](const uvector<real, N - 1> &x) {
            bernstein::collapseAlongAxis(p, x, k, line.data());
            for (auto &c : line) c /= sc;
            return discriminant_(line.data(), deg + 1);
          },
          out);
      }
    }
    for (std::size_t i = 0; i < phi.count(); ++i)
      for (std::size_t j = i + 1; j < phi.count(); ++j) {
        const auto p = phi.poly(i);
        const auto q = phi.poly(j);
        booluarray<N, E> im(false);
        im.bits = phi.mask(i).bits & phi.mask(j).bits;
        if (maskEmpty(im)) continue;
        const int dp = p.ext(k) - 1;
        const int dq = q.ext(k) - 1;
        if (dp == 0 || dq == 0) continue;
        uvector<int, N - 1> e;
        const auto ep = remove_component(p.ext(), k);
        const auto eq = remove_component(q.ext(), k);
        for (int d = 0; d < N - 1; ++d) e(d) = (ep(d) - 1) * dq + (eq(d) - 1) * dp + 1;
        std::vector<real> lp(static_cast<std::size_t>(dp + 1)), lq(static_cast<std::size_t>(dq + 1));
        real sp = 0, sq = 0;
        for (int t = 0; t < p.size(); ++t) sp = std::max(sp, std::abs(p[t]));
        for (int t = 0; t < q.size(); ++t) sq = std::max(sq, std::abs(q[t]));
        appendInterpolant_<N - 1, E>(
          e,
          collapseMask_<N, E>(im, k),
          [&](const uvector<real, N - 1> &x) {
            bernstein::collapseAlongAxis(p, x, k, lp.data());
            bernstein::collapseAlongAxis(q, x, k, lq.data());
            for (auto &c : lp) c /= sp;
            for (auto &c : lq) c /= sq;
            return resultant_(lp.data(), dp + 1, lq.data(), dq + 1);
          },
          out);
      }
  }
}// namespace detail
}// namespace algoim
#endif
