#ifndef VP_ALGOIM_QUADRATURE_GENERAL_HPP
#define VP_ALGOIM_QUADRATURE_GENERAL_HPP
// Height-function quadrature on implicitly defined domains (after Saye, SISC 37(2), 2015).
#include "hyperrectangle.hpp"
#include "interval.hpp"
#include "xarray.hpp"
#include <numbers>
namespace algoim {
namespace detail {
  inline const std::vector<std::pair<real, real>> &gauss_(int n)
  {
    static thread_local std::vector<std::vector<std::pair<real, real>>> cache(256);
    auto &r = cache.at(static_cast<std::size_t>(n));
    if (!r.empty()) return r;
    for (int i = 0; i < n; ++i) {
      real x = std::cos(std::numbers::pi * (i + 0.75) / (n + 0.5));
      real dp = 1;
      for (int it = 0; it < 100; ++it) {
        real p0 = 1, p1 = x;
        for (int k = 2; k <= n; ++k) {
          const real p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k;
          p0 = p1;
          p1 = p2;
        }
        dp = n * (x * p1 - p0) / (x * x - 1);
        const real dx = p1 / dp;
        x -= dx;
        if (std::abs(dx) < 1e-16) break;
      }
      if (n == 1) {
        x = 0;
        dp = 1;
      }
      r.emplace_back(0.5 - 0.5 * x, 1.0 / ((1 - x * x) * dp * dp));
    }
    return r;
  }
  template<bool S> void determineSigns(bool positiveAbove, int sign, int &bottomSign, int &topSign)
  {
    if (S) {
      bottomSign = positiveAbove ? -1 : 1;
      topSign = -bottomSign;
    } else {
      const bool topMatches = (sign == 1) == positiveAbove;
      bottomSign = sign == 0 || topMatches ? 0 : sign;
      topSign = sign == 0 || !topMatches ? 0 : sign;
    }
  }
  template<typename Phi, int N>
  void rootBracket_(const Phi &phi, uvector<real, N> x, int k, real a, real b, real fa, real fb, std::vector<real> &roots)
  {
    int last = 0;
    for (int it = 0; it < 180 && std::abs(b - a) > 1e-16 * (std::abs(a) + std::abs(b)); ++it) {
      real t = 0.5 * (a + b);
      if (it % 3 != 2) {
        const real s = a - fa * (b - a) / (fb - fa);
        if (s > a && s < b) t = s;
      }
      x(k) = t;
      const real f = phi(x);
      if (f == 0) {
        roots.push_back(t);
        return;
      }
      // Illinois-type regula falsi, safeguarded by bisection.
      if ((f > 0) == (fa > 0)) {
        a = t;
        fa = f;
        if (last == 1) fb *= 0.5;
        last = 1;
      } else {
        b = t;
        fb = f;
        if (last == 2) fa *= 0.5;
        last = 2;
      }
    }
    roots.push_back(0.5 * (a + b));
  }
  template<typename Phi, int N>
  void rootRec_(const Phi &phi, uvector<real, N> x, int k, real a, real b, std::vector<real> &roots, int level)
  {
    uvector<Interval<N>, N> xi;
    Interval<N>::delta() = uvector<real, N>(0.0);
    for (int d = 0; d < N; ++d) xi(d) = Interval<N>(x(d));
    xi(k) = Interval<N>(0.5 * (a + b), set_component(uvector<real, N>(0.0), k, 1.0));
    Interval<N>::delta(k) = 0.5 * (b - a);
    if (phi(xi).uniformSign()) return;
    const Interval<N> g = phi.grad(xi)(k);
    const bool mono = g.uniformSign();
    if (g.alpha == 0 && g.maxDeviation() == 0) return;// Constant along the line.
    if (mono || level >= 16) {
      x(k) = a;
      const real fa = phi(x);
      x(k) = b;
      const real fb = phi(x);
      if (mono && (fa == 0 || fb == 0)) {
        roots.push_back(fa == 0 ? a : b);
        return;
      }
      if ((fa > 0) != (fb > 0)) rootBracket_(phi, x, k, a, b, fa, fb, roots);
      return;
    }
    rootRec_(phi, x, k, a, 0.5 * (a + b), roots, level + 1);
    rootRec_(phi, x, k, 0.5 * (a + b), b, roots, level + 1);
  }
  template<typename Phi, int N>
  void rootFind(const Phi &phi, const uvector<real, N> &x, int k, real a, real b, std::vector<real> &roots, bool monotone)
  {
    roots.clear();
    if (monotone) {
      uvector<real, N> y = x;
      y(k) = a;
      const real fa = phi(y);
      y(k) = b;
      const real fb = phi(y);
      if (fa == 0)
        roots.push_back(a);
      else if (fb == 0)
        roots.push_back(b);
      else if ((fa > 0) != (fb > 0))
        rootBracket_<Phi, N>(phi, y, k, a, b, fa, fb, roots);
      return;
    }
    rootRec_<Phi, N>(phi, x, k, a, b, roots, 0);
  }
}// namespace detail

template<int N> struct PsiCode
{
  uvector<int, N> sides_;
  int sign_;
  PsiCode() : sides_(0), sign_(0) {}
  PsiCode(const uvector<int, N> &sides, int sign) : sides_(sides), sign_(sign) {}
  PsiCode(const PsiCode &p, int dir, int side, int sign) : sides_(set_component(p.sides_, dir, side)), sign_(sign) {}
  int side(int d) const { return sides_(d); }
  int sign() const { return sign_; }
};

// M: number of free directions; N: dimension; S: surface integral. F provides evalIntegrand(x, w).
template<int M, int N, typename Phi, typename F, bool S> struct ImplicitIntegral
{
  static constexpr int NPSI = 1 << (N - 1);
  const Phi *phi;
  F *f;
  uvector<bool, N> free;
  std::array<PsiCode<N>, static_cast<std::size_t>(NPSI)> psi;
  int psiCount;
  HyperRectangle<real, N> xrange;
  int p;
  int e0 = -1;
  static constexpr int MAXLEVEL = 16;

  const PsiCode<N> &psi_at(int i) const { return psi[static_cast<std::size_t>(i)]; }

  ImplicitIntegral(const Phi &phi_,
    F &f_,
    const uvector<bool, N> &free_,
    const std::array<PsiCode<N>, static_cast<std::size_t>(NPSI)> &psi_,
    int psiCount_,
    const HyperRectangle<real, N> &xrange_,
    int p_,
    int level = 0)
    : phi(&phi_), f(&f_), free(free_), psi(psi_), psiCount(psiCount_), xrange(xrange_), p(p_)
  {
    if constexpr (M == 1) {
      for (int d = 0; d < N; ++d)
        if (free(d)) e0 = d;
      evalIntegrand(uvector<real, N>(0.0), 1.0);
    } else {
      run(level);
    }
  }
  uvector<Interval<N>, N> bounds(const PsiCode<N> &c) const
  {
    uvector<Interval<N>, N> xi;
    for (int d = 0; d < N; ++d) {
      if (free(d)) {
        xi(d) = Interval<N>(xrange.midpoint(d), set_component(uvector<real, N>(0.0), d, 1.0));
        Interval<N>::delta(d) = 0.5 * xrange.extent(d);
      } else {
        xi(d) = Interval<N>(xrange.side(c.side(d))(d));
        Interval<N>::delta(d) = 0;
      }
    }
    return xi;
  }
  void run(int level)
  {
    int n = 0;
    for (int i = 0; i < psiCount; ++i) {
      const Interval<N> v = (*phi)(bounds(psi_at(i)));
      if (v.uniformSign()) {
        if (S) return;
        if (psi_at(i).sign() != 0 && psi_at(i).sign() != v.sign()) return;
      } else {
        psi[static_cast<std::size_t>(n++)] = psi_at(i);
      }
    }
    psiCount = n;
    if (psiCount == 0) {
      if (!S) tensor();
      return;
    }
    // Direction with the flattest height function.
    real best = 0;
    {
      const auto g = phi->grad(bounds(psi_at(0)));
      for (int d = 0; d < N; ++d)
        if (free(d) && std::abs(g(d).alpha) > 1.001 * g(d).maxDeviation()) {
          const real q = std::abs(g(d).alpha) * xrange.extent(d);
          if (q > best) {
            best = q;
            e0 = d;
          }
        }
    }
    bool ok = e0 >= 0;
    std::array<PsiCode<N>, static_cast<std::size_t>(NPSI)> np;
    int nc = 0;
    for (int i = 0; ok && i < psiCount; ++i) {
      const auto g = phi->grad(bounds(psi_at(i)));
      if (!(std::abs(g(e0).alpha) > g(e0).maxDeviation())) {
        ok = false;
        break;
      }
      if constexpr (S) {
        // Bounded surface Jacobian.
        real den = std::abs(g(e0).alpha) - g(e0).maxDeviation();
        real num = 0;
        for (int d = 0; d < N; ++d) {
          const real t = std::abs(g(d).alpha) + g(d).maxDeviation();
          num += t * t;
        }
        if (!(num < 20.0 * 20.0 * den * den)) {
          ok = false;
          break;
        }
      }
      int b = 0;
      int t = 0;
      detail::determineSigns<S>(g(e0).alpha > 0, psi_at(i).sign(), b, t);
      np[static_cast<std::size_t>(nc++)] = PsiCode<N>(psi_at(i), e0, 0, b);
      np[static_cast<std::size_t>(nc++)] = PsiCode<N>(psi_at(i), e0, 1, t);
    }
    if (ok) {
      if constexpr (M > 1)
        ImplicitIntegral<M - 1, N, Phi, ImplicitIntegral, false>(*phi, *this, set_component(free, e0, false), np, nc, xrange, p);
      return;
    }
    if (level >= MAXLEVEL) {
      // Low-order fall-back at the midpoint.
      if (!S) {
        uvector<real, N> x = xrange.midpoint();
        for (int i = 0; i < psiCount; ++i) {
          for (int d = 0; d < N; ++d)
            if (!free(d)) x(d) = xrange.side(psi_at(i).side(d))(d);
          const real v = (*phi)(x);
          if (psi_at(i).sign() != 0 && (v > 0) != (psi_at(i).sign() > 0)) return;
        }
        real w = 1;
        for (int d = 0; d < N; ++d)
          if (free(d)) w *= xrange.extent(d);
        f->evalIntegrand(x, w);
      }
      return;
    }
    int k = -1;
    for (int d = 0; d < N; ++d)
      if (free(d) && (k < 0 || xrange.extent(d) > xrange.extent(k) * (1 + 1e-12))) k = d;
    const real mid = xrange.midpoint(k);
    ImplicitIntegral(*phi, *f, free, psi, psiCount, HyperRectangle<real, N>(xrange.min(), set_component(xrange.max(), k, mid)), p, level + 1);
    ImplicitIntegral(*phi, *f, free, psi, psiCount, HyperRectangle<real, N>(set_component(xrange.min(), k, mid), xrange.max()), p, level + 1);
  }
  void tensor()
  {
    const auto &q = detail::gauss_(p);
    int n = 1;
    for (int i = 0; i < M; ++i) n *= p;
    for (int i = 0; i < n; ++i) {
      uvector<real, N> x(0.0);
      real w = 1;
      int g = i;
      for (int d = 0; d < N; ++d)
        if (free(d)) {
          const auto &[t, u] = q[static_cast<std::size_t>(g % p)];
          g /= p;
          x(d) = xrange.min(d) + xrange.extent(d) * t;
          w *= xrange.extent(d) * u;
        }
      f->evalIntegrand(x, w);
    }
  }
  void evalIntegrand(uvector<real, N> x, real w)
  {
    const real lo = xrange.min(e0);
    const real hi = xrange.max(e0);
    std::vector<real> roots;
    if constexpr (S) {
      for (int d = 0; d < N; ++d)
        if (!free(d)) x(d) = xrange.side(psi_at(0).side(d))(d);
      detail::rootFind<Phi, N>(*phi, x, e0, lo, hi, roots, M > 1);
      for (const real r : roots) {
        x(e0) = r;
        const auto g = phi->grad(x);
        f->evalIntegrand(x, std::abs(g(e0)) > 0 ? w * norm(g) / std::abs(g(e0)) : 0.0);
      }
      return;
    } else {
      std::vector<real> nodes{ lo, hi };
      for (int i = 0; i < psiCount; ++i) {
        for (int d = 0; d < N; ++d)
          if (!free(d)) x(d) = xrange.side(psi_at(i).side(d))(d);
        detail::rootFind<Phi, N>(*phi, x, e0, lo, hi, roots, M > 1);
        nodes.insert(nodes.end(), roots.begin(), roots.end());
      }
      std::sort(nodes.begin(), nodes.end());
      const auto &q = detail::gauss_(p);
      for (std::size_t s = 0; s + 1 < nodes.size(); ++s) {
        const real len = nodes[s + 1] - nodes[s];
        if (!(len > 10 * std::numeric_limits<real>::epsilon() * (hi - lo))) continue;
        bool inside = true;
        for (int i = 0; i < psiCount && inside; ++i) {
          for (int d = 0; d < N; ++d)
            if (!free(d)) x(d) = xrange.side(psi_at(i).side(d))(d);
          x(e0) = 0.5 * (nodes[s] + nodes[s + 1]);
          if (psi_at(i).sign() != 0 && ((*phi)(x) > 0) != (psi_at(i).sign() > 0)) inside = false;
        }
        if (!inside) continue;
        for (const auto &[t, u] : q) {
          x(e0) = nodes[s] + len * t;
          f->evalIntegrand(x, w * len * u);
        }
      }
    }
  }
};

template<int N> struct QuadratureRule
{
  struct Node
  {
    uvector<real, N> x;
    real w;
    Node(const uvector<real, N> &x_, real w_) : x(x_), w(w_) {}
  };
  std::vector<Node> nodes;
  void evalIntegrand(const uvector<real, N> &x, real w) { nodes.emplace_back(x, w); }
  real sumWeights() const
  {
    real s = 0;
    for (const auto &n : nodes) s += n.w;
    return s;
  }
};

// dim < 0: volume; dim == N: surface; otherwise the face (dim, side).
template<int N, typename Phi>
QuadratureRule<N> quadGen(const Phi &phi, const HyperRectangle<real, N> &rect, int dim, int side, int qo)
{
  QuadratureRule<N> q;
  std::array<PsiCode<N>, static_cast<std::size_t>(1 << (N - 1))> psi;
  uvector<bool, N> free(true);
  if (dim >= 0 && dim < N) {
    if constexpr (N > 1) {
      struct Wrap
      {
        QuadratureRule<N> *q;
        int d;
        real v;
        void evalIntegrand(uvector<real, N> x, real w)
        {
          x(d) = v;
          q->evalIntegrand(x, w);
        }
      } wrap{ &q, dim, rect.side(side)(dim) };
      psi[0] = PsiCode<N>(set_component(uvector<int, N>(0), dim, side), -1);
      ImplicitIntegral<N - 1, N, Phi, Wrap, false>(phi, wrap, set_component(free, dim, false), psi, 1, rect, qo);
    }
  } else {
    psi[0] = PsiCode<N>(uvector<int, N>(0), -1);
    if (dim < 0)
      ImplicitIntegral<N, N, Phi, QuadratureRule<N>, false>(phi, q, free, psi, 1, rect, qo);
    else
      ImplicitIntegral<N, N, Phi, QuadratureRule<N>, true>(phi, q, free, psi, 1, rect, qo);
  }
  return q;
}
}// namespace algoim
#endif
