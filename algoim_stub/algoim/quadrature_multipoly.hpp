#ifndef VP_ALGOIM_QUADRATURE_MULTIPOLY_HPP
#define VP_ALGOIM_QUADRATURE_MULTIPOLY_HPP
#include "bernstein.hpp"
#include "polyset.hpp"
#include "quadrature_general.hpp"
namespace algoim {
enum QuadStrategy : std::uint8_t { AlwaysGL, AlwaysTS, AutoMixed };

namespace detail {
  // A Bernstein polynomial on [0,1]^N with interval bounds from the convex hull property.
  template<int N> struct BernsteinPhi
  {
    std::vector<real> c;
    uvector<int, N> ext;
    real flip = 1;
    xarray<real, N> arr() const { return xarray<real, N>(const_cast<real *>(c.data()), ext); }
    real operator()(const uvector<real, N> &x) const { return flip * bernstein::evalBernsteinPoly<N>(arr(), x); }
    uvector<real, N> grad(const uvector<real, N> &x) const
    {
      return bernstein::evalBernsteinPolyGradient<N>(arr(), x) * flip;
    }
    Interval<N> hull(std::vector<real> v, const uvector<int, N> &e, const uvector<Interval<N>, N> &x) const
    {
      uvector<real, N> a, b;
      for (int d = 0; d < N; ++d) {
        const real r = x(d).maxDeviation();
        a(d) = x(d).alpha - r;
        b(d) = x(d).alpha + r;
      }
      xarray<real, N> w(v.data(), e);
      bernstein::deCasteljau(w, a.data(), b.data());
      real lo = v[0], hi = v[0];
      for (const real t : v) {
        lo = std::min(lo, t);
        hi = std::max(hi, t);
      }
      return Interval<N>(0.5 * (lo + hi) * flip, uvector<real, N>(0.0), 0.5 * (hi - lo));
    }
    Interval<N> operator()(const uvector<Interval<N>, N> &x) const { return hull(c, ext, x); }
    uvector<Interval<N>, N> grad(const uvector<Interval<N>, N> &x) const
    {
      uvector<Interval<N>, N> g;
      for (int d = 0; d < N; ++d) {
        uvector<int, N> e;
        std::vector<real> v = derivative_(arr(), d, e);
        g(d) = hull(v, e, x);
      }
      return g;
    }
  };
}// namespace detail

template<int N> struct ImplicitPolyQuadrature
{
  detail::BernsteinPhi<N> phi;
  explicit ImplicitPolyQuadrature(const xarray<real, N> &p)
  {
    phi.c.assign(p.data(), p.data() + p.size());
    phi.ext = p.ext();
  }
  // Calls f(x, w) on both sides of the interface.
  template<typename F> void integrate(QuadStrategy, int q, const F &f)
  {
    struct Wrap
    {
      const F *f;
      void evalIntegrand(const uvector<real, N> &x, real w) { (*f)(x, w); }
    } wrap{ &f };
    const HyperRectangle<real, N> rect(uvector<real, N>(0.0), uvector<real, N>(1.0));
    std::array<PsiCode<N>, static_cast<std::size_t>(1 << (N - 1))> psi;
    const uvector<bool, N> free(true);
    for (const int s : { -1, 1 }) {
      psi[0] = PsiCode<N>(uvector<int, N>(0), s);
      ImplicitIntegral<N, N, detail::BernsteinPhi<N>, Wrap, false>(phi, wrap, free, psi, 1, rect, q);
    }
  }
  template<typename F> void integrate_surf(QuadStrategy, int q, const F &f)
  {
    struct Wrap
    {
      const F *f;
      const detail::BernsteinPhi<N> *phi;
      void evalIntegrand(const uvector<real, N> &x, real w)
      {
        uvector<real, N> g = phi->grad(x);
        const real n = norm(g);
        (*f)(x, w, n > 0 ? uvector<real, N>(g * (w / n)) : uvector<real, N>(0.0));
      }
    } wrap{ &f, &phi };
    const HyperRectangle<real, N> rect(uvector<real, N>(0.0), uvector<real, N>(1.0));
    std::array<PsiCode<N>, static_cast<std::size_t>(1 << (N - 1))> psi;
    const uvector<bool, N> free(true);
    psi[0] = PsiCode<N>(uvector<int, N>(0), -1);
    ImplicitIntegral<N, N, detail::BernsteinPhi<N>, Wrap, true>(phi, wrap, free, psi, 1, rect, q);
  }
};
}// namespace algoim
#endif
