// Stand-in of Algoim's quadratures of the pieces in which a polynomial's level set cuts the unit box.
#ifndef STANDIN_ALGOIM_QUADRATURE_MULTIPOLY_HPP
#define STANDIN_ALGOIM_QUADRATURE_MULTIPOLY_HPP
#include <algoim/quadrature_general.hpp>
namespace algoim {
enum class QuadStrategy { AlwaysGL, AlwaysTS, AutoMixed };
template<int N> class ImplicitPolyQuadrature
{
  std::vector<real> coefs_;
  uvector<int, N> ext_;
  struct Poly
  {
    const xarray<real, N> &p;
    real operator()(const uvector<real, N> &x) const { return bernstein::evalBernsteinPoly(p, x); }
    uvector<real, N> grad(const uvector<real, N> &x) const { return bernstein::evalBernsteinPolyGradient(p, x); }
  };

public:
  explicit ImplicitPolyQuadrature(const xarray<real, N> &p) : coefs_(p.data(), p.data() + p.size()), ext_(p.ext()) {}
  template<typename F> void integrate(QuadStrategy, int q, F f)
  {
    const xarray<real, N> p(coefs_.data(), ext_);
    const Poly phi{ p };
    const uvector<real, N> lo(0.0), hi(1.0);
    const uvector<bool, N> free(true);
    bool in = false, out = false;
    standin_detail::parts<N>(lo, hi, free, [&](const auto &, const auto &, const auto &m) { (phi(m) < 0 ? in : out) = true; });
    if (in && out)
      standin_detail::parts<N>(lo, hi, free, [&](const auto &a, const auto &b, const auto &) { standin_detail::tensor<N>(a, b, free, q, f); });
    else standin_detail::tensor<N>(lo, hi, free, q, f);
  }
  template<typename F> void integrate_surf(QuadStrategy, int q, F f)
  {
    const xarray<real, N> p(coefs_.data(), ext_);
    const Poly phi{ p };
    standin_detail::surface<N>(phi, uvector<real, N>(0.0), uvector<real, N>(1.0), q, [&](const uvector<real, N> &x, real w) {
      auto n = phi.grad(x);
      n *= w / norm(n);
      f(x, w, n);
    });
  }
};
}// namespace algoim
#endif
