// Stand-in of Algoim's quadratures of implicitly defined regions {phi < 0} of boxes. The contract it keeps is the one
// QUGaR builds on: points of the region (volume), of the level set (surface) or of a face of the box where phi <= 0,
// with weights that add up to the measure; a face or box without any piece of the boundary gets the plain tensor rule.
// It is exact for regions whose boundary lies on the lattice that cuts every box in standin::refine equal parts.
#ifndef STANDIN_ALGOIM_QUADRATURE_GENERAL_HPP
#define STANDIN_ALGOIM_QUADRATURE_GENERAL_HPP
#include <algoim/bernstein.hpp>
#include <algoim/hyperrectangle.hpp>
#include <algoim/interval.hpp>
#include <array>
#include <functional>
#include <vector>
namespace standin {
inline int refine = 2;
inline int surface_on_faces = 0;///< points of surface rules on faces of the box: 0 none, 1 seen from inside, 2 from either side
inline double tol = 1.0e-10;
}// namespace standin
namespace algoim {
template<int N> struct QuadratureRule
{
  struct Node
  {
    uvector<real, N> x;
    real w;
    Node(const uvector<real, N> &x_, real w_) : x(x_), w(w_) {}
  };
  std::vector<Node> nodes;
  void evalIntegrand(const uvector<real, N> &x, real w) { nodes.emplace_back(x, w); }
  [[nodiscard]] real sumWeights() const
  {
    real s = 0;
    for (const auto &n : nodes) s += n.w;
    return s;
  }
};
template<int N> class PsiCode
{
  uvector<int, N> sides_{};
  int sign_{ 0 };

public:
  PsiCode() = default;
  PsiCode(const uvector<int, N> &sides, int sign) : sides_(sides), sign_(sign) {}
  PsiCode(const PsiCode &code, int d, int side, int sign) : sides_(set_component<int, N>(code.sides_, d, side)), sign_(sign) {}
  [[nodiscard]] int side(int d) const { return sides_(d); }
  [[nodiscard]] int sign() const { return sign_; }
};
namespace detail {
  /// signs below and above a height function that is sought for the region (or surface, S) of the given sign
  template<bool S> void determineSigns(bool positive_above, int sign, int &bottom, int &top)
  {
    if (S) {
      bottom = positive_above ? -1 : 1;
      top = -bottom;
    } else if (sign == 1) {
      bottom = positive_above ? 0 : 1;
      top = positive_above ? 1 : 0;
    } else if (sign == -1) {
      bottom = positive_above ? -1 : 0;
      top = positive_above ? 0 : -1;
    } else
      bottom = top = 0;
  }
  /// roots of phi along direction d, at most one for functions that are monotone there
  template<typename F, int N>
  void rootFind(const F &phi, const uvector<real, N> &x, int d, real lo, real hi, std::vector<real> &roots, bool monotone)
  {
    const auto f = [&](real t) -> real { return phi(set_component<real, N>(x, d, t)); };
    const int parts = monotone ? 1 : 16;
    for (int k = 0; k < parts; ++k) {
      real l = lo + (hi - lo) * k / parts, r = lo + (hi - lo) * (k + 1) / parts;
      const real fl = f(l), fr = f(r);
      if ((fl > 0 && fr > 0) || (fl < 0 && fr < 0)) continue;
      if (fl == 0 && fr == 0 && !monotone) continue;// nowhere else than 0
      if (fl == 0) {
        if (k == 0) roots.push_back(l);
        if (monotone || fr != 0) continue;
      }
      if (fr == 0) {
        roots.push_back(r);
        continue;
      }
      for (int it = 0; it < 200; ++it) {
        const real c = 0.5 * (l + r);
        if (c <= l || c >= r) break;
        const real fc = f(c);
        if (fc == 0) {
          l = r = c;
          break;
        }
        ((fl < 0) == (fc < 0) ? l : r) = c;
      }
      roots.push_back(std::abs(f(l)) <= std::abs(f(r)) ? l : r);
    }
  }
}// namespace detail
namespace standin_detail {
  /// tensor midpoint rule of p points per free direction in the box
  template<int N, typename F>
  void tensor(const uvector<real, N> &lo, const uvector<real, N> &hi, const uvector<bool, N> &free, int p, F f)
  {
    uvector<int, N> ext(1);
    real w = 1;
    for (int d = 0; d < N; ++d)
      if (free(d)) {
        ext(d) = p;
        w *= (hi(d) - lo(d)) / p;
      }
    bernstein::each<N>(ext, [&](const uvector<int, N> &i) {
      uvector<real, N> x(lo);
      for (int d = 0; d < N; ++d)
        if (free(d)) x(d) = lo(d) + (hi(d) - lo(d)) * (i(d) + 0.5) / p;
      f(x, w);
    });
  }
  /// all parts of the box (or of its face, where not free)
  template<int N, typename F>
  void parts(const uvector<real, N> &lo, const uvector<real, N> &hi, const uvector<bool, N> &free, F f)
  {
    uvector<int, N> ext(1);
    for (int d = 0; d < N; ++d)
      if (free(d)) ext(d) = standin::refine;
    bernstein::each<N>(ext, [&](const uvector<int, N> &i) {
      uvector<real, N> a(lo), b(lo);
      for (int d = 0; d < N; ++d)
        if (free(d)) {
          const real h = (hi(d) - lo(d)) / ext(d);
          a(d) = lo(d) + h * i(d);
          b(d) = lo(d) + h * (i(d) + 1);
        }
      f(a, b, (a + b) * 0.5);
    });
  }
  template<int N, typename Phi, typename F>
  void region(const Phi &phi, const uvector<real, N> &lo, const uvector<real, N> &hi, const uvector<bool, N> &free, int p, F f)
  {
    bool on = false, in = false, out = false;
    parts<N>(lo, hi, free, [&](const auto &, const auto &, const auto &m) {
      const real v = phi(m);
      (std::abs(v) <= standin::tol ? on : v < 0 ? in : out) = true;
    });
    // level sets seen from both sides are no uniform piece
    bool both = false;
    if (on && !in && !out) {
      uvector<real, N> first(0.0);
      bool have = false;
      parts<N>(lo, hi, free, [&](const auto &, const auto &, const auto &m) {
        const auto g = phi.grad(m);
        if (have) both = both || dot(g, first) <= 0;
        first = g;
        have = true;
      });
    }
    if (on + in + out == 1 && !both) {
      if (!out) tensor<N>(lo, hi, free, p, f);
      return;
    }
    parts<N>(lo, hi, free, [&](const auto &a, const auto &b, const auto &m) {
      if (phi(m) <= standin::tol) tensor<N>(a, b, free, p, f);
    });
  }
  template<int N, typename Phi, typename F>
  void surface(const Phi &phi, const uvector<real, N> &lo, const uvector<real, N> &hi, int p, F f)
  {
    const auto val = [&](const uvector<real, N> &x) { return phi(x); };
    parts<N>(lo, hi, uvector<bool, N>(true), [&](const auto &a, const auto &b, const auto &m) {
      const real v = val(m);
      for (int d = 0; d < N; ++d) {
        const real h = b(d) - a(d);
        const auto piece = [&](real c) {
          uvector<bool, N> free(true);
          free(d) = false;
          tensor<N>(set_component(a, d, c), set_component(b, d, c), free, p, f);
        };
        if (m(d) + h < hi(d)) {
          real l = m(d), r = l + h;
          if ((v < 0) != (val(set_component(m, d, r)) < 0)) {
            for (int it = 0; it < 200; ++it) {
              const real c = 0.5 * (l + r);
              if (c <= l || c >= r) break;
              ((v < 0) == (val(set_component(m, d, c)) < 0) ? l : r) = c;
            }
            piece(r);
          }
        }
        if (standin::surface_on_faces == 2 || (standin::surface_on_faces == 1 && v < 0))
          for (const real c : { lo(d), hi(d) })
            if (std::abs(c - m(d)) < h && std::abs(val(set_component(m, d, c))) <= standin::tol) piece(c);
      }
    });
  }
}// namespace standin_detail
template<int M, int N, typename Phi, typename F, bool S> struct ImplicitIntegral
{
  template<typename Psi>
  ImplicitIntegral(const Phi &phi, F &f, const uvector<bool, N> &free, const Psi &psi, int n, const HyperRectangle<real, N> &box, int p)
  {
    assert(n == 1 && psi[0].sign() == -1);
    auto lo = box.min(), hi = box.max();
    int nfree = 0;
    for (int d = 0; d < N; ++d) {
      if (free(d)) ++nfree;
      else lo(d) = hi(d) = box.side(psi[0].side(d), d);
    }
    assert(nfree == M);
    const auto g = [&](const uvector<real, N> &x, real w) { f.evalIntegrand(x, w); };
    if constexpr (S) standin_detail::surface<N>(phi, lo, hi, p, g);
    else standin_detail::region<N>(phi, lo, hi, free, p, g);
  }
};
template<int N, typename Phi>
QuadratureRule<N> quadGen(const Phi &phi, const HyperRectangle<real, N> &box, int dim, int side, int p)
{
  QuadratureRule<N> q;
  std::array<PsiCode<N>, 1> psi;
  uvector<bool, N> free(true);
  if (0 <= dim && dim < N) {
    free(dim) = false;
    psi[0] = PsiCode<N>(set_component<int, N>(0, dim, side), -1);
    ImplicitIntegral<N - 1, N, Phi, QuadratureRule<N>, false>(phi, q, free, psi, 1, box, p);
  } else {
    psi[0] = PsiCode<N>(0, -1);
    if (dim == N) ImplicitIntegral<N, N, Phi, QuadratureRule<N>, true>(phi, q, free, psi, 1, box, p);
    else ImplicitIntegral<N, N, Phi, QuadratureRule<N>, false>(phi, q, free, psi, 1, box, p);
  }
  return q;
}
}// namespace algoim
#endif
