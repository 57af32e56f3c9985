#ifndef STANDIN_ALGOIM_BINOMIAL_HPP
#define STANDIN_ALGOIM_BINOMIAL_HPP
#include <map>
#include <vector>
namespace algoim {
class Binomial
{
public:
  static const double *row(int n)
  {
    static std::map<int, std::vector<double>> rows;
    auto &r = rows[n];
    if (r.empty()) {
      r.assign(static_cast<std::size_t>(n) + 1, 1.0);
      for (int k = 1; k <= n; ++k) r[static_cast<std::size_t>(k)] = r[static_cast<std::size_t>(k) - 1] * (n - k + 1) / k;
    }
    return r.data();
  }
  static double c(int n, int k) { return row(n)[k]; }
};
}// namespace algoim
#endif
