#ifndef VP_ALGOIM_BINOMIAL_HPP
#define VP_ALGOIM_BINOMIAL_HPP
#include "real.hpp"
#include <map>
#include <mutex>
namespace algoim {
struct Binomial
{
  static const real *row(int n)
  {
    static std::mutex mtx;
    static std::map<int, std::vector<real>> rows;
    const std::lock_guard<std::mutex> lock(mtx);
    auto &r = rows[n];
    if (r.empty()) {
      r.resize(static_cast<std::size_t>(n) + 1);
      r[0] = 1;
      for (int k = 1; k <= n; ++k)
        r[static_cast<std::size_t>(k)] = std::round(r[static_cast<std::size_t>(k - 1)] * (n - k + 1) / k);
    }
    return r.data();
  }
};
}// namespace algoim
#endif
