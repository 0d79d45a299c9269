// Clean-room stand-in for the parts of algoim that QUGaR uses (see /verif/DESIGN.md).
#ifndef VP_ALGOIM_REAL_HPP
#define VP_ALGOIM_REAL_HPP
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <limits>
#include <type_traits>
#include <utility>
#include <vector>
namespace algoim {
using real = double;
using std::abs;
using std::sqrt;
using std::sin;
using std::cos;
using std::pow;
using std::exp;
}// namespace algoim
#endif
