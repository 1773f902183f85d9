#pragma once
// standard headers some sources rely on transitively (they get them through gcc's OpenMP/algorithm headers)
#ifdef __cplusplus
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <functional>
#include <memory>
#include <numeric>
#include <optional>
#include <string>
#include <vector>
#endif
