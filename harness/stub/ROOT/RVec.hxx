#pragma once
#include <vector>
namespace ROOT::VecOps {
template <typename T>
using RVec = std::vector<T>;
}
