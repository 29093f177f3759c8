// Boundary values of the number types.
#pragma once
#include <limits>
#include <vector>
template <class T> static std::vector<T> ints() { std::vector<T> v; auto mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max(); for (int k = 0; k < 3; k++) { v.push_back((T)(mn + k)); v.push_back((T)(mx - k)); v.push_back((T)k); v.push_back((T)-k); } v.push_back((T)(mn / 2)); v.push_back((T)(mx / 2)); v.push_back((T)(mx / 2 + 1)); v.push_back((T)100); v.push_back((T)-100); if (sizeof(T) >= 2) { v.push_back((T)0x100); v.push_back((T)0x0101); v.push_back((T)0xff); } if (sizeof(T) >= 4) { v.push_back((T)0x10000); v.push_back((T)-0x10000); v.push_back((T)0x10001); } if (sizeof(T) == 8) { v.push_back((T)0x100000000L); v.push_back((T)-0x100000000L); v.push_back((T)0x100000001L); v.push_back((T)0x7fffffffL); v.push_back((T)0x80000000L); v.push_back((T)0x20000000000001L); v.push_back((T)0x20000000000000L); } return v; }
template <class T> static std::vector<T> reals() { T e = std::numeric_limits<T>::epsilon(), m = std::numeric_limits<T>::max(), s = std::numeric_limits<T>::min(), d = std::numeric_limits<T>::denorm_min(), i = std::numeric_limits<T>::infinity(); std::vector<T> v = {0, (T)-0.0, 1, 1 + e, 1 - e / 2, (T)0.5, (T)0.25, (T)1.5, 2, 3, (T)1e9, (T)1e9 + 64, m, m / 2, s, d, e, i}; size_t n = v.size(); for (size_t k = 0; k < n; k++) v.push_back(-v[k]); return v; }
