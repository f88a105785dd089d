// Closed forms of the MTP radial functions, moments and basis functions in long double.
#pragma once
#include "cheb.h"
#include <vector>
namespace vp {
typedef std::vector<L> Ten;                       // 3^nu components, row major
inline L q_n(int n, const Dom& d, L r) { return (r > 0 && r >= d.rs && r < d.rc) ? T(n, xi(d, r)) * sw(d, r) : 0; }
inline L dq_n(int n, const Dom& d, L r) { return (r > 0 && r >= d.rs && r < d.rc) ? dT(n, xi(d, r)) * 2 / (d.rc - d.rs) * sw(d, r) + T(n, xi(d, r)) * dsw(d, r) : 0; }
inline L len(const L* x) { return sqrtl(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]); }
inline Ten power(const L* x, int nu) { Ten t = {1}; for (int k = 0; k < nu; k++) { Ten o; for (L v : t) for (int c = 0; c < 3; c++) o.push_back(v * x[c]); t = o; } return t; }
inline L wdot(const Ten& a, const Ten& b) { L s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
// contracts the trailing dimensions of a with all of b
inline Ten contract(const Ten& a, const Ten& b) { if (a.size() < b.size()) { Ten o; for (L v : b) o.push_back(v * a[0]); return o; } Ten o(a.size() / b.size(), 0); for (size_t i = 0; i < o.size(); i++) for (size_t k = 0; k < b.size(); k++) o[i] += a[i * b.size() + k] * b[k]; return o; }
}
