// Closed forms: the quintic switch, Chebyshev polynomials, their derivatives.
#pragma once
#include <cmath>
typedef long double L;

struct Dom { L rc, rs; };
// The quintic that falls from 1 at rs to 0 at rc, and its derivative.
static L sw(const Dom& d, L r) { if (r < d.rs) return 1; if (r >= d.rc) return 0; L u = (r - d.rs) / (d.rc - d.rs); return 1 - u * u * u * (10 - 15 * u + 6 * u * u); }
static L dsw(const Dom& d, L r) { if (r < d.rs || r >= d.rc) return 0; L u = (r - d.rs) / (d.rc - d.rs); return -30 * u * u * (1 - u) * (1 - u) / (d.rc - d.rs); }
static L xi(const Dom& d, L r) { return (2 * r - d.rc - d.rs) / (d.rc - d.rs); }
static L T(int n, L x) { L a = 1, b = x; if (n == 0) return 1; for (int i = 1; i < n; i++) { L c = 2 * x * b - a; a = b; b = c; } return b; }
static L U(int n, L x) { L a = 1, b = 2 * x; if (n < 0) return 0; if (n == 0) return 1; for (int i = 1; i < n; i++) { L c = 2 * x * b - a; a = b; b = c; } return b; }
static L dT(int n, L x) { return n * U(n - 1, x); }      // T_n' = n U_{n-1}

