// Closed form of the DeepPot environment matrix row and its derivative with respect to the displacement.
#pragma once
#include <array>
#include <cmath>
typedef long double L;
typedef std::array<L, 4> Val; typedef std::array<L, 12> Der;   // Der: d value[a] / d displacement[b] at 3a+b

struct Env {
    L rc, rs, eps;
    void f(L r, L& v, L& d) const {
        if (r < rs) { v = 1; d = 0; return; } if (r >= rc) { v = 0; d = 0; return; }
        L u = (r - rs) / (rc - rs); v = 1 - u * u * u * (10 - 15 * u + 6 * u * u); d = -30 * u * u * (1 - u) * (1 - u) / (rc - rs);
    }
    Val val(const L* d) const {
        L r = sqrtl(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]), v, g; Val o = {0, 0, 0, 0}; if (r == 0) return o;
        f(r, v, g); o[0] = v / r; for (int k = 0; k < 3; k++) o[k + 1] = v * d[k] / (r * r); return o;
    }
    Der der(const L* d) const {
        L r = sqrtl(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]), v, g; Der o; o.fill(0); if (r == 0) return o;
        f(r, v, g); L n[3] = {d[0] / r, d[1] / r, d[2] / r};
        for (int b = 0; b < 3; b++) o[b] = (g - v / r) * n[b] / r;
        for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) o[3 * (a + 1) + b] = (g - v / r) * n[a] * n[b] / r + v / r * ((a == b) - n[a] * n[b]) / r;
        return o;
    }
    L tol(const L* d, bool deriv) const {
        L r = sqrtl(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]); if (r == 0) return 0;
        L w = rc - rs, e = 200 * eps * (1 + r / w) / r;
        return deriv ? e * (1 / r + 8 / w) : e;
    }
};
