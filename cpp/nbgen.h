// Random periodic structures and an independent brute-force neighbour oracle.
#pragma once
#include "vp.h"
#include <array>

namespace vp {

typedef std::array<double, 3> V3;
inline V3 operator+(const V3& a, const V3& b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
inline V3 operator-(const V3& a, const V3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline V3 operator*(double s, const V3& b) { return {s * b[0], s * b[1], s * b[2]}; }
inline double dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V3 cross(const V3& a, const V3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline double norm(const V3& a) { return std::sqrt(dot(a, a)); }

struct Cell {
    V3 a[3];
    double volume() const { return dot(a[0], cross(a[1], a[2])); }
    double height(int k) const { return std::fabs(volume()) / norm(cross(a[(k + 1) % 3], a[(k + 2) % 3])); }
    V3 cart(const V3& f) const { return f[0] * a[0] + f[1] * a[1] + f[2] * a[2]; }
    V3 frac(const V3& c) const {
        double v = volume(); V3 r;
        for (int k = 0; k < 3; k++) r[k] = dot(c, cross(a[(k + 1) % 3], a[(k + 2) % 3])) / v;
        return r;
    }
};

struct Sys {
    Cell cell;
    std::vector<V3> frac, pos;   // pos: cartesian
    std::vector<int> z;
    std::string kind;
    int n() const { return (int)z.size(); }
    std::string str() const {
        std::string s = kind + " n=" + std::to_string(n()) + " cell=[";
        for (int i = 0; i < 3; i++) s += fmt("[%.6g,%.6g,%.6g]", cell.a[i][0], cell.a[i][1], cell.a[i][2]);
        s += "] frac=[";
        for (int i = 0; i < n() && i < 8; i++) s += fmt("%d:(%.6g,%.6g,%.6g)", z[i], frac[i][0], frac[i][1], frac[i][2]);
        return s + "]";
    }
};

inline void rotate(Cell& c, Rng& r) {
    // random rotation from a quaternion
    double q[4], m = 0;
    for (int i = 0; i < 4; i++) { q[i] = r.n(); m += q[i] * q[i]; }
    m = std::sqrt(m); for (int i = 0; i < 4; i++) q[i] /= m;
    double w = q[0], x = q[1], y = q[2], z = q[3];
    double R[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)},
                      {2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)},
                      {2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}};
    for (int i = 0; i < 3; i++) { V3 o = c.a[i]; for (int k = 0; k < 3; k++) c.a[i][k] = R[k][0] * o[0] + R[k][1] * o[1] + R[k][2] * o[2]; }
}

inline Cell gen_cell(Rng& r, std::string& kind, double lo = 2.5, double hi = 8) {
    Cell c; int t = r.i(0, 7);
    double a = r.u(lo, hi), b = r.u(lo, hi), d = r.u(lo, hi);
    for (int i = 0; i < 3; i++) c.a[i] = {0, 0, 0};
    c.a[0][0] = a; c.a[1][1] = b; c.a[2][2] = d;
    switch (t) {
    case 0: kind = "cubic"; c.a[1][1] = c.a[2][2] = a; break;
    case 1: kind = "ortho"; break;
    case 2: kind = "hex"; c.a[1] = {-a / 2, a * std::sqrt(3) / 2, 0}; break;
    case 3: kind = "mono"; c.a[2] = {d * r.u(-0.6, 0.6), 0, d}; break;
    case 4: kind = "tri"; c.a[1] = {b * r.u(-0.7, 0.7), b, 0}; c.a[2] = {d * r.u(-0.7, 0.7), d * r.u(-0.7, 0.7), d}; break;
    case 5: kind = "tri-rot"; c.a[1] = {b * r.u(-0.7, 0.7), b, 0}; c.a[2] = {d * r.u(-0.7, 0.7), d * r.u(-0.7, 0.7), d}; rotate(c, r); break;
    case 6: kind = "flat"; c.a[2][2] = r.u(1.2, 2.2); c.a[1] = {b * r.u(-0.3, 0.3), b, 0}; if (r.p(0.5)) rotate(c, r); break;
    default: kind = "left"; std::swap(c.a[0], c.a[1]); if (r.p(0.5)) c.a[2] = -1.0 * c.a[2]; if (r.p(0.5)) { c.a[1][0] *= 1; c.a[2][0] = d * r.u(-0.5, 0.5); } break;
    }
    return c;
}

// Smallest image distance of a new site to the sites already placed (27+ images); used to keep atoms apart.
inline bool far_enough(const Sys& s, const V3& f, double dmin) {
    for (int j = 0; j < s.n(); j++)
        for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) {
            V3 g = s.frac[j] - f; g[0] += x; g[1] += y; g[2] += z;
            if (norm(s.cell.cart(g)) < dmin) return false;
        }
    return true;
}

inline Sys gen_sys(Rng& r, int nmax, double dmin = 0.9, const std::vector<int>& species = {}) {
    Sys s; s.cell = gen_cell(r, s.kind);
    if (r.p(0.06)) { int k = r.i(0, 2); s.cell.a[k] = r.u(3, 8) * s.cell.a[k]; s.kind += "-long"; }   // slabs, wires, vacuum
    if (r.p(0.03)) { nmax = r.i(40, 90); for (int k = 0; k < 3; k++) s.cell.a[k] = r.u(1.3, 2.2) * s.cell.a[k]; s.kind += "-many"; }
    std::vector<int> sp = species;
    if (sp.empty()) { static const int pool[] = {1, 3, 6, 8, 14, 16, 24, 29, 42, 53, 79, 94}; int k = r.i(1, 3); for (int i = 0; i < k; i++) sp.push_back(pool[r.i(0, 11)]); }
    int n = r.p(0.15) ? 1 : r.i(1, nmax);
    static const double edge[] = {0.0, 0.5, 0.25, 1.0 / 3, 2.0 / 3, 0.75, 0.9999999, 1e-9};
    for (int t = 0; t < 60 * n && s.n() < n; t++) {
        V3 f;
        bool special = r.p(0.4);
        for (int k = 0; k < 3; k++) f[k] = special && r.p(0.7) ? edge[r.i(0, 7)] : r.u();
        if (s.n() > 0 && !far_enough(s, f, r.p(0.1) ? 0.15 : dmin)) continue;
        if (s.n() > 0 && r.p(0.03)) {         // a very short bond
            V3 e = {r.n(), r.n(), r.n()}; V3 c = s.cell.cart(s.frac[r.i(0, s.n() - 1)]) + (r.u(0.15, 0.8) / norm(e)) * e; V3 g = s.cell.frac(c);
            bool in = true; for (int k = 0; k < 3; k++) in = in && g[k] >= 0 && g[k] < 1;
            if (in && far_enough(s, g, 0.12)) f = g;
        }
        s.frac.push_back(f); s.z.push_back(sp[r.i(0, (int)sp.size() - 1)]);
    }
    for (auto& f : s.frac) s.pos.push_back(s.cell.cart(f));
    return s;
}

// Moves some atoms by whole lattice vectors along periodic directions: the same crystal, with atoms outside the home cell.
inline bool unwrap(Sys& s, Rng& r, const bool* pbc) {
    bool any = false;
    for (int i = 0; i < s.n(); i++) if (r.p(0.4)) for (int k = 0; k < 3; k++) if (pbc[k] && r.p(0.5)) { int q = r.p(0.8) ? (r.p(0.5) ? 1 : -1) : r.i(-3, 3); any |= q != 0; s.frac[i][k] += q; }
    for (int i = 0; i < s.n(); i++) s.pos[i] = s.cell.cart(s.frac[i]);
    if (any) s.kind += "-unwrapped";
    return any;
}

struct Nb { int j; V3 d; double r; bool maybe; };

// Every (atom, image) whose distance is below rcut; entries within tol of rcut are marked `maybe`.
inline std::vector<Nb> brute(const Sys& s, int i, double rcut, const bool* pbc, double tol, double dzero = 1e-6) {
    std::vector<Nb> o;
    for (int j = 0; j < s.n(); j++) {
        V3 f = s.cell.frac(s.pos[j] - s.pos[i]);
        int lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0};
        for (int k = 0; k < 3; k++) if (pbc[k]) { double w = rcut / s.cell.height(k) + 1e-6; lo[k] = (int)std::floor(-f[k] - w); hi[k] = (int)std::ceil(-f[k] + w); }
        for (int x = lo[0]; x <= hi[0]; x++) for (int y = lo[1]; y <= hi[1]; y++) for (int z = lo[2]; z <= hi[2]; z++) {
            if (j == i && !x && !y && !z) continue;
            V3 d = s.pos[j] - s.pos[i] + (double)x * s.cell.a[0] + (double)y * s.cell.a[1] + (double)z * s.cell.a[2];
            double q = norm(d);
            if (q >= rcut + tol || q < dzero) continue;
            o.push_back({j, d, q, q > rcut - tol});
        }
    }
    return o;
}

// Matches observed (home atom, displacement) pairs against the oracle. Returns "" or what is wrong.
inline std::string match(const std::vector<Nb>& want, const std::vector<std::pair<int, V3>>& got, double tol) {
    std::vector<char> used(want.size(), 0);
    for (auto& g : got) {
        int best = -1; bool dup = false;
        for (size_t w = 0; w < want.size(); w++) {
            if (want[w].j != g.first) continue;
            V3 e = want[w].d - g.second;
            if (std::fabs(e[0]) < tol && std::fabs(e[1]) < tol && std::fabs(e[2]) < tol) { if (used[w]) { dup = true; continue; } best = (int)w; break; }
        }
        if (best < 0) return fmt("%s: atom %d at displacement (%.6f, %.6f, %.6f) |d|=%.6f", dup ? "listed twice" : "listed but not a neighbour", g.first, g.second[0], g.second[1], g.second[2], norm(g.second));
        used[best] = 1;
    }
    for (size_t w = 0; w < want.size(); w++)
        if (!used[w] && !want[w].maybe) return fmt("missing: atom %d at displacement (%.6f, %.6f, %.6f) |d|=%.6f", want[w].j, want[w].d[0], want[w].d[1], want[w].d[2], want[w].r);
    return "";
}

}  // namespace vp
