// C01: every neighbour list is exactly the set of (atom, periodic image) pairs within the cutoff.
#include "nbgen.h"
#include <iostream>
#include "nblist/include/neighborList.h"
using namespace vp;

template <class T> matersdk::Structure<T> make(const Sys& s, bool cart) {
    T b[3][3]; std::vector<int> z = s.z; std::vector<T> c(3 * s.n());
    for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) b[i][k] = s.cell.a[i][k];
    for (int i = 0; i < s.n(); i++) for (int k = 0; k < 3; k++) c[3 * i + k] = cart ? s.pos[i][k] : s.frac[i][k];
    return matersdk::Structure<T>(s.n(), b, z.data(), (T(*)[3])c.data(), cart);
}

template <class T> void observe(Sys& s, matersdk::NeighborList<T>& nl, double rcut, const bool* pbc, double tol, const std::string& tag, const std::string& desc) {
    Mon& m = Mon::get();
    int n = s.n();
    if (!m.check(nl.get_num_center_atoms() == n, tag + ":centers", desc)) return;
    auto& sc = nl.get_binLinkedList().get_supercell();
    const T** xyz = sc.get_structure().get_cart_coords();
    const int* an = sc.get_structure().get_atomic_numbers();
    int tot = sc.get_num_atoms();
    int home = sc.get_prim_cell_idx() * n;
    for (int i = 0; i < n; i++) {
        V3 c = {(double)xyz[home + i][0], (double)xyz[home + i][1], (double)xyz[home + i][2]};
        V3 e = c - s.pos[i];
        m.check(norm(e) < 10 * tol && an[home + i] == s.z[i], tag + ":center-moved", desc + fmt(" centre %d", i));
        std::vector<std::pair<int, V3>> got;
        bool ok = true;
        for (int q : nl.get_neighbor_lists()[i]) {
            if (!m.check(q >= 0 && q < tot, tag + ":index-range", desc + fmt(" centre %d index %d", i, q))) { ok = false; break; }
            int j = q % n;
            if (!m.check(an[q] == s.z[j], tag + ":species", desc + fmt(" centre %d neighbour %d", i, q))) ok = false;
            V3 p = {(double)xyz[q][0], (double)xyz[q][1], (double)xyz[q][2]};
            got.push_back({j, p - c});
        }
        if (!ok) continue;
        auto want = brute(s, i, rcut, pbc, tol);
        std::string w = match(want, got, 10 * tol);
        m.hit("centers"); m.hit("pairs", got.size());
        if (got.empty()) m.hit("centers_without_neighbours");
        for (auto& g : got) if (g.first == i) { m.hit("self_image_pairs"); break; }
        m.check(w.empty(), tag, desc + fmt(" centre %d: ", i) + w);
    }
}

// A pair whose nearest contact along one axis lies one whole image beyond the number of whole cells in the cutoff: the cutoff
// is n cell heights and a little more, one atom lies on a face and the other just inside the opposite face.
bool shell_edge(Rng& r, Sys& s, int& axis, double& rcut, double eps) {
    int k = axis = r.i(0, 2), n = r.i(1, 3);
    s.frac.clear(); s.pos.clear(); s.z.clear();
    V3 nh = cross(s.cell.a[(k + 1) % 3], s.cell.a[(k + 2) % 3]); nh = (1 / norm(nh)) * nh;
    if (dot(nh, s.cell.a[k]) < 0) nh = -1.0 * nh;
    double h = s.cell.height(k); rcut = (n + eps) * h;
    V3 f = {r.u(), r.u(), r.u()}; f[k] = r.p(0.5) ? 0 : eps * r.u(0, 0.2);
    double down = (n + f[k] + eps * r.u(0.05, 0.6)) * h;
    V3 e = {r.n(), r.n(), r.n()}; e = e - dot(e, nh) * nh; e = (1 / norm(e)) * e;
    double side = 0.5 * r.u() * std::sqrt(std::max(0.0, rcut * rcut - down * down));
    V3 c = s.cell.cart(f) - down * nh + side * e + (double)(n + 1) * s.cell.a[k];
    V3 g = s.cell.frac(c);
    for (int q = 0; q < 3; q++) g[q] -= std::floor(g[q]);
    s.frac.push_back(f); s.z.push_back(r.p(0.5) ? 6 : 14);
    if (!far_enough(s, g, 0.12)) return false;
    s.frac.push_back(g); s.z.push_back(r.p(0.5) ? 6 : 8);
    if (r.p(0.5)) std::swap(s.frac[0], s.frac[1]);
    for (auto& q : s.frac) s.pos.push_back(s.cell.cart(q));
    return true;
}

template <class T> void one(Rng& r, const char* tn, double tol) {
    Mon& m = Mon::get();
    Sys s = gen_sys(r, 14);
    double fixed = 0; int axis = -1;
    if (r.p(0.06)) {                     // a thin cell: many image shells along one axis
        int q = r.i(0, 2); s = gen_sys(r, 2); double w = r.u(0.9, 1.6) / s.cell.height(q); s.cell.a[q] = w * s.cell.a[q];
        while (s.n() > 1) { s.frac.pop_back(); s.pos.pop_back(); s.z.pop_back(); }
        s.pos[0] = s.cell.cart(s.frac[0]); s.kind += "-thin"; axis = q; fixed = r.u(6, 11) * s.cell.height(q);
        m.hit("thin_cells");
    } else if (r.p(0.1)) {
        Sys t = s;
        if (shell_edge(r, t, axis, fixed, sizeof(T) == 4 ? r.u(2e-3, 2e-2) : std::pow(10.0, r.u(-5, -1.5)))) { t.kind += "-edge"; s = t; m.hit("shell_edges"); }
        else { fixed = 0; axis = -1; }
    }
    bool pbc[3]; int pm = r.i(0, 7); if (r.p(0.4)) pm = 7;
    if (axis >= 0) pm |= 1 << axis;
    for (int k = 0; k < 3; k++) pbc[k] = pm >> k & 1;
    double h = std::min({s.cell.height(0), s.cell.height(1), s.cell.height(2)});
    // cutoffs from a fraction of the cell to several cells (image shells), bounded so that the pair count stays moderate
    double rcut = r.p(0.3) ? r.u(0.8, 1.2) * h : r.p(0.3) ? r.u(1.2, 2.6) * h : r.u(1.0, 7.0);
    double vol = std::fabs(s.cell.volume());
    if (fixed > 0) rcut = fixed;
    else while (4.19 * rcut * rcut * rcut / vol * s.n() > 400 && rcut > 1.0) rcut *= 0.8;
    if (sizeof(T) == 4) rcut = (float)rcut;
    if (r.p(0.15) && unwrap(s, r, pbc)) m.hit("structures_with_atoms_outside");
    bool cart = r.p(0.5), sort = r.p(0.3);
    std::string desc = fmt("%s %s pbc=%d%d%d rcut=%.9g sort=%d coords=%s ", tn, s.kind.c_str(), pbc[0], pbc[1], pbc[2], rcut, sort, cart ? "cart" : "frac") + s.str();
    m.begin(m.cur, desc.c_str());
    matersdk::Structure<T> st = make<T>(s, cart);
    {
        matersdk::NeighborList<T> nl(st, (T)rcut, pbc, sort);
        m.check(nl.get_rcut() == (T)rcut, "rcut", desc);
        observe<T>(s, nl, rcut, pbc, tol, "default-bins", desc);
    }
    m.hit("default_bin_lists");
    if (r.p(0.6)) {
        T bs[3]; for (int k = 0; k < 3; k++) bs[k] = rcut * (r.p(0.3) ? r.u(0.8, 1.6) : r.u(0.3, 1.0));
        std::string d2 = desc + fmt(" bins=(%.4g,%.4g,%.4g)", (double)bs[0], (double)bs[1], (double)bs[2]);
        m.begin(m.cur, d2.c_str());
        matersdk::NeighborList<T> nl(st, (T)rcut, bs, pbc, sort);
        observe<T>(s, nl, rcut, pbc, tol, "custom-bins", d2);
        m.hit("custom_bin_lists");
    }
    double cap = 1; V3 ext = {0, 0, 0};
    for (int a = 0; a < 3; a++) for (int k = 0; k < 3; k++) ext[k] += std::fabs(s.cell.a[a][k]) * (pbc[a] ? 2 * std::ceil(rcut / s.cell.height(a)) + 1 : 1);
    for (int k = 0; k < 3; k++) cap *= ext[k] / rcut * 40;
    if (m.cur % 48 == 0 && cap < 3e7 && s.n() <= 6) {            // bins much smaller than the cutoff: many thousand neighbour bins
        T bs[3]; for (int k = 0; k < 3; k++) bs[k] = rcut / r.u(36, 42);
        std::string d2 = desc + fmt(" bins=(%.4g,%.4g,%.4g)", (double)bs[0], (double)bs[1], (double)bs[2]);
        m.begin(m.cur, d2.c_str());
        matersdk::NeighborList<T> nl(st, (T)rcut, bs, pbc, sort);
        observe<T>(s, nl, rcut, pbc, tol, "tiny-bins", d2);
        m.hit("tiny_bin_lists");
    }
    int img = 0; for (int k = 0; k < 3; k++) if (pbc[k]) img = std::max(img, (int)std::ceil(rcut / s.cell.height(k)));
    m.sig(fmt("%s/%s/%d/%d/%d/%d", tn, s.kind.c_str(), pm, img, s.n(), cart));
    m.hit(fmt("image_shells_%d", std::min(img, 4)));
    if (m.cur < 4) m.sample(desc);
}

// Atoms of a finite (non-periodic) system may lie on or beyond the faces of the box.
void boundary(Rng& r) {
    Mon& m = Mon::get();
    Sys s = gen_sys(r, 10);
    bool pbc[3] = {r.p(0.3), r.p(0.3), false};
    double rcut = r.u(1.5, 6);
    for (auto& f : s.frac) for (int k = 0; k < 3; k++) if (!pbc[k] && r.p(0.4)) f[k] = r.p(0.5) ? 1.0 : r.u(-0.3, 1.3);
    for (int i = 0; i < s.n(); i++) s.pos[i] = s.cell.cart(s.frac[i]);
    bool bad = false;
    for (int i = 0; i < s.n(); i++) for (int j = 0; j < i; j++)      // nor through a periodic face
        for (int x = -pbc[0]; x <= pbc[0]; x++) for (int y = -pbc[1]; y <= pbc[1]; y++)
            if (norm(s.pos[i] - s.pos[j] + (double)x * s.cell.a[0] + (double)y * s.cell.a[1]) < 0.12) bad = true;
    if (bad) return;
    if (r.p(0.5)) { // a cutoff that divides the box exactly
        rcut = 2 * s.cell.height(2) / r.i(2, 6);
    }
    std::string desc = fmt("boundary pbc=%d%d%d rcut=%.9g ", pbc[0], pbc[1], pbc[2], rcut) + s.str();
    m.begin(m.cur, desc.c_str());
    matersdk::NeighborList<double> nl(make<double>(s, true), rcut, pbc, false);
    observe<double>(s, nl, rcut, pbc, 1e-8, "boundary", desc);
    m.hit("boundary_lists");
    m.sig(fmt("boundary/%s/%d", s.kind.c_str(), s.n()));
}

int main(int argc, char** argv) {
    return Mon::get().run(argc, argv, [](Rng& r, long k) {
        if (k % 5 == 4) boundary(r);
        else if (k % 5 == 3) one<float>(r, "float", 2e-4);
        else one<double>(r, "double", 1e-8);
    });
}
