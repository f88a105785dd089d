// C04: cells, coordinates and supercells conserve the crystal.
#include "nbgen.h"
#include <iostream>
#include "nblist/include/binLinkedList.h"
using namespace vp;

template <class T> matersdk::Structure<T> make(const Sys& s, bool cart, bool ptr) {
    std::vector<int> z = s.z; std::vector<T> c(3 * s.n());
    T b[3][3];
    for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) b[i][k] = s.cell.a[i][k];
    for (int i = 0; i < s.n(); i++) for (int k = 0; k < 3; k++) c[3 * i + k] = cart ? s.pos[i][k] : s.frac[i][k];
    if (!ptr) return matersdk::Structure<T>(s.n(), b, z.data(), (T(*)[3])c.data(), cart);
    T* bp[3] = {b[0], b[1], b[2]}; std::vector<T*> cp; for (int i = 0; i < s.n(); i++) cp.push_back(&c[3 * i]);
    return matersdk::Structure<T>(s.n(), bp, z.data(), cp.data(), cart);
}
template <class T> void free2(T** p, int n) { for (int i = 0; i < n; i++) free(p[i]); free(p); }

template <class T> void geometry(const matersdk::Structure<T>& st, const Cell& c, const V3& org, double tol, const std::string& desc) {
    Mon& m = Mon::get();
    const T** b = st.get_basis_vectors();
    for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) m.check(close(b[i][k], c.a[i][k], tol, tol), "basis", desc);
    T* pl = st.get_projected_lengths(); T* ip = st.get_interplanar_distances();
    for (int k = 0; k < 3; k++) {
        double e = std::fabs(c.a[0][k]) + std::fabs(c.a[1][k]) + std::fabs(c.a[2][k]);
        m.check(close(pl[k], e, 10 * tol, 10 * tol), "projected-length", desc + fmt(" axis %d: %.9g expected %.9g", k, (double)pl[k], e));
        m.check(close(ip[k], c.height(k), 100 * tol, 100 * tol), "interplanar-distance", desc + fmt(" axis %d: %.9g expected %.9g", k, (double)ip[k], c.height(k)));
    }
    free(pl); free(ip);
    for (int k = 0; k < 3; k++) m.check(close(st.get_pseudo_origin()[k], org[k], 10 * tol, 10 * tol), "origin", desc + fmt(" axis %d %.9g expected %.9g", k, (double)st.get_pseudo_origin()[k], org[k]));
    T** v = st.get_vertexes();
    std::vector<char> used(8, 0);
    double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
    for (int q = 0; q < 8; q++) {
        V3 e = org + (double)(q & 1) * c.a[0] + (double)(q >> 1 & 1) * c.a[1] + (double)(q >> 2 & 1) * c.a[2];
        bool f = false;
        for (int w = 0; w < 8 && !f; w++) if (!used[w] && close(v[w][0], e[0], 20 * tol, 20 * tol) && close(v[w][1], e[1], 20 * tol, 20 * tol) && close(v[w][2], e[2], 20 * tol, 20 * tol)) { used[w] = 1; f = true; }
        m.check(f, "vertex-missing", desc);
        for (int k = 0; k < 3; k++) { lo[k] = std::min(lo[k], e[k]); hi[k] = std::max(hi[k], e[k]); }
    }
    free2(v, 8);
    T** l = st.get_limit_xyz();
    for (int k = 0; k < 3; k++) m.check(close(l[k][0], lo[k], 20 * tol, 20 * tol) && close(l[k][1], hi[k], 20 * tol, 20 * tol), "limits", desc + fmt(" axis %d [%.9g,%.9g] expected [%.9g,%.9g]", k, (double)l[k][0], (double)l[k][1], lo[k], hi[k]));
    free2(l, 3);
    m.hit("geometries");
}

// Every supercell atom must be home atom (index modulo the home count) plus one lattice translation, each translation of a
// contiguous block of the requested size exactly once, block containing the home cell.
template <class T> void copies(const matersdk::Structure<T>& st, const Sys& p, const int* sc, double tol, const std::string& desc) {
    Mon& m = Mon::get();
    int n = p.n(), tot = n * sc[0] * sc[1] * sc[2];
    if (!m.check(st.get_num_atoms() == tot, "atom-count", desc + fmt(" %d expected %d", st.get_num_atoms(), tot))) return;
    const T** x = st.get_cart_coords(); const int* z = st.get_atomic_numbers();
    std::set<std::array<int, 4>> seen; int lo[3] = {99, 99, 99}, hi[3] = {-99, -99, -99};
    for (int q = 0; q < tot; q++) {
        int j = q % n;
        if (!m.check(z[q] == p.z[j], "species", desc + fmt(" copy %d", q))) return;
        V3 f = p.cell.frac(V3{(double)x[q][0], (double)x[q][1], (double)x[q][2]} - p.pos[j]);
        std::array<int, 4> key; key[3] = j; double err = 0;
        for (int k = 0; k < 3; k++) { key[k] = (int)std::lround(f[k]); err = std::max(err, std::fabs(f[k] - key[k])); lo[k] = std::min(lo[k], key[k]); hi[k] = std::max(hi[k], key[k]); }
        if (!m.check(err < 1000 * tol, "copy-not-a-lattice-translation", desc + fmt(" copy %d offset (%.6f,%.6f,%.6f)", q, f[0], f[1], f[2]))) return;
        if (!m.check(seen.insert(key).second, "copy-duplicated", desc + fmt(" copy %d", q))) return;
        m.hit("copies");
    }
    for (int k = 0; k < 3; k++) m.check(hi[k] - lo[k] + 1 == sc[k] && lo[k] <= 0 && hi[k] >= 0, "block", desc + fmt(" axis %d [%d,%d]", k, lo[k], hi[k]));
}

// The bin of an atom: in range, and the box of that bin (its neighbours when the atom is on a face) holds the atom.
template <class T> void bins(const matersdk::Structure<T>& st, const Sys& s, Rng& r, double tol, const std::string& desc) {
    Mon& m = Mon::get(); bool pbc[3]; for (auto& p : pbc) p = r.p(0.6);
    double rc = r.u(0.3, 1.2) * std::min({s.cell.height(0), s.cell.height(1), s.cell.height(2)}); T bs[3]; for (auto& b : bs) b = rc * r.u(0.4, 1.3);
    bool dflt = r.p(0.3);
    auto bl = dflt ? matersdk::BinLinkedList<T>(st, (T)rc, pbc) : matersdk::BinLinkedList<T>(st, (T)rc, bs, pbc);
    const int* nb = bl.get_num_bin_xyz(); const T* lo = bl.get_min_limit_xyz(); const T* sz = bl.get_bin_size_xyz();
    for (int k = 0; k < 3; k++) m.check(close(sz[k], dflt ? rc / 2 : (double)bs[k], tol, tol), "bin-size", desc + fmt(" axis %d: %.9g", k, (double)sz[k]));
    auto& su = bl.get_supercell(); T** l = su.get_structure().get_limit_xyz();
    for (int k = 0; k < 3; k++) {
        m.check(close(lo[k], l[k][0], 20 * tol, 20 * tol), "bin-origin", desc + fmt(" axis %d: %.9g expected %.9g", k, (double)lo[k], (double)l[k][0]));
        m.check(nb[k] >= 1 && lo[k] + (double)nb[k] * sz[k] >= l[k][1] - 1000 * tol, "bins-cover-box", desc + fmt(" axis %d: %d bins of %.9g from %.9g to %.9g", k, nb[k], (double)sz[k], (double)lo[k], (double)l[k][1]));
    }
    free2(l, 3);
    for (int i = 0; i < s.n(); i++) {
        int b = bl.get_bin_idx(i);
        if (!m.check(b >= 0 && b < nb[0] * nb[1] * nb[2], "bin-range", desc + fmt(" atom %d bin %d of %d x %d x %d", i, b, nb[0], nb[1], nb[2]))) continue;
        int q[3] = {b % nb[0], b / nb[0] % nb[1], b / nb[0] / nb[1]};
        for (int k = 0; k < 3; k++) { double x = s.pos[i][k], a = lo[k] + q[k] * (double)sz[k], e = 1000 * tol * (1 + std::fabs(x)); bool in = (x >= a - e || q[k] == 0) && (x <= a + sz[k] + e || q[k] == nb[k] - 1); m.check(in, "bin-of-atom", desc + fmt(" atom %d axis %d at %.9g, bin [%.9g,%.9g)", i, k, x, a, a + (double)sz[k])); }
        m.hit("binned_atoms");
    }
}

template <class T> void one(Rng& r, double tol) {
    Mon& m = Mon::get();
    Sys s = gen_sys(r, 9);
    bool cart = r.p(0.5), ptr = r.p(0.5);
    int sc[3]; for (int k = 0; k < 3; k++) sc[k] = r.i(1, 5);
    if (s.n() <= 4 && r.p(0.08)) { sc[0] = sc[1] = sc[2] = r.i(1, 2); sc[r.i(0, 2)] = r.i(6, 24); }
    std::string desc = fmt("%s scaling=(%d,%d,%d) ", sizeof(T) == 4 ? "float" : "double", sc[0], sc[1], sc[2]) + s.str();
    m.begin(m.cur, desc.c_str());
    auto st = make<T>(s, cart, ptr);
    int n = s.n();
    m.check(st.get_num_atoms() == n, "num-atoms", desc);
    for (int i = 0; i < n; i++) {
        m.check(st.get_atomic_numbers()[i] == s.z[i], "species", desc);
        for (int k = 0; k < 3; k++) m.check(close(st.get_cart_coords()[i][k], s.pos[i][k], 10 * tol, 10 * tol), cart ? "cart-coords" : "frac-to-cart", desc + fmt(" atom %d", i));
    }
    geometry<T>(st, s.cell, {0, 0, 0}, tol, desc);
    { matersdk::Structure<T> home = st; Rng r2 = r; bins<T>(home, s, r2, tol, desc); }
    auto big = st;
    big.make_supercell(sc);
    copies<T>(big, s, sc, tol, desc);
    Cell bc = s.cell; V3 org = {0, 0, 0};
    for (int k = 0; k < 3; k++) { bc.a[k] = (double)sc[k] * s.cell.a[k]; int lo = sc[k] % 2 ? -(sc[k] - 1) / 2 : -sc[k] / 2 + 1; org = org + (double)lo * s.cell.a[k]; }
    geometry<T>(big, bc, org, tol, desc + " [supercell]");
    // the source is untouched
    m.check(st.get_num_atoms() == n && close(st.get_basis_vectors()[0][0], s.cell.a[0][0], tol, tol), "source-modified", desc);

    // all atoms that lie in the home cell stay inside the bounding box of the supercell, after one and after two scalings
    auto twice = big; int sc2[3] = {r.i(1, 2), r.i(1, 3), r.i(1, 2)};
    twice.make_supercell(sc2);
    for (auto* q : {&big, &twice}) {
        T** l = q->get_limit_xyz();
        bool in = true;
        for (int i = 0; i < q->get_num_atoms(); i++) for (int k = 0; k < 3; k++) { double x = q->get_cart_coords()[i][k]; if (x < l[k][0] - 100 * tol || x > l[k][1] + 100 * tol) in = false; }
        m.check(in, q == &big ? "atoms-outside-box" : "atoms-outside-box-rescaled", desc + fmt(" then (%d,%d,%d)", sc2[0], sc2[1], sc2[2]));
        free2(l, 3);
    }
    int scp[3] = {sc[0] * sc2[0], sc[1] * sc2[1], sc[2] * sc2[2]};
    copies<T>(twice, s, scp, 4 * tol, desc + fmt(" then (%d,%d,%d)", sc2[0], sc2[1], sc2[2]));
    for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) m.check(close(twice.get_basis_vectors()[i][k], scp[i] * s.cell.a[i][k], 10 * tol, 10 * tol), "basis-rescaled", desc);

    // supercell object: home atoms are where it says they are
    matersdk::Supercell<T> su(st, sc);
    copies<T>(su.get_structure(), s, sc, tol, desc);
    m.check(su.get_prim_num_atoms() == n && su.get_num_atoms() == n * sc[0] * sc[1] * sc[2], "supercell-counts", desc);
    bool odd = true, eq = true;
    for (int k = 0; k < 3; k++) {
        m.check(su.get_scaling_matrix()[k] == sc[k], "scaling", desc);
        int want = sc[k] % 2 ? (sc[k] - 1) / 2 : sc[k] / 2 - 1;
        m.check(su.get_prim_cell_idx_xyz()[k] == want, "home-cell-xyz", desc);
        odd &= sc[k] % 2 == 1;
    }
    (void)eq;
    // x-fastest and x-slowest numbering give the same home cell when every factor is odd
    int hx = su.get_prim_cell_idx_xyz()[0], hy = su.get_prim_cell_idx_xyz()[1], hz = su.get_prim_cell_idx_xyz()[2];
    bool same = hx + hy * sc[0] + hz * sc[0] * sc[1] == (hx * sc[1] + hy) * sc[2] + hz;
    bool at_home = true;
    for (int i = 0; i < n; i++) {
        int q = su.get_owned_atom_idxs()[i];
        if (!m.check(q >= 0 && q < su.get_num_atoms(), "owned-range", desc)) { at_home = false; break; }
        m.check(q == su.get_prim_cell_idx() * n + i, "owned-vs-cell-index", desc);
        for (int k = 0; k < 3; k++) if (!close(su.get_structure().get_cart_coords()[q][k], s.pos[i][k], 100 * tol, 100 * tol)) at_home = false;
    }
    m.check(at_home, same ? "home-atoms" : "home-atoms-even-unequal-scaling", desc);
    m.hit(odd ? "odd_supercells" : "even_supercells");
    m.sig(fmt("%s/%d%d%d/%d/%d%d", s.kind.c_str(), sc[0], sc[1], sc[2], n, cart, ptr));
    if (m.cur < 4) m.sample(desc);
}

int main(int argc, char** argv) {
    return Mon::get().run(argc, argv, [](Rng& r, long k) { if (k % 4 == 3) one<float>(r, 2e-6); else one<double>(r, 1e-11); });
}
