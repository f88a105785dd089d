// C02: the exported tables (order, padding, symmetry, per-species maxima) describe the neighbour set faithfully.
#include "nbgen.h"
#include <iostream>
#include <memory>
#include "nblist/include/neighborList.h"
using namespace vp;

template <class T> matersdk::Structure<T> make(const Sys& s, bool cart) {
    T b[3][3]; std::vector<int> z = s.z; std::vector<T> c(3 * s.n());
    for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) b[i][k] = s.cell.a[i][k];
    for (int i = 0; i < s.n(); i++) for (int k = 0; k < 3; k++) c[3 * i + k] = cart ? s.pos[i][k] : s.frac[i][k];
    return matersdk::Structure<T>(s.n(), b, z.data(), (T(*)[3])c.data(), cart);
}

template <class T> void one(Rng& r, double tol) {
    Mon& m = Mon::get();
    Sys s = gen_sys(r, 12);
    bool pbc[3]; int pm = r.p(0.6) ? 7 : r.i(0, 7);
    for (int k = 0; k < 3; k++) pbc[k] = pm >> k & 1;
    double rcut = r.p(0.1) ? r.u(0.3, 0.8) : r.u(1.5, 6.5);
    double vol = std::fabs(s.cell.volume());
    while (4.19 * rcut * rcut * rcut / vol * s.n() > 250 && rcut > 1.0) rcut *= 0.8;
    if (sizeof(T) == 4) rcut = (float)rcut;
    int n = s.n();
    if (r.p(0.15)) unwrap(s, r, pbc);
    std::string desc = fmt("%s pbc=%d rcut=%.9g ", sizeof(T) == 4 ? "float" : "double", pm, rcut) + s.str();
    m.begin(m.cur, desc.c_str());
    auto st = make<T>(s, r.p(0.5));
    matersdk::NeighborList<T> un(st, (T)rcut, pbc, false), so(st, (T)rcut, pbc, true);

    // order and set equality
    auto& sc = so.get_binLinkedList().get_supercell();
    const T** xyz = sc.get_structure().get_cart_coords();
    int home = sc.get_prim_cell_idx() * n;
    for (int i = 0; i < n; i++) {
        auto a = un.get_neighbor_lists()[i], b = so.get_neighbor_lists()[i];
        double last = -1; bool mono = true;
        for (int q : b) {
            double d = 0; for (int k = 0; k < 3; k++) { double e = (double)xyz[q][k] - (double)xyz[home + i][k]; d += e * e; }
            d = std::sqrt(d);
            if (d < last - tol) mono = false;
            last = d;
        }
        m.check(mono, "sorted-not-nearest-first", desc + fmt(" centre %d", i));
        if (b.size() > 2) m.hit("sorted_lists");
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        m.check(a == b, "sort-changes-set", desc + fmt(" centre %d", i));
    }

    // export, for sorted and unsorted lists, table exactly wide enough or wider
    std::vector<std::vector<Nb>> want(n);
    int maxn = 0;
    for (int i = 0; i < n; i++) { want[i] = brute(s, i, rcut, pbc, tol); }
    for (int pass = 0; pass < 2; pass++) {
        auto& nl = pass ? so : un;
        maxn = 0;
        for (int i = 0; i < n; i++) maxn = std::max(maxn, (int)nl.get_neighbor_lists()[i].size());
        m.check(nl.get_max_num_neigh_atoms() == maxn, "max-neighbours", desc);
        int umax = maxn + (r.p(0.4) ? 0 : r.i(1, 9));
        if (umax == maxn) m.hit("exact_width_tables");
        int inum = -7, nghost = -7;
        std::unique_ptr<int[]> il(new int[n]), nn(new int[n]), fn(new int[(size_t)n * umax]), ty(new int[n]);
        std::unique_ptr<T[]> rc(new T[(size_t)n * umax * 3]);
        nl.find_info4mlff(inum, il.get(), nn.get(), fn.get(), rc.get(), ty.get(), nghost, umax);
        m.check(inum == n && nghost == 0, "counts", desc);
        std::vector<std::vector<std::pair<int, V3>>> got(n);
        for (int i = 0; i < n; i++) {
            m.check(il[i] == i, "ilist", desc);
            m.check(ty[i] == s.z[i], "types", desc + fmt(" atom %d type %d", i, ty[i]));
            if (!m.check(nn[i] >= 0 && nn[i] <= umax, "numneigh", desc)) return;
            for (int q = 0; q < umax; q++) {
                int j = fn[(size_t)i * umax + q]; T* d = &rc[((size_t)i * umax + q) * 3];
                if (q >= nn[i]) { m.hit("pad_slots"); m.check(j == -1 && d[0] == 0 && d[1] == 0 && d[2] == 0, "padding", desc + fmt(" centre %d slot %d", i, q)); continue; }
                if (!m.check(j >= 0 && j < n, "firstneigh-range", desc + fmt(" centre %d slot %d -> %d", i, q, j))) return;
                got[i].push_back({j, {(double)d[0], (double)d[1], (double)d[2]}});
            }
            std::string w = match(want[i], got[i], 20 * tol);
            m.check(w.empty(), "export-vs-geometry", desc + fmt(" centre %d: ", i) + w);
            if (pass) {
                double last = -1; bool mono = true;
                for (auto& g : got[i]) { double d = norm(g.second); if (d < last - 20 * tol) mono = false; last = d; }
                m.check(mono, "export-order", desc);
            }
            m.hit("rows");
        }
        // symmetry of the pair relation
        bool edge = false; for (auto& w : want) for (auto& x : w) edge |= x.maybe;
        if (!edge) for (int i = 0; i < n; i++) for (auto& g : got[i]) {
            bool f = false;
            for (auto& h : got[g.first]) if (h.first == i && norm(h.second + g.second) < 40 * tol) { f = true; break; }
            m.hit("pairs");
            if (!m.check(f, "pair-asymmetry", desc + fmt(" %d->%d (%.6f,%.6f,%.6f)", i, g.first, g.second[0], g.second[1], g.second[2]))) break;
        }
        // maxima per (centre species, neighbour species), including absent species
        std::set<int> zs(s.z.begin(), s.z.end()); zs.insert(118);
        for (int zc : zs) for (int zn : zs) {
            int best = 0;
            for (int i = 0; i < n; i++) if (s.z[i] == zc) { int c = 0; for (auto& g : got[i]) if (s.z[g.first] == zn) c++; best = std::max(best, c); }
            m.check(nl.get_max_num_neigh_atoms_ssss(zc, zn) == best, "max-per-species", desc + fmt(" centre Z=%d neigh Z=%d: %d, expected %d", zc, zn, nl.get_max_num_neigh_atoms_ssss(zc, zn), best));
            m.hit("species_maxima");
        }
    }
    m.sig(fmt("%s/%d/%d/%d", s.kind.c_str(), pm, n, maxn));
    if (m.cur < 4) m.sample(desc);
}

int main(int argc, char** argv) {
    return Mon::get().run(argc, argv, [](Rng& r, long k) { if (k % 4 == 3) one<float>(r, 2e-4); else one<double>(r, 1e-8); });
}
