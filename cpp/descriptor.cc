// C07 (values) and C08 (derivatives, -DDERIV) of the DeepPot-SE environment matrix in every C++ implementation:
// PairTildeR / TildeR objects, their static (LAMMPS) forms, Se4pw and EnvMatrix, against the closed form in long double.
#include "nbgen.h"
#include "env.h"
#include <iostream>
#include <limits>
#include <memory>
#include "nblist/include/neighborList.h"
#include "descriptor/deepmd/include/se.h"
#include "descriptor/deepmd/include/se4pw.h"
#include "descriptor/deepmd/include/envMatrix.h"
using namespace vp;
using namespace matersdk;
using namespace matersdk::deepPotSE;
// One expected table: rows (centres) x slots; a slot holds a displacement or nothing.
struct Table {
    int rows = 0, cols = 0; std::vector<char> used; std::vector<std::array<L, 3>> d;
    void shape(int r, int c) { rows = r; cols = c; used.assign((size_t)r * c, 0); d.assign((size_t)r * c, {0, 0, 0}); }
    void put(int r, int c, const L* x) { used[(size_t)r * cols + c] = 1; for (int k = 0; k < 3; k++) d[(size_t)r * cols + c][k] = x[k]; }
};
template <class F> struct Judge {
    Env e; std::string ctx;
    // get(r, c, k) returns component k of slot (r, c); comps is 4 or 12
    template <class G> void table(const std::string& tag, const Table& t, bool deriv, L sign, G get) {
        Mon& m = Mon::get(); int n = deriv ? 12 : 4;
        for (int r = 0; r < t.rows; r++) for (int c = 0; c < t.cols; c++) {
            size_t q = (size_t)r * t.cols + c;
            Val v; Der g; L tol = 0;
            if (t.used[q]) { if (deriv) g = e.der(t.d[q].data()); else v = e.val(t.d[q].data()); tol = e.tol(t.d[q].data(), deriv); m.hit("slots_filled"); } else m.hit("slots_padding");
            for (int k = 0; k < n; k++) {
                L want = t.used[q] ? (deriv ? sign * g[k] : v[k]) : 0; F got = get(r, c, k);
                if (!(fabsl((L)got - want) <= tol)) {
                    m.fail(tag + (t.used[q] ? "" : ":padding"), ctx + fmt(" row %d slot %d component %d (displacement %.9g %.9g %.9g): got %.12g, expected %.12g", r, c, k,
                           (double)t.d[q][0], (double)t.d[q][1], (double)t.d[q][2], (double)got, (double)want));
                    return;
                }
            }
        }
        m.hit("tables"); m.hit("table_" + tag);
    }
};
#ifdef DERIV
static const bool DV = true;
#else
static const bool DV = false;
#endif

template <class F> void object_case(Rng& r, const char* ty) {
    Mon& m = Mon::get();
    std::vector<int> pool = {3, 6, 8, 14, 42, 16};
    int nsp = r.i(1, 3); std::vector<int> sp; for (int i = 0; i < nsp; i++) sp.push_back(pool[r.i(0, 5)]);
    Sys s = gen_sys(r, 5, 0.9, sp); int n = s.n();
    double h = std::min(s.cell.height(0), std::min(s.cell.height(1), s.cell.height(2)));
    F rc = (F)std::min(r.u(1.6, 4.2), 1.8 * h), rs = r.p(0.05) ? (F)0 : rc * (F)r.u(0.05, 0.95);
    bool pbc[3] = {r.p(.8), r.p(.8), r.p(.8)}; bool sort = r.p(.5);
    F b[3][3]; std::vector<F> c(3 * n);
    for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) b[i][k] = s.cell.a[i][k];
    for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) c[3 * i + k] = s.frac[i][k];
    Structure<F> st(n, b, s.z.data(), (F(*)[3])c.data(), false);
    NeighborList<F> nl(st, rc, pbc, sort);
    const auto& sc = nl.get_binLinkedList().get_supercell();
    const F** x = sc.get_structure().get_cart_coords(); const int* z = sc.get_structure().get_atomic_numbers();
    int off = sc.get_prim_cell_idx() * sc.get_prim_num_atoms();
    // species lists: a random order of the species present, sometimes with one absent from the structure or one left out
    std::set<int> S(s.z.begin(), s.z.end()); std::vector<int> C(S.begin(), S.end()), N = C;
    for (size_t i = C.size(); i > 1; i--) std::swap(C[i - 1], C[r.i(0, i - 1)]);
    for (size_t i = N.size(); i > 1; i--) std::swap(N[i - 1], N[r.i(0, i - 1)]);
    if (r.p(.15)) N.insert(N.begin() + r.i(0, N.size()), 92);
    if (r.p(.15)) C.insert(C.begin() + r.i(0, C.size()), 92);
    if (N.size() > 1 && r.p(.15)) N.pop_back();
    if (C.size() > 1 && r.p(.15)) C.pop_back();
    auto count = [&](int i, int nz) { int k = 0; for (int j : nl.get_neighbor_lists()[i]) k += z[j] == nz; return k; };
    std::vector<int> width(N.size(), 0);
    for (size_t q = 0; q < N.size(); q++) for (int i = 0; i < n; i++) width[q] = std::max(width[q], count(i, N[q]));
    bool given = r.p(.5); std::vector<int> w = width; if (given) for (auto& k : w) k += r.p(.3) ? 0 : r.i(0, 6);
    auto expect = [&](const std::vector<int>& C, const std::vector<int>& N, const std::vector<int>& w) {
        Table t; int rows = 0, cols = 0; for (int cz : C) for (int i = 0; i < n; i++) rows += s.z[i] == cz; for (int q : w) cols += q;
        t.shape(rows, cols); int row = 0;
        for (int cz : C) for (int i = 0; i < n; i++) {
            if (s.z[i] != cz) continue;
            int st0 = 0;
            for (size_t q = 0; q < N.size(); q++) { int k = 0; for (int j : nl.get_neighbor_lists()[i]) if (z[j] == N[q]) { L d[3]; for (int a = 0; a < 3; a++) d[a] = (F)(x[j][a] - x[off + i][a]); t.put(row, st0 + k++, d); } st0 += w[q]; }
            row++;
        }
        return t;
    };
    Judge<F> J; J.e = {rc, rs, std::numeric_limits<F>::epsilon()};
    J.ctx = fmt("%s rcut=%.9g rsmooth=%.9g pbc=%d%d%d sort=%d ", ty, (double)rc, (double)rs, pbc[0], pbc[1], pbc[2], sort) + s.str();
    if (m.cur < 3) m.sample(J.ctx);
    // the neighbour displacements behind the table are those of the crystal
    {
        double tol = sizeof(F) == 4 ? 2e-4 : 1e-8;
        for (int i = 0; i < n; i++) {
            std::vector<std::pair<int, V3>> got;
            for (int j : nl.get_neighbor_lists()[i]) got.push_back({j % n, V3{x[j][0] - x[off + i][0], x[j][1] - x[off + i][1], x[j][2] - x[off + i][2]}});
            std::string e = match(brute(s, i, rc, pbc, tol), got, 4 * tol);
            m.check(e.empty(), "object:neighbours", J.ctx + " centre " + std::to_string(i) + ": " + e);
        }
    }
    Table t = expect(C, N, w);
    std::unique_ptr<TildeR<F>> o; bool froms = r.p(.5);
    if (given) { if (froms) o.reset(new TildeR<F>(st, rc, pbc, sort, C.size(), C.data(), N.size(), N.data(), w.data(), rs)); else o.reset(new TildeR<F>(nl, C.size(), C.data(), N.size(), N.data(), w.data(), rs)); }
    else { if (froms) o.reset(new TildeR<F>(st, rc, pbc, sort, C.size(), C.data(), N.size(), N.data(), rs)); else o.reset(new TildeR<F>(nl, C.size(), C.data(), N.size(), N.data(), rs)); }
    if (!m.check(o->get_num_center_atoms() == t.rows && o->get_num_neigh_atoms() == t.cols, "TildeR:shape", J.ctx + fmt(": %d x %d, expected %d x %d", o->get_num_center_atoms(), o->get_num_neigh_atoms(), t.rows, t.cols))) return;
    if (r.p(.3)) { TildeR<F> cp(*o); o.reset(new TildeR<F>(cp)); m.hit("from_copy"); }
    auto doT = [&](TildeR<F>& q) {
        if (DV) { F**** g = q.deriv(); J.table("TildeR:deriv", t, true, -1, [&](int a, int b, int k) { return g[a][b][k / 3][k % 3]; }); arrayUtils::free4dArray(g, t.rows, t.cols, 4); }
        else { F*** g = q.generate(); J.table("TildeR:value", t, false, 1, [&](int a, int b, int k) { return g[a][b][k]; }); arrayUtils::free3dArray(g, t.rows, t.cols); }
    };
    doT(*o);
    if (m.cur % 8 == 0) leakcheck("TildeR:leak", J.ctx, [&] { if (DV) arrayUtils::free4dArray(o->deriv(), t.rows, t.cols, 4); else arrayUtils::free3dArray(o->generate(), t.rows, t.cols); });
    // one species pair
    int cz = C[r.i(0, C.size() - 1)], nz = N[r.i(0, N.size() - 1)], mx = 0;
    for (int i = 0; i < n; i++) if (s.z[i] == cz) mx = std::max(mx, count(i, nz));
    int extra = r.i(0, 4), pw = given ? mx + extra : mx;
    std::unique_ptr<PairTildeR<F>> p;
    if (given) { if (froms) p.reset(new PairTildeR<F>(st, rc, pbc, sort, cz, nz, pw, rs)); else p.reset(new PairTildeR<F>(nl, cz, nz, pw, rs)); }
    else { if (froms) p.reset(new PairTildeR<F>(st, rc, pbc, sort, cz, nz, rs)); else p.reset(new PairTildeR<F>(nl, cz, nz, rs)); }
    Table pt = expect({cz}, {nz}, {pw});
    m.check(p->get_max_num_neigh_atoms() == mx, "PairTildeR:maximum", J.ctx + fmt(": maximum %d, expected %d for %d-%d", p->get_max_num_neigh_atoms(), mx, cz, nz));
    if (!m.check(p->get_num_center_atoms() == pt.rows && p->get_num_neigh_atoms() == pt.cols, "PairTildeR:shape", J.ctx + fmt(": %d x %d, expected %d x %d", p->get_num_center_atoms(), p->get_num_neigh_atoms(), pt.rows, pt.cols))) return;
    if (DV) { F**** g = p->deriv(); J.table("PairTildeR:deriv", pt, true, -1, [&](int a, int b, int k) { return g[a][b][k / 3][k % 3]; }); arrayUtils::free4dArray(g, pt.rows, pt.cols, 4); }
    else { F*** g = p->generate(); J.table("PairTildeR:value", pt, false, 1, [&](int a, int b, int k) { return g[a][b][k]; }); arrayUtils::free3dArray(g, pt.rows, pt.cols); }
    m.sig(s.kind + fmt("%s%d/%d%d%d/%d%d%d/%zu%zu/%d/%d", ty, n, pbc[0], pbc[1], pbc[2], sort, given, froms, C.size(), N.size(), t.cols, pt.cols));
}

// Neighbour tables as another program (LAMMPS, PWmat) would hand them over: arbitrary order, atoms beyond the cutoff, species not asked for.
template <class F> void table_case(Rng& r, const char* ty) {
    Mon& m = Mon::get();
    F rc = (F)r.u(2, 6), rs = r.p(0.05) ? (F)0 : rc * (F)r.u(0.05, 0.95);
    bool big = r.p(.06); int na = big ? r.i(40, 150) : r.i(2, 40), ntypes = r.i(1, big ? 6 : 4); double box = r.u(1.5, 4);
    std::vector<int> Z = {3, 8, 14, 42, 16, 53}; for (int i = 5; i > 0; i--) std::swap(Z[i], Z[r.i(0, i)]);
    std::vector<F> x(3 * na); std::vector<int> ty0(na), zz(na); std::vector<F*> xp(na);
    for (int i = 0; i < na; i++) {
        for (int k = 0; k < 3; k++) x[3 * i + k] = (F)r.u(-box, box);
        if (i && r.p(.1)) for (int k = 0; k < 3; k++) x[3 * i + k] = x[3 * (i - 1) + k] + (k == r.i(0, 2) ? rc : 0);    // near the cutoff, on an axis
        if (i && r.p(.06)) for (int k = 0; k < 3; k++) x[3 * i + k] = x[3 * (i - 1) + k];                              // coincident atoms
        if (i && r.p(.06)) { for (int k = 0; k < 3; k++) x[3 * i + k] = x[3 * (i - 1) + k]; x[3 * i + r.i(0, 2)] += rs; }
        ty0[i] = r.i(0, ntypes - 1); zz[i] = Z[ty0[i]]; xp[i] = &x[3 * i];
    }
    int inum = r.i(1, std::min(na, big ? 40 : 6)); std::vector<int> il(na); for (int i = 0; i < na; i++) il[i] = i;
    bool ident = r.p(.4); if (!ident) for (int i = na - 1; i > 0; i--) std::swap(il[i], il[r.i(0, i)]);
    il.resize(inum);
    std::vector<std::vector<int>> fn(inum); std::vector<int> nn(inum); std::vector<int*> fp(inum);
    for (int i = 0; i < inum; i++) {
        for (int j = 0; j < na; j++) if (j != il[i] && !r.p(.15)) fn[i].push_back(j);
        if (r.p(.1)) fn[i].clear();
        for (int j = (int)fn[i].size() - 1; j > 0; j--) std::swap(fn[i][j], fn[i][r.i(0, j)]);
        nn[i] = fn[i].size(); fp[i] = fn[i].data();
    }
    Judge<F> J; J.e = {rc, rs, std::numeric_limits<F>::epsilon()};
    J.ctx = fmt("%s rcut=%.9g rsmooth=%.9g atoms=%d inum=%d types=%d ilist0=%d", ty, (double)rc, (double)rs, na, inum, ntypes, il[0]);
    auto diff = [&](int i, int j, L* d) { for (int k = 0; k < 3; k++) d[k] = (F)(x[3 * j + k] - x[3 * i + k]); };
    // --- static TildeR: subset and order of species are free
    {
        std::vector<int> C(Z.begin(), Z.begin() + ntypes), N = C;
        for (size_t i = C.size(); i > 1; i--) { std::swap(C[i - 1], C[r.i(0, i - 1)]); std::swap(N[i - 1], N[r.i(0, i - 1)]); }
        if (C.size() > 1 && r.p(.3)) C.pop_back(); if (N.size() > 1 && r.p(.3)) N.pop_back();
        std::vector<int> w(N.size(), 0);
        for (size_t q = 0; q < N.size(); q++) { for (int i = 0; i < inum; i++) { int k = 0; for (int j : fn[i]) k += zz[j] == N[q]; w[q] = std::max(w[q], k); } w[q] += r.p(.4) ? 0 : r.i(0, 5); }
        int cols = 0, rows = 0; for (int q : w) cols += q; for (int cz : C) for (int i : il) rows += zz[i] == cz;
        Table t; t.shape(rows, cols); int row = 0;
        for (int cz : C) for (int i = 0; i < inum; i++) {
            if (zz[il[i]] != cz) continue;
            int s0 = 0; for (size_t q = 0; q < N.size(); q++) { int k = 0; for (int j : fn[i]) if (zz[j] == N[q]) { L d[3]; diff(il[i], j, d); t.put(row, s0 + k++, d); } s0 += w[q]; }
            row++;
        }
#define ARGS inum, il.data(), nn.data(), fp.data(), xp.data(), zz.data(), (int)C.size(), C.data(), (int)N.size(), N.data(), w.data(), rc, rs
        auto val = [&] { return TildeR<F>::generate(ARGS); };
        auto der = [&] { return TildeR<F>::deriv(ARGS); };
        if (!DV) {
            F*** g = val(); J.table("TildeR-static:value", t, false, 1, [&](int a, int b, int k) { return g[a][b][k]; }); arrayUtils::free3dArray(g, rows, cols);
            F*** f = arrayUtils::allocate3dArray<F>(rows, cols, 4, true); for (int a = 0; a < rows; a++) for (int b = 0; b < cols; b++) for (int k = 0; k < 4; k++) f[a][b][k] = 777;
            TildeR<F>::generate(f, ARGS); J.table("TildeR-filling:value", t, false, 1, [&](int a, int b, int k) { return f[a][b][k]; });
            if (m.cur % 8 == 0) { leakcheck("TildeR-static:leak", J.ctx, [&] { arrayUtils::free3dArray(val(), rows, cols); }); leakcheck("TildeR-filling:leak", J.ctx, [&] { TildeR<F>::generate(f, ARGS); }); }
            arrayUtils::free3dArray(f, rows, cols);
        } else {
            F**** g = der(); J.table("TildeR-static:deriv", t, true, -1, [&](int a, int b, int k) { return g[a][b][k / 3][k % 3]; });
            // the derivative is the slope of the code's own values
            if (rows && sizeof(F) == 8) {
                int i = r.i(0, inum - 1), c = r.i(0, 2); F h = 1e-5, keep = x[3 * il[i] + c]; int row2 = -1, rr = 0;
                for (int cz : C) for (int q = 0; q < inum; q++) if (zz[il[q]] == cz) { if (q == i) row2 = rr; rr++; }
                if (row2 >= 0) {
                    x[3 * il[i] + c] = keep + h; F*** a = val(); x[3 * il[i] + c] = keep - h; F*** b = val(); x[3 * il[i] + c] = keep;
                    for (int q = 0; q < cols; q++) {
                        L* d = t.d[(size_t)row2 * cols + q].data(); L rr2 = sqrtl(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
                        if (!t.used[(size_t)row2 * cols + q] || rr2 < 0.5 || (rc - rs) < 0.5) continue;
                        for (int k = 0; k < 4; k++) {
                            double num = (a[row2][q][k] - b[row2][q][k]) / (2 * h), ana = g[row2][q][k][c]; m.hit("slopes");
                            if (!close(num, ana, 1e-3, 2e-3)) { m.fail("TildeR-static:slope", J.ctx + fmt(" row %d slot %d component %d: derivative %.9g, slope of the values %.9g", row2, q, k, ana, num)); break; }
                        }
                    }
                    arrayUtils::free3dArray(a, rows, cols); arrayUtils::free3dArray(b, rows, cols);
                }
            }
            arrayUtils::free4dArray(g, rows, cols, 4);
            F**** f = arrayUtils::allocate4dArray<F>(rows, cols, 4, 3, true); for (int a = 0; a < rows; a++) for (int b = 0; b < cols; b++) for (int k = 0; k < 12; k++) f[a][b][k / 3][k % 3] = 777;
            TildeR<F>::deriv(f, ARGS); J.table("TildeR-filling:deriv", t, true, -1, [&](int a, int b, int k) { return f[a][b][k / 3][k % 3]; });
            if (m.cur % 8 == 0) { leakcheck("TildeR-static:leak", J.ctx, [&] { arrayUtils::free4dArray(der(), rows, cols, 4); }); leakcheck("TildeR-filling:leak", J.ctx, [&] { TildeR<F>::deriv(f, ARGS); }); }
            arrayUtils::free4dArray(f, rows, cols, 4);
        }
        int cz = C[0], nz = N[0]; Table pt; int pr = 0; for (int i : il) pr += zz[i] == cz; pt.shape(pr, w[0]); row = 0;
        for (int i = 0; i < inum; i++) { if (zz[il[i]] != cz) continue; int k = 0; for (int j : fn[i]) if (zz[j] == nz) { L d[3]; diff(il[i], j, d); pt.put(row, k++, d); } row++; }
        if (!DV) { F*** g = PairTildeR<F>::generate(inum, il.data(), nn.data(), fp.data(), xp.data(), zz.data(), cz, nz, w[0], rc, rs); J.table("PairTildeR-static:value", pt, false, 1, [&](int a, int b, int k) { return g[a][b][k]; }); arrayUtils::free3dArray(g, pr, w[0]); }
        else { F**** g = PairTildeR<F>::deriv(inum, il.data(), nn.data(), fp.data(), xp.data(), zz.data(), cz, nz, w[0], rc, rs); J.table("PairTildeR-static:deriv", pt, true, -1, [&](int a, int b, int k) { return g[a][b][k / 3][k % 3]; }); arrayUtils::free4dArray(g, pr, w[0], 4); }
    }
    // --- Se4pw and EnvMatrix: flat tables, species 0..ntypes-1
    std::vector<int> w(ntypes, 0); for (int q = 0; q < ntypes; q++) { for (int i = 0; i < inum; i++) { int k = 0; for (int j : fn[i]) k += ty0[j] == q; w[q] = std::max(w[q], k); } w[q] += r.p(.4) ? 0 : r.i(0, 5); }
    int tot = 0; for (int q : w) tot += q;
    if (tot == 0) return;
    std::vector<int> flat((size_t)inum * tot, -1); std::vector<F> rel((size_t)inum * tot * 3, 0);
    Table t; t.shape(inum, tot); std::vector<int> prim((size_t)inum * tot, -1);
    for (int i = 0; i < inum; i++) {
        std::vector<int> k(ntypes, 0);
        for (int j = 0; j < nn[i]; j++) {
            int q = fn[i][j], s0 = 0; for (int u = 0; u < ty0[q]; u++) s0 += w[u];
            L d[3]; diff(il[i], q, d); flat[(size_t)i * tot + j] = q; for (int c = 0; c < 3; c++) rel[((size_t)i * tot + j) * 3 + c] = d[c];
            int slot = s0 + k[ty0[q]]++; t.put(i, slot, d); prim[(size_t)i * tot + slot] = q % inum;
        }
    }
    std::vector<F> tr((size_t)inum * tot * 4, 777), td((size_t)inum * tot * 12, 777), rc2((size_t)inum * tot * 3, 777); std::vector<int> pi((size_t)inum * tot, 777);
    auto se4 = [&] { Se4pw<F>::generate(tr.data(), td.data(), rc2.data(), inum, il.data(), nn.data(), flat.data(), x.data(), ty0.data(), ntypes, w.data(), rc, rs); };
    se4();
    if (DV) J.table("Se4pw:deriv", t, true, -1, [&](int a, int b, int k) { return td[((size_t)a * tot + b) * 12 + k]; });
    else {
        J.table("Se4pw:value", t, false, 1, [&](int a, int b, int k) { return tr[((size_t)a * tot + b) * 4 + k]; });
        bool ok = true; for (int a = 0; a < inum && ok; a++) for (int b = 0; b < tot && ok; b++) for (int k = 0; k < 3; k++) ok = ok && rc2[((size_t)a * tot + b) * 3 + k] == (F)t.d[(size_t)a * tot + b][k];
        m.check(ok, "Se4pw:relative-coords", J.ctx);
        Se4pw<F>::get_prim_indices_from_matersdk(pi.data(), inum, il.data(), nn.data(), flat.data(), ty0.data(), ntypes, w.data());
        m.check(pi == prim, "Se4pw:home-indices", J.ctx);
        if (m.cur % 8 == 0) { leakcheck("Se4pw:leak", J.ctx, se4); leakcheck("Se4pw:leak", J.ctx, [&] { Se4pw<F>::get_prim_indices_from_matersdk(pi.data(), inum, il.data(), nn.data(), flat.data(), ty0.data(), ntypes, w.data()); }); }
    }
    std::fill(tr.begin(), tr.end(), (F)777); std::fill(td.begin(), td.end(), (F)777);
    auto env = [&] { EnvMatrix<F>::find_value_deriv(tr.data(), td.data(), inum, il.data(), nn.data(), flat.data(), rel.data(), ty0.data(), ntypes, w.data(), rc, rs); };
    env();
    if (DV) J.table("EnvMatrix:deriv", t, true, 1, [&](int a, int b, int k) { return td[((size_t)a * tot + b) * 12 + k]; });
    else J.table("EnvMatrix:value", t, false, 1, [&](int a, int b, int k) { return tr[((size_t)a * tot + b) * 4 + k]; });
    if (m.cur % 8 == 0) leakcheck("EnvMatrix:leak", J.ctx, env);
    m.sig(fmt("%s/%d/%d/%d/%d/%d/%.2f", ty, na, inum, ntypes, tot, ident, (double)(rs / rc)));
    if (m.cur < 6) m.sample(J.ctx);
}
int main(int argc, char** argv) {
    return Mon::get().run(argc, argv, [](Rng& r, long k) {
        switch (k % 6) { case 0: case 3: object_case<double>(r, "double"); break; case 1: case 4: table_case<double>(r, "double"); break; case 2: object_case<float>(r, "float"); break; default: table_case<float>(r, "float"); }
    });
}
