// C05: every owning type has value semantics over arbitrary histories of construction, copy, assignment, move, mutation
// and destruction: a copy equals its source and is independent of it, assignment returns the target, nothing is freed
// twice, read after free, or left allocated. --args: one driver, the type is chosen by the case number.
#include "nbgen.h"
#include <iostream>
#include <fstream>
#include <memory>
#include "nblist/include/neighborList.h"
#include "descriptor/deepmd/include/se.h"
#include "descriptor/mtp/include/mtpMRadial.h"
#include "descriptor/mtp/include/mtpMRadial_de.h"
#include "descriptor/mtp/include/mtpLevel.h"
#include "descriptor/mtpr/include/basis.h"
#include "descriptor/mtpr/include/mtpParam.h"
using namespace vp;
using namespace matersdk;
typedef std::vector<double> Snap;

static void put(Snap& s, double x) { s.push_back(x); }
template <class T> Structure<T> mkst(Rng& r, int nmax) {
    Sys s = gen_sys(r, nmax); int n = s.n();
    T b[3][3]; std::vector<int> z = s.z; std::vector<T> c(3 * n);
    for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) b[i][k] = s.cell.a[i][k];
    for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) c[3 * i + k] = s.frac[i][k];
    return Structure<T>(n, b, z.data(), (T(*)[3])c.data(), false);
}
template <class T> double cutoff(Rng& r, const Structure<T>& s) {
    T* h = s.get_interplanar_distances(); double m = std::min(h[0], std::min(h[1], h[2])); free(h);
    return std::min(r.u(1.5, 4.0), 1.5 * m);
}
template <class T> void snap_st(Snap& o, const Structure<T>& s) {
    int n = s.get_num_atoms(); put(o, n); if (!n) return;
    for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) put(o, s.get_basis_vectors()[i][k]);
    for (int k = 0; k < 3; k++) put(o, s.get_pseudo_origin()[k]);
    for (int i = 0; i < n; i++) { put(o, s.get_atomic_numbers()[i]); for (int k = 0; k < 3; k++) put(o, s.get_cart_coords()[i][k]); }
}
template <class T> void snap_sc(Snap& o, const Supercell<T>& s) {
    snap_st(o, s.get_structure()); put(o, s.get_prim_num_atoms()); put(o, s.get_prim_cell_idx());
    for (int k = 0; k < 3; k++) { put(o, s.get_scaling_matrix()[k]); put(o, s.get_prim_cell_idx_xyz()[k]); }
    for (int i = 0; i < s.get_prim_num_atoms(); i++) put(o, s.get_owned_atom_idxs()[i]);
}
template <class T> void snap_bl(Snap& o, const BinLinkedList<T>& b) {
    snap_sc(o, b.get_supercell());
    for (int k = 0; k < 3; k++) { put(o, b.get_bin_size_xyz()[k]); put(o, b.get_num_bin_xyz()[k]); put(o, b.get_min_limit_xyz()[k]); }
    for (int i = 0; i < b.get_supercell().get_prim_num_atoms(); i++) {
        put(o, b.get_bin_idx(i)); for (int q : b.get_neigh_atoms(i)) put(o, q); put(o, -1);
    }
}
template <class T> void snap_nl(Snap& o, const NeighborList<T>& b) {
    put(o, b.get_num_center_atoms()); put(o, b.get_rcut()); snap_bl(o, b.get_binLinkedList());
    for (int i = 0; i < b.get_num_center_atoms(); i++) { for (int q : b.get_neighbor_lists()[i]) put(o, q); put(o, -1); }
}

struct Base { static const bool moves = true; static const bool self_move = false; };

template <class T> struct TrStructure : Base {
    typedef Structure<T> O; static const char* name() { return "Structure"; }
    static O* make(Rng& r) { return new O(mkst<T>(r, 5)); }
    static void snap(Snap& o, const O& x) { snap_st(o, x); }
    static void mutate(O& x, Rng& r) { int n = x.get_num_atoms(); if (n && n <= 40) { int s[3] = {r.i(1, 2), r.i(1, 2), r.i(1, 2)}; x.make_supercell(s); } }
};
template <class T> struct TrSupercell : Base {
    typedef Supercell<T> O; static const char* name() { return "Supercell"; }
    static O* make(Rng& r) { int s[3] = {r.i(1, 3), r.i(1, 3), r.i(1, 2)}; return new O(mkst<T>(r, 5), s); }
    static void snap(Snap& o, const O& x) { snap_sc(o, x); }
    static void mutate(O&, Rng&) {}
};
template <class T> struct TrBins : Base {
    typedef BinLinkedList<T> O; static const char* name() { return "BinLinkedList"; }
    static O* make(Rng& r) { auto s = mkst<T>(r, 4); bool p[3] = {r.p(.7), r.p(.7), r.p(.7)}; return new O(s, (T)cutoff(r, s), p); }
    static void snap(Snap& o, const O& x) { snap_bl(o, x); }
    static void mutate(O&, Rng&) {}
};
template <class T> struct TrNl : Base {
    typedef NeighborList<T> O; static const char* name() { return "NeighborList"; }
    static O* make(Rng& r) { auto s = mkst<T>(r, 4); bool p[3] = {r.p(.7), r.p(.7), r.p(.7)}; return new O(s, (T)cutoff(r, s), p, r.p(.5)); }
    static void snap(Snap& o, const O& x) { snap_nl(o, x); }
    static void mutate(O&, Rng&) {}
};
static const int ZS[4] = {3, 14, 29, 53};
template <class T> struct TrPair : Base {
    typedef deepPotSE::PairTildeR<T> O; static const char* name() { return "PairTildeR"; }
    static O* make(Rng& r) {
        auto s = mkst<T>(r, 4); bool p[3] = {true, true, true}; T rc = cutoff(r, s); bool sort = r.p(.5);
        int cz = s.get_atomic_numbers()[r.i(0, s.get_num_atoms() - 1)], nz = s.get_atomic_numbers()[r.i(0, s.get_num_atoms() - 1)];
        NeighborList<T> nl(s, rc, p, sort);
        if (r.p(.5)) return new O(nl, cz, nz, (T)(0.5 * rc));
        return new O(s, rc, p, sort, cz, nz, (T)(0.5 * rc));
    }
    static void snap(Snap& o, const O& x) {
        int a = x.get_num_center_atoms(), b = x.get_num_neigh_atoms(); put(o, a); put(o, b); if (!a) return;
        T*** g = x.generate(); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < 4; k++) put(o, g[i][j][k]);
        arrayUtils::free3dArray(g, a, b);
    }
    static void mutate(O&, Rng&) {}
};
template <class T> struct TrTilde : Base {
    typedef deepPotSE::TildeR<T> O; static const char* name() { return "TildeR"; }
    static O* make(Rng& r) {
        auto s = mkst<T>(r, 4); bool p[3] = {true, true, true}; T rc = cutoff(r, s); bool sort = r.p(.5);
        std::set<int> z(s.get_atomic_numbers(), s.get_atomic_numbers() + s.get_num_atoms());
        std::vector<int> c(z.begin(), z.end()), n = c; if (r.p(.3) && n.size() > 1) n.pop_back();
        NeighborList<T> nl(s, rc, p, sort);
        if (r.p(.5)) return new O(nl, c.size(), c.data(), n.size(), n.data(), (T)(0.5 * rc));
        return new O(s, rc, p, sort, c.size(), c.data(), n.size(), n.data(), (T)(0.5 * rc));
    }
    static void snap(Snap& o, const O& x) {
        int a = x.get_num_center_atoms(), b = x.get_num_neigh_atoms(); put(o, a); put(o, b); if (!a) return;
        T*** g = x.generate(); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < 4; k++) put(o, g[i][j][k]);
        arrayUtils::free3dArray(g, a, b);
    }
    static void mutate(O&, Rng&) {}
};
template <class T> struct TrCheb : Base {
    typedef mtp::ChebyshevPoly<T> O; static const char* name() { return "ChebyshevPoly"; }
    static O* make(Rng& r) { return new O(r.i(1, 9), (T)r.u(4, 6), (T)r.u(0.5, 2)); }
    static void snap(Snap& o, const O& x) { put(o, x.size()); for (int i = 0; i < x.size(); i++) { put(o, x.get_result()[i]); put(o, x.get_deriv2r()[i]); put(o, x.get_deriv2xi()[i]); } }
    static void mutate(O& x, Rng& r) { T d = r.u(0.2, 6.5); if (x.size()) x.build(d); }
};
template <class T> struct TrQ : Base {
    typedef mtp::MtpQ<T> O; static const char* name() { return "MtpQ"; }
    static O* make(Rng& r) { return new O(r.i(1, 9), (T)r.u(4, 6), (T)r.u(0.5, 2)); }
    static void snap(Snap& o, const O& x) { put(o, x.size()); for (int i = 0; i < x.size(); i++) { put(o, x.get_result()[i]); put(o, x.get_deriv2r()[i]); } }
    static void mutate(O& x, Rng& r) { T d = r.u(0.2, 6.5); if (x.size()) x.build(d); }
};
template <class T> struct TrRB : Base {
    typedef mtpr::RB_Chebyshev<T> O; static const char* name() { return "RB_Chebyshev"; }
    static O* make(Rng& r) { return new O(r.i(1, 9), (T)r.u(4, 6), (T)r.u(0.5, 2)); }
    static void snap(Snap& o, const O& x) { put(o, x.size()); put(o, x.rmax()); put(o, x.rmin()); for (int i = 0; i < x.size(); i++) { put(o, x.vals()[i]); put(o, x.ders2r()[i]); put(o, x.ders2uu()[i]); } }
    static void mutate(O& x, Rng& r) { double u = r.u(); if (x.size()) x.build(x.rmin() + (T)u * (x.rmax() - x.rmin())); }
};
template <class T> struct TrRQ : Base {
    typedef mtpr::RQ_Chebyshev<T> O; static const char* name() { return "RQ_Chebyshev"; }
    static O* make(Rng& r) { return new O(r.i(1, 9), (T)r.u(4, 6), (T)r.u(0.5, 2)); }
    static void snap(Snap& o, const O& x) { put(o, x.size()); put(o, x.rmax()); put(o, x.rmin()); for (int i = 0; i < x.size(); i++) { put(o, x.vals()[i]); put(o, x.ders2r()[i]); } }
    static void mutate(O& x, Rng& r) { double u = r.u(); if (x.size()) x.build(x.rmin() + (T)u * (x.rmax() - x.rmin())); }
};
template <class T> struct TrRBC : Base {
    typedef mtp::RadialBasisChebyshev<T> O; static const char* name() { return "RadialBasisChebyshev"; }
    static O* make(Rng& r) { return new O((T)r.u(4, 6), (T)r.u(0.5, 2), r.i(0, 9), (T)r.u(0.2, 6.5)); }
    static void snap(Snap& o, const O& x) {
        put(o, x.get_hmju()); put(o, x.get_rcut()); put(o, x.get_rji()); if (x.get_rcut() == 0) return;
        for (int i = 0; i <= x.get_hmju(); i++) { put(o, x.get_chebyshev_vals()[i]); put(o, x.get_chebyshev_ders()[i]); put(o, x.get_rb_vals()[i]); put(o, x.get_rb_ders()[i]); }
    }
    static void mutate(O&, Rng&) {}
};
struct TrPairC : Base {
    typedef mtp::MtpMCoeffPair O; static const char* name() { return "MtpMCoeffPair"; }
    static O* make(Rng& r) { return new O(r.i(0, 9), r.i(0, 9)); }
    static void snap(Snap& o, const O& x) { put(o, x.coeff_pair().first); put(o, x.coeff_pair().second); put(o, x.level()); }
    static void mutate(O&, Rng&) {}
};
struct TrCombs : Base {
    typedef mtp::MtpMCoeffPairCombs O; static const char* name() { return "MtpMCoeffPairCombs"; }
    static O* make(Rng& r) { return new O(r.i(0, 8)); }
    static void snap(Snap& o, const O& x) { put(o, x.max_level()); put(o, x.size()); for (auto& c : x.coeff_pair_combs()) { for (auto& p : c) { put(o, p.coeff_pair().first); put(o, p.coeff_pair().second); put(o, p.level()); } put(o, -1); } }
    static void mutate(O& x, Rng& r) { if (r.p(.3)) x._build(); }
};
struct TrParam : Base {
    typedef mtpr::MtpParam O; static const char* name() { return "MtpParam"; }
    static O* make(Rng& r) {
        int nb = r.i(1, 7), nt = r.p(.3) ? 0 : r.i(1, 6), ns = r.i(1, 5);
        { std::ofstream f("values.almtp"); for (int i = 0; i < 10; i++) f << "header\n";
          f << "alpha_moments_count = " << r.i(1, 40) << "\nalpha_index_basic_count = " << nb << "\nalpha_index_basic = {";
          for (int i = 0; i < nb; i++) { f << (i ? ", {" : "{"); for (int k = 0; k < 4; k++) f << (k ? ", " : "") << r.i(0, 9); f << "}"; }
          f << "}\nalpha_index_times_count = " << nt << "\nalpha_index_times = {";
          for (int i = 0; i < nt; i++) { f << (i ? ", {" : "{"); for (int k = 0; k < 4; k++) f << (k ? ", " : "") << r.i(10, 19); f << "}"; }
          f << "}\nalpha_scalar_moments = " << ns << "\nalpha_moment_mapping = {";
          for (int i = 0; i < ns; i++) f << (i ? ", " : "") << r.i(0, 30); f << "}\n"; }
        return new O("values.almtp");
    }
    static void snap(Snap& o, const O& x) {
        put(o, x.alpha_moments_count()); put(o, x.alpha_index_basic_count()); put(o, x.alpha_index_times_count()); put(o, x.alpha_scalar_moments());
        for (int i = 0; i < x.alpha_index_basic_count(); i++) for (int k = 0; k < 4; k++) put(o, x.alpha_index_basic()[i][k]);
        for (int i = 0; i < x.alpha_index_times_count(); i++) for (int k = 0; k < 4; k++) put(o, x.alpha_index_times()[i][k]);
        for (int i = 0; i < x.alpha_scalar_moments(); i++) put(o, x.alpha_moment_mapping()[i]);
    }
    static void mutate(O&, Rng&) {}
};

template <class X> void history(Rng r, std::string& log, bool report) {
    typedef typename X::O O;
    Mon& m = Mon::get();
    const int N = 4;
    std::unique_ptr<O> o[N]; Snap s[N]; int st[N] = {0};     // 0 empty, 1 live, 2 moved from
    int steps = r.i(6, 22);
    auto take = [&](const O& x) { Snap v; X::snap(v, x); return v; };
    for (int q = 0; q < steps; q++) {
        int a = r.i(0, N - 1), b = r.i(0, N - 1), op = r.i(0, 9);
        std::string what;
        bool la = st[a] != 0, lb = st[b] == 1;
        if (op == 0) { o[a].reset(new O()); s[a] = take(*o[a]); st[a] = 1; what = fmt("%d=default", a); }
        else if (op <= 2 || (!la && !lb)) { o[a].reset(X::make(r)); s[a] = take(*o[a]); st[a] = 1; what = fmt("%d=make", a); }
        else if (op == 3 && lb && a != b) { o[a].reset(new O(*o[b])); s[a] = s[b]; st[a] = 1; what = fmt("%d=copy(%d)", a, b); if (report) m.hit("copies"); }
        else if (op == 4 && lb && a != b && la) {
            if (m.begin(m.cur, (log + fmt("%d<-%d", a, b)).c_str()), true) {}
            O& ret = (*o[a] = *o[b]); s[a] = s[b]; st[a] = 1; what = fmt("%d<-%d", a, b);
            if (report) { m.hit("assignments"); m.check(&ret == o[a].get(), std::string(X::name()) + ":assignment-returns-other-object", log + what); }
        }
        else if (op == 5 && st[a] == 1) {
            m.begin(m.cur, (log + fmt("%d<-self", a)).c_str());
            O& alias = *o[a]; O& ret = (*o[a] = alias); what = fmt("%d<-self", a);
            if (report) { m.hit("self_assignments"); m.check(&ret == o[a].get(), std::string(X::name()) + ":assignment-returns-other-object", log + what); }
        }
        else if (op == 6 && st[a] == 1) { X::mutate(*o[a], r); s[a] = take(*o[a]); what = fmt("mutate(%d)", a); if (report) m.hit("mutations"); }
        else if (op == 7 && X::moves && lb && a != b) { m.begin(m.cur, (log + fmt("%d=move(%d)", a, b)).c_str()); o[a].reset(new O(std::move(*o[b]))); s[a] = s[b]; st[a] = 1; st[b] = 2; what = fmt("%d=move(%d)", a, b); if (report) m.hit("moves"); }
        else if (op == 8 && X::moves && lb && a != b && la) {
            m.begin(m.cur, (log + fmt("%d<=move(%d)", a, b)).c_str());
            O& ret = (*o[a] = std::move(*o[b])); s[a] = s[b]; st[a] = 1; st[b] = 2; what = fmt("%d<=move(%d)", a, b);
            if (report) { m.hit("moves"); m.check(&ret == o[a].get(), std::string(X::name()) + ":assignment-returns-other-object", log + what); }
        }
        else if (op == 9 && la) { o[a].reset(); st[a] = 0; what = fmt("drop(%d)", a); }
        else continue;
        log += what + " ";
        if (log.size() > 1500) log.erase(0, 500);
        m.begin(m.cur, log.c_str());
        if (report) for (int i = 0; i < N; i++) if (st[i] == 1) {
            Snap v = take(*o[i]);
            m.hit("snapshots");
            bool eq = v.size() == s[i].size() && std::equal(v.begin(), v.end(), s[i].begin(), [](double x, double y) { return x == y || (x != x && y != y); });
            if (!m.check(eq, std::string(X::name()) + ":value-changed", fmt("%s object %d after: ", X::name(), i) + log)) return;
        }
    }
    if (report) m.sig(std::string(X::name()) + log);
}
template <class X> void one(Rng& r) {
    Mon& m = Mon::get();
    std::string log = std::string(X::name()) + ": ";
    Rng c = r;
    history<X>(c, log, true);
    if (m.cur < 18) m.sample(log);
    m.hit(std::string("type_") + X::name());
    std::string l2 = std::string(X::name()) + ": "; l2.reserve(4096);
    leakcheck(std::string(X::name()) + ":leak", log, [&] { std::string l3; l3.reserve(4096); history<X>(c, l3, false); });
}
int main(int argc, char** argv) {
    return Mon::get().run(argc, argv, [](Rng& r, long k) {
        switch (k % 19) {
            case 0: one<TrStructure<double>>(r); break;   case 1: one<TrSupercell<double>>(r); break;
            case 2: one<TrBins<double>>(r); break;        case 3: one<TrNl<double>>(r); break;
            case 4: one<TrPair<double>>(r); break;        case 5: one<TrTilde<double>>(r); break;
            case 6: one<TrCheb<double>>(r); break;        case 7: one<TrQ<double>>(r); break;
            case 8: one<TrRB<double>>(r); break;          case 9: one<TrRQ<double>>(r); break;
            case 10: one<TrPairC>(r); break;              case 11: one<TrCombs>(r); break;
            case 12: one<TrParam>(r); break;              case 13: one<TrStructure<float>>(r); break;
            case 14: one<TrNl<float>>(r); break;          case 15: one<TrTilde<float>>(r); break;
            case 16: one<TrQ<float>>(r); break;           case 17: one<TrRBC<double>>(r); break;
                      default: one<TrRQ<float>>(r); break;
        }
    });
}
