// C12: MTP moments and basis functions: closed form, gradients, invariance, batch independence.
#include "torchutil.h"
#include "mtporacle.h"
#include <iostream>
#include <limits>
#include "descriptor/mtp/include/mtpMModule.h"
#include "descriptor/mtp/include/mtpBModule.h"
using namespace vp;
using namespace matersdk::mtp;
typedef std::array<L, 3> P3;
struct Atom { int centre; std::vector<int> nb; std::vector<P3> x; };     // nb: index into types, -1 = empty slot

struct Model {
    int nmus, nt, size; Dom d; std::vector<std::vector<L>> c;             // c[mu*nt*nt + zi*nt + zj][k]
    Ten moment(int mu, int nu, int zi, const Atom& a, const std::vector<int>& ty, Ten* mag = nullptr) const {
        size_t N = 1; for (int k = 0; k < nu; k++) N *= 3; Ten t(N, 0); if (mag) mag->assign(1, 0);
        for (size_t j = 0; j < a.nb.size(); j++) {
            if (a.nb[j] < 0) continue;
            L R = len(a.x[j].data()), f = 0, fm = 0; auto& q = c[mu * nt * nt + zi * nt + ty[a.nb[j]]];
            for (int k = 0; k < size; k++) { L v = q[k] * q_n(k, d, R); f += v; fm += fabsl(q[k]) * (R > 0 && R >= d.rs && R < d.rc); }
            Ten p = power(a.x[j].data(), nu); for (size_t i = 0; i < N; i++) t[i] += f * p[i];
            if (mag) (*mag)[0] += fm * powl(R, nu);
        }
        return t;
    }
    L basis(const std::vector<MtpMCoeffPair>& cb, int zi, const Atom& a, const std::vector<int>& ty, L* mag = nullptr) const {
        Ten p = {1}; if (mag) *mag = 1;
        for (auto& cp : cb) { Ten g; p = contract(p, moment(cp.coeff_pair().first, cp.coeff_pair().second, zi, a, ty, &g)); if (mag) *mag *= g[0] + 1e-30L; }
        return p[0];
    }
};
static P3 pt(Rng& r, const Dom& d, bool outside) {
    L R; int t = r.i(0, 9);
    if (outside && t == 0) R = d.rs * r.u(0.3, 0.97); else if (outside && t == 1) R = d.rc * r.u(1.01, 1.5); else R = d.rs + (d.rc - d.rs) * r.u(0.03, 0.98);
    L v[3], s = 0; for (int c = 0; c < 3; c++) { v[c] = r.n(); s += v[c] * v[c]; } P3 o; for (int c = 0; c < 3; c++) o[c] = (double)(R * v[c] / sqrtl(s)); return o;
}
static void randrot(Rng& r, L M[3][3], bool flip) {
    Mon::get(); L q[4], s = 0; for (auto& v : q) { v = r.n(); s += v * v; } s = sqrtl(s); for (auto& v : q) v /= s; L w = q[0], x = q[1], y = q[2], z = q[3];
    L R[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)}, {2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)}, {2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}};
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M[i][j] = flip ? -R[i][j] : R[i][j];
}
template <class F> struct Case {
    Rng& r; const char* ty; L eps; std::string ctx;
    Case(Rng& r, const char* t) : r(r), ty(t), eps(std::numeric_limits<F>::epsilon()) {}
    Model model; at::Tensor rcuts;
    void setup(int nmus) {
        model.nt = r.i(1, r.p(.1) ? 5 : 3); model.size = r.p(.05) ? r.i(9, 16) : r.i(1, 8); model.nmus = nmus; F rc = (F)r.u(2.5, 6), rs = r.p(0.05) ? (F)0 : rc * (F)r.u(0.1, 0.7); model.d = Dom{rc, rs};
        rcuts = fill<F>({2}, stype<F>(), [&](int64_t i) { return i ? rs : rc; });
    }
    bool take(const std::vector<at::Tensor>& ps) {
        if ((int)ps.size() != model.nmus * model.nt * model.nt) return false;
        torch::NoGradGuard g;
        for (auto& p : ps) { if (p.numel() != model.size) return false; at::Tensor v = fill<F>({model.size}, stype<F>(), [&](int64_t) { return (F)r.u(-1, 1); }); const_cast<at::Tensor&>(p).copy_(v); model.c.push_back({}); for (int k = 0; k < model.size; k++) model.c.back().push_back(v.data_ptr<F>()[k]); }
        return true;
    }
    void moments() {
        Mon& m = Mon::get(); setup(r.i(1, 4)); MtpMModule mod(model.nmus, model.nt, model.size, rcuts); mod->to(stype<F>());
        std::vector<at::Tensor> ps = mod->parameters();
        if (!m.check(take(ps), "moment:parameters", fmt("%zu coefficient vectors for %d radial functions and %d species", ps.size(), model.nmus, model.nt))) return;
        bool big = r.p(.06); int na = r.i(2, big ? 40 : 9); std::vector<int> ty_; for (int i = 0; i < na; i++) ty_.push_back(r.i(0, model.nt - 1));
        int mu = r.i(0, model.nmus - 1), nu = r.i(0, 4), n = r.p(.05) ? 0 : r.i(1, big ? 50 : 9), ci = r.i(0, na - 1); Atom a; a.centre = ci; int pad = r.p(.4) ? r.i(1, 3) : 0;
        for (int j = 0; j < n; j++) { a.nb.push_back(r.i(0, na - 1)); P3 p = pt(r, model.d, true); for (auto& v : p) v = (F)v; a.x.push_back(p); }
        for (int j = 0; j < pad; j++) { a.nb.push_back(-1); a.x.push_back({0, 0, 0}); }
        int tot = n + pad; std::string how;
        auto mk = [&](const Atom& q) { return fill<F>({(int64_t)q.x.size(), 3}, stype<F>(), [&](int64_t i) { return q.x[i / 3][i % 3]; }); };
        at::Tensor fn = fill<int64_t>({tot}, torch::kInt64, [&](int64_t i) { return a.nb[i]; }), tt = fill<int64_t>({na}, torch::kInt64, [&](int64_t i) { return ty_[i]; });
        if (tot) { fn = layout(fn, r, how); } tt = layout(tt, r, how);
        at::Tensor xs = tot ? layout(mk(a), r, how).detach() : mk(a); xs.requires_grad_(true);
        ctx = fmt("%s moment mu=%d nu=%d species=%d size=%d neighbours=%d+%d rcut=%.6g rsmooth=%.6g layouts=%s", ty, mu, nu, model.nt, model.size, n, pad, (double)model.d.rc, (double)model.d.rs, how.c_str());
        at::Tensor o = mod->forward(mu, nu, ci, fn, tt, xs); std::vector<int64_t> sh(nu, 3); Ten mag, want = model.moment(mu, nu, ty_[ci], a, ty_, &mag); size_t N = want.size();
        if (!m.check(o.sizes() == at::IntArrayRef(sh) && o.scalar_type() == stype<F>(), "moment:shape", ctx)) return;
        at::Tensor v = o.detach().contiguous(); L scale = mag[0] * (model.size * model.size + 4) * (model.d.rc / (model.d.rc - model.d.rs) + 4), tol = 100 * eps * scale + 1e-30L;
        for (size_t i = 0; i < N; i++) if (!m.check(fabsl(v.data_ptr<F>()[i] - want[i]) <= tol, "moment:value", ctx + fmt(" element %zu: %.9g, expected %.9g", i, (double)v.data_ptr<F>()[i], (double)want[i]))) return;
        m.hit("moments"); m.hit(fmt("moment_rank_%d", nu));
        if (tot) {
            Ten w; for (size_t i = 0; i < N; i++) w.push_back((F)r.u(-1, 1));
            at::Tensor W = fill<F>(sh, stype<F>(), [&](int64_t i) { return w[i]; }); (o * W).sum().backward();
            at::Tensor g = xs.grad().contiguous(); L w0 = model.d.rc - model.d.rs, gt = tol * N * (1 + 8 * (model.size * model.size + 1) / w0 + (nu + 1) / model.d.rs);
            for (int j = 0; j < tot; j++) for (int c = 0; c < 3; c++) {
                L G = 0; if (a.nb[j] >= 0) { Atom one; one.nb = {a.nb[j]}; one.x = {a.x[j]}; L h = 1e-5L; P3 k = one.x[0]; one.x[0][c] = k[c] + h; L f1 = wdot(w, model.moment(mu, nu, ty_[ci], one, ty_)); one.x[0][c] = k[c] - h; L f0 = wdot(w, model.moment(mu, nu, ty_[ci], one, ty_)); G = (f1 - f0) / (2 * h); }
                L got = g.data_ptr<F>()[3 * j + c]; m.hit("gradients");
                if (!m.check(fabsl(got - G) <= gt + 1e-6L * (1 + scale), "moment:gradient", ctx + fmt(" slot %d component %d: %.9g, expected %.9g", j, c, (double)got, (double)G))) return;
            }
            // moments are linear in the coefficients, and only those of the pairs present take part
            for (int q = 0; q < (int)ps.size(); q++) for (int k = 0; k < model.size; k++) {
                L G = 0; for (int j = 0; j < n; j++) if (q == mu * model.nt * model.nt + ty_[ci] * model.nt + ty_[a.nb[j]]) { L R = len(a.x[j].data()); G += q_n(k, model.d, R) * wdot(w, power(a.x[j].data(), nu)); }
                L got = ps[q].grad().defined() ? (L)ps[q].grad().contiguous().data_ptr<F>()[k] : 0; m.hit("coefficient_gradients");
                if (!m.check(fabsl(got - G) <= 100 * eps * N * (k * k + 4) * (n + 1) * (model.d.rc / w0 + 4) * powl(model.d.rc, nu), "moment:coefficient-gradient", ctx + fmt(" coefficient %d/%d: %.9g, expected %.9g", q, k, (double)got, (double)G))) return;
            }
        }
        m.sig(ctx); if (m.cur < 4) m.sample(ctx);
    }
    void basis() {
        Mon& m = Mon::get(); int level = r.i(2, m.thorough ? 12 : 9); MtpMCoeffPairCombs combs(level); setup(combs.nmus());
        MtpBModule mod(level, model.nt, model.size, rcuts); mod->to(stype<F>()); std::vector<at::Tensor> ps = mod->parameters();
        if (!m.check(take(ps), "basis:parameters", fmt("level %d: %zu coefficient vectors", level, ps.size()))) return;
        bool big = level < 7 && r.p(.1); int B = r.i(1, big ? 4 : 2), nc = r.i(1, big ? 4 : 2), na = r.i(nc, big ? 12 : 6), um = r.i(1, big ? 9 : 5); bool shared = r.p(.4); int nb = combs.size();
        std::vector<std::vector<int>> ty_(B); std::vector<std::vector<Atom>> at_(B);
        for (int b = 0; b < B; b++) {
            for (int i = 0; i < na; i++) ty_[b].push_back(shared && b ? ty_[0][i] : r.i(0, model.nt - 1));
            for (int i = 0; i < nc; i++) { Atom a; a.centre = r.i(0, na - 1); int n = r.i(r.p(.1) ? 0 : 1, um); for (int j = 0; j < um; j++) { if (j < n) { a.nb.push_back(r.i(0, na - 1)); P3 p = pt(r, model.d, true); for (auto& v : p) v = (F)v; a.x.push_back(p); } else { a.nb.push_back(-1); a.x.push_back({0, 0, 0}); } } at_[b].push_back(a); }
        }
        std::string how;
        auto mkx = [&](const std::vector<std::vector<Atom>>& s) { return fill<F>({(int64_t)s.size(), nc, um, 3}, stype<F>(), [&](int64_t i) { return s[i / (nc * um * 3)][i / (um * 3) % nc].x[i / 3 % um][i % 3]; }); };
        auto mkf = [&](const std::vector<std::vector<Atom>>& s) { return fill<int64_t>({(int64_t)s.size(), nc, um}, torch::kInt64, [&](int64_t i) { return s[i / (nc * um)][i / um % nc].nb[i % um]; }); };
        auto mkl = [&](const std::vector<std::vector<Atom>>& s) { return fill<int64_t>({(int64_t)s.size(), nc}, torch::kInt64, [&](int64_t i) { return s[i / nc][i % nc].centre; }); };
        auto mkt = [&](const std::vector<std::vector<int>>& s) { return fill<int64_t>({(int64_t)s.size(), na}, torch::kInt64, [&](int64_t i) { return s[i / na][i % na]; }); };
        at::Tensor il = layout(mkl(at_), r, how), fn = layout(mkf(at_), r, how), xs = layout(mkx(at_), r, how).detach(), tt = shared ? mkt(ty_)[0].contiguous() : layout(mkt(ty_), r, how);
        xs.requires_grad_(true);
        ctx = fmt("%s basis level=%d batch=%d centres=%d slots=%d species=%d size=%d rcut=%.6g rsmooth=%.6g shared-types=%d layouts=%s", ty, level, B, nc, um, model.nt, model.size, (double)model.d.rc, (double)model.d.rs, shared, how.c_str());
        at::Tensor o = mod->forward(il, fn, xs, tt); std::vector<int64_t> sh = {B, nc, nb};
        if (!m.check(o.sizes() == at::IntArrayRef(sh) && o.scalar_type() == stype<F>(), "basis:shape", ctx)) return;
        at::Tensor v = o.detach().contiguous(); L cond = (model.size * model.size + 4) * (model.d.rc / (model.d.rc - model.d.rs) + 4); std::vector<L> tol;
        auto eval = [&](int b, int i, int k, const Atom& a, L* mag = nullptr) { return model.basis(combs.coeff_pair_combs()[k], ty_[b][a.centre], a, ty_[b], mag); };
        for (int b = 0; b < B; b++) for (int i = 0; i < nc; i++) for (int k = 0; k < nb; k++) {
            L mag, want = eval(b, i, k, at_[b][i], &mag), got = v.data_ptr<F>()[(b * nc + i) * nb + k]; tol.push_back(400 * eps * cond * mag + 1e-30L); m.hit("basis_values");
            if (!m.check(fabsl(got - want) <= tol.back(), "basis:value", ctx + fmt(" structure %d centre %d function %d: %.9g, expected %.9g", b, i, k, (double)got, (double)want))) return;
        }
        // gradient, against the slope of the closed form
        std::vector<L> w; for (size_t i = 0; i < tol.size(); i++) w.push_back((F)r.u(-1, 1));
        at::Tensor W = fill<F>(sh, stype<F>(), [&](int64_t i) { return w[i]; }); (o * W).sum().backward(); at::Tensor g = xs.grad().contiguous();
        L w0 = model.d.rc - model.d.rs;
        for (int b = 0; b < B; b++) for (int i = 0; i < nc; i++) for (int j = 0; j < um; j++) for (int c = 0; c < 3; c++) {
            L G = 0, sc = 0; Atom a = at_[b][i];
            for (int k = 0; k < nb; k++) sc += tol[(b * nc + i) * nb + k];
            if (a.nb[j] >= 0) { L h = 1e-6L, x0 = a.x[j][c]; for (int k = 0; k < nb; k++) { a.x[j][c] = x0 + h; L f1 = eval(b, i, k, a); a.x[j][c] = x0 - h; L f0 = eval(b, i, k, a); G += w[(b * nc + i) * nb + k] * (f1 - f0) / (2 * h); } a.x[j][c] = x0; }
            L got = g.data_ptr<F>()[((b * nc + i) * um + j) * 3 + c], t = sc * (2 + 20 * (model.size * model.size + 1) / w0 + level / model.d.rs) + 1e-8L * (sc / (400 * eps * cond)); m.hit("gradients");
            if (!m.check(fabsl(got - G) <= t, "basis:gradient", ctx + fmt(" structure %d centre %d slot %d component %d: %.9g, expected %.9g", b, i, j, c, (double)got, (double)G))) return;
        }
        // gradient by the coefficients, against the slope of the closed form
        for (int t = 0; t < 6; t++) {
            int q = r.i(0, (int)model.c.size() - 1), k = r.i(0, model.size - 1); L c0 = model.c[q][k], h = 1e-6L, G = 0, sc = 0, f[2];
            for (int u = 0; u < 2; u++) { model.c[q][k] = c0 + (u ? -h : h); f[u] = 0; for (int b = 0; b < B; b++) for (int i = 0; i < nc; i++) for (int z = 0; z < nb; z++) { L mag; f[u] += w[(b * nc + i) * nb + z] * eval(b, i, z, at_[b][i], &mag); if (!u) sc += mag; } }
            model.c[q][k] = c0; G = (f[0] - f[1]) / (2 * h);
            L got = ps[q].grad().defined() ? (L)ps[q].grad().contiguous().data_ptr<F>()[k] : 0; L t1 = 400 * eps * cond * sc * level * 40 + 1e-7L * sc; m.hit("basis_coefficient_gradients"); if (G != 0) m.hit("basis_coefficient_gradients_nonzero");
            if (!m.check(fabsl(got - G) <= t1, "basis:coefficient-gradient", ctx + fmt(" coefficient %d/%d: %.9g, expected %.9g", q, k, (double)got, (double)G))) return;
        }
        // rotated (or reflected) neighbourhoods with the neighbours in another order give the same numbers
        if (sizeof(F) == 8) {
            L R[3][3]; bool flip = r.p(.5); randrot(r, R, flip); auto q = at_; bool near = false;
            for (auto& s : q) for (auto& a : s) {
                for (auto& p : a.x) { P3 n = {0, 0, 0}; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) n[i] += R[i][k] * p[k]; p = n; L d0 = len(p.data()); if (fabsl(d0 - model.d.rs) < 1e-9L || fabsl(d0 - model.d.rc) < 1e-9L) near = true; }
                for (int j = um - 1; j > 0; j--) { int k = r.i(0, j); std::swap(a.nb[j], a.nb[k]); std::swap(a.x[j], a.x[k]); }
            }
            if (!near) {
                at::Tensor l2 = mkl(q), f2 = mkf(q), x2 = mkx(q), v2 = mod->forward(l2, f2, x2, tt).detach().contiguous(); m.hit(flip ? "reflections" : "rotations");
                for (size_t i = 0; i < tol.size(); i++) if (!m.check(fabsl(v2.data_ptr<F>()[i] - v.data_ptr<F>()[i]) <= 4 * tol[i], "basis:invariance", ctx + fmt(" entry %zu: %.12g after rotation, %.12g before", i, (double)v2.data_ptr<F>()[i], (double)v.data_ptr<F>()[i]))) return;
            }
        }
        m.hit(shared ? "types_shared" : "types_per_structure"); if (B > 1) m.hit("batches");
        m.sig(ctx); if (m.cur < 6) m.sample(ctx);
    }
};
int main(int argc, char** argv) {
    at::set_num_threads(1);
    return Mon::get().run(argc, argv, [](Rng& r, long k) {
        if (k % 4 == 3) { Case<float> c(r, "float"); if (k % 8 == 3) c.basis(); else c.moments(); }
        else { Case<double> c(r, "double"); if (k % 2) c.basis(); else c.moments(); }
    });
}
