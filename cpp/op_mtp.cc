// C11: MTP radial and angular torch operators: values and gradients.
#include "torchutil.h"
#include "mtporacle.h"
#include <iostream>
#include <limits>
#include "descriptor/mtp/include/mtpMRadialOp.h"
#include "descriptor/mtp/include/mtpMAngularOp.h"
using namespace vp;
using namespace matersdk::mtp;

template <class F> void one(Rng& r, const char* ty) {
    Mon& m = Mon::get(); L eps = std::numeric_limits<F>::epsilon();
    F rc = (F)r.u(2, 7), rs = r.p(0.05) ? (F)0 : rc * (F)r.u(0.02, 0.9); Dom d{rc, rs}; L w0 = d.rc - d.rs;
    int n = r.p(.05) ? 0 : r.i(1, r.p(.05) ? 80 : 12), size = r.p(.06) ? r.i(12, 30) : r.i(1, 11);
    std::vector<F> x; std::vector<std::array<L, 3>> X;
    for (int i = 0; i < n; i++) {
        int t = r.i(0, 9); F R = t == 0 ? 0 : t == 1 ? rs * (F)r.u(0.1, 0.95) : t == 2 ? rc * (F)r.u(1.02, 2) : t == 3 ? rs + (rc - rs) * (F)r.u(0.001, 0.02) : t == 4 ? rc - (rc - rs) * (F)r.u(0.001, 0.02) : rs + (rc - rs) * (F)r.u(0.02, 0.98);
        double v[3], s = 0; for (int c = 0; c < 3; c++) { v[c] = r.p(.15) ? 0 : r.n(); s += v[c] * v[c]; } if (s == 0) { v[2] = 1; s = 1; }
        std::array<L, 3> q; for (int c = 0; c < 3; c++) { F y = (F)(R * v[c] / std::sqrt(s)); x.push_back(y); q[c] = y; } X.push_back(q);
        m.hit(R == 0 ? "coincident" : R < rs ? "below" : R >= rc ? "beyond" : "inside");
    }
    std::string how; at::Tensor base = fill<F>({n, 3}, stype<F>(), [&](int64_t i) { return x[i]; });
    at::Tensor rcuts = fill<F>({2}, stype<F>(), [&](int64_t i) { return i ? rs : rc; });
    at::Tensor xs = n ? layout(base, r, how) : base.clone(); xs = xs.detach(); xs.requires_grad_(true);
    std::string ctx = fmt("%s neighbours=%d size=%d rcut=%.9g rsmooth=%.9g layout=%s", ty, n, size, (double)rc, (double)rs, how.c_str());
    at::Tensor keep = xs.detach().clone();
    // radial
    {
        auto o = MtpQOp(size, rcuts, xs); std::vector<int64_t> sh = {n, size};
        if (!m.check(o.size() == 1 && o[0].sizes() == at::IntArrayRef(sh) && o[0].scalar_type() == stype<F>(), "radial:shape", ctx)) return;
        at::Tensor v = o[0].detach().contiguous();
        std::vector<F> wt; for (int i = 0; i < n * size; i++) wt.push_back((F)r.u(-1, 1)); bool uni = r.p(.3); if (uni) for (auto& q : wt) q = 1;
        at::Tensor W = fill<F>({n, size}, stype<F>(), [&](int64_t i) { return wt[i]; });
        if (uni) o[0].sum().backward(); else if (r.p(.5)) (o[0] * W).sum().backward(); else { std::string h; o[0].backward(n ? layout(W, r, h) : W); }
        at::Tensor g = xs.grad().contiguous();
        for (int i = 0; i < n; i++) {
            L R = len(X[i].data()), amp = 0, G[3] = {0, 0, 0}, mag = 0; bool edge = fabsl(R - d.rs) < 1e-4L * d.rc || fabsl(R - d.rc) < 1e-5L; if (R == 0) { edge = false; if (rs == 0) m.hit("coincident_in_range"); }
            for (int k = 0; k < size; k++) {
                L want = R == 0 ? 0 : q_n(k, d, R), tol = 60 * eps * (k * k + 4) * (d.rc / w0 + 4) * 2; m.hit("values");
                if (!edge && !(fabsl(v.data_ptr<F>()[i * size + k] - want) <= tol)) { m.fail("radial:value", ctx + fmt(" neighbour %d at %.9g order %d: %.9g, expected %.9g", i, (double)R, k, (double)v.data_ptr<F>()[i * size + k], (double)want)); return; }
                L dq = R == 0 ? 0 : dq_n(k, d, R); if (R > 0) for (int c = 0; c < 3; c++) G[c] += wt[i * size + k] * dq * X[i][c] / R;
                mag += fabsl(wt[i * size + k]) * (k * k + 1) * 8 / w0; amp = std::max(amp, (L)k * k * k * k + 4);
            }
            for (int c = 0; c < 3; c++) { L got = g.data_ptr<F>()[3 * i + c], tol = 60 * eps * amp * (d.rc / w0 + 4) * mag; m.hit("gradients");
                if (!edge && !(fabsl(got - G[c]) <= tol)) { m.fail("radial:gradient", ctx + fmt(" neighbour %d at %.9g component %d: %.9g, expected %.9g", i, (double)R, c, (double)got, (double)G[c])); return; } }
        }
        m.hit("radial_calls"); if (uni) m.hit("uniform_gradients");
    }
    // angular
    {
        int nu = r.i(0, 4); size_t N = 1; for (int k = 0; k < nu; k++) N *= 3;
        xs.mutable_grad() = at::Tensor();
        at::Tensor o = MtpMAngularOp(xs, nu); std::vector<int64_t> sh(nu + 1, 3); sh[0] = n;
        if (!m.check(o.sizes() == at::IntArrayRef(sh) && o.scalar_type() == stype<F>(), "angular:shape", ctx + fmt(" nu=%d", nu))) return;
        at::Tensor v = o.detach().contiguous(); Ten wt; for (size_t i = 0; i < N * n; i++) wt.push_back((F)r.u(-1, 1));
        at::Tensor W = fill<F>(sh, stype<F>(), [&](int64_t i) { return wt[i]; });
        if (n) {
            (o * W).sum().backward();
            at::Tensor g = xs.grad().defined() ? xs.grad().contiguous() : at::zeros({n, 3}, stype<F>());
            for (int i = 0; i < n; i++) {
                Ten t = power(X[i].data(), nu); L R = len(X[i].data());
                for (size_t k = 0; k < N; k++) { L got = v.data_ptr<F>()[i * N + k]; m.hit("values"); if (!(fabsl(got - t[k]) <= 20 * eps * powl(R, nu) + 1e-37L)) { m.fail("angular:value", ctx + fmt(" nu=%d neighbour %d element %zu: %.9g, expected %.9g", nu, i, k, (double)got, (double)t[k])); return; } }
                for (int c = 0; c < 3; c++) {
                    L G = 0;
                    for (size_t k = 0; k < N; k++) { int id[6]; size_t z = k; for (int q = nu - 1; q >= 0; q--) { id[q] = z % 3; z /= 3; } for (int p = 0; p < nu; p++) if (id[p] == c) { L pr = wt[i * N + k]; for (int q = 0; q < nu; q++) if (q != p) pr *= X[i][id[q]]; G += pr; } }
                    L got = g.data_ptr<F>()[3 * i + c], tol = 40 * eps * nu * N * powl(R, nu > 0 ? nu - 1 : 0); m.hit("gradients");
                    if (!(fabsl(got - G) <= tol)) { m.fail("angular:gradient", ctx + fmt(" nu=%d neighbour %d component %d: %.9g, expected %.9g", nu, i, c, (double)got, (double)G)); return; }
                }
            }
        }
        m.hit(fmt("angular_rank_%d", nu)); ctx += fmt(" nu=%d", nu);
    }
    m.check(at::equal(keep, xs.detach()), "inputs-changed", ctx);
    if (how != "c" && n) m.hit("non_contiguous");
    m.sig(ctx); if (m.cur < 4) m.sample(ctx);
}
int main(int argc, char** argv) {
    at::set_num_threads(1);
    return Mon::get().run(argc, argv, [](Rng& r, long k) { if (k % 3 == 2) one<float>(r, "float"); else one<double>(r, "double"); });
}
