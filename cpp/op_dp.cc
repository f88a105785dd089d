// C09: the batched torch operators of the DeepPot family.
#include "torchutil.h"
#include <ATen/core/dispatch/Dispatcher.h>
#include "env.h"
#include <iostream>
#include <limits>
#include "descriptor/deepmd/include/envMatrixOp.h"
#include "descriptor/deepmd/include/se4pw_op.h"
using namespace vp;
using namespace matersdk::deepPotSE;

template <class F> void one(Rng& r, const char* ty) {
    Mon& m = Mon::get();
    F rc = (F)r.u(2, 6), rs = r.p(0.05) ? (F)0 : rc * (F)r.u(0.05, 0.95);
    bool big = r.p(.05); int B = r.i(1, big ? 9 : 4), inum = r.i(1, big ? 14 : 4), na = r.i(inum, big ? 60 : 14), nt = r.i(1, big ? 6 : 3); double box = r.u(1.5, 4);
    struct S { std::vector<F> x; std::vector<int> ty, il; std::vector<std::vector<int>> fn; };
    std::vector<S> bs(B);
    for (auto& s : bs) {
        for (int i = 0; i < 3 * na; i++) s.x.push_back((F)r.u(-box, box));
        for (int i = 0; i < na; i++) s.ty.push_back(r.i(0, nt - 1));
        std::vector<int> p(na); for (int i = 0; i < na; i++) p[i] = i; if (r.p(.6)) for (int i = na - 1; i > 0; i--) std::swap(p[i], p[r.i(0, i)]);
        s.il.assign(p.begin(), p.begin() + inum);
        for (int i = 0; i < inum; i++) { std::vector<int> f; for (int j = 0; j < na; j++) if (j != s.il[i] && r.p(.8)) f.push_back(j); for (int j = (int)f.size() - 1; j > 0; j--) std::swap(f[j], f[r.i(0, j)]); if (r.p(.1)) f.clear(); s.fn.push_back(f); }
    }
    std::vector<int> w(nt, 0);
    for (auto& s : bs) for (auto& f : s.fn) { std::vector<int> k(nt, 0); for (int j : f) k[s.ty[j]]++; for (int q = 0; q < nt; q++) w[q] = std::max(w[q], k[q]); }
    for (auto& q : w) q += r.p(.4) ? 0 : r.i(0, 3);
    int tot = 0; for (int q : w) tot += q; if (tot == 0) { w[0] = tot = 1; }
    // tensors
    std::vector<int> il, nn, fn, tt, wl; std::vector<F> rel, x;
    std::vector<std::array<L, 3>> disp((size_t)B * inum * tot, {0, 0, 0}); std::vector<char> used((size_t)B * inum * tot, 0); std::vector<int> prim((size_t)B * inum * tot, -1);
    for (int b = 0; b < B; b++) {
        S& s = bs[b]; x.insert(x.end(), s.x.begin(), s.x.end()); tt.insert(tt.end(), s.ty.begin(), s.ty.end()); wl.insert(wl.end(), w.begin(), w.end());
        for (int i = 0; i < inum; i++) {
            il.push_back(s.il[i]); nn.push_back((int)s.fn[i].size()); std::vector<int> k(nt, 0);
            for (int j = 0; j < tot; j++) {
                if (j >= nn.back()) { fn.push_back(-1); for (int c = 0; c < 3; c++) rel.push_back(0); continue; }
                int q = s.fn[i][j], s0 = 0; for (int u = 0; u < s.ty[q]; u++) s0 += w[u]; size_t at = ((size_t)b * inum + i) * tot + s0 + k[s.ty[q]]++;
                fn.push_back(q); used[at] = 1; prim[at] = q % inum;
                for (int c = 0; c < 3; c++) { F d = s.x[3 * q + c] - s.x[3 * s.il[i] + c]; rel.push_back(d); disp[at][c] = d; }
            }
        }
    }
    std::string how;
    auto I = [&](const std::vector<int>& v, at::IntArrayRef sh) { return layout(fill<int>(sh, torch::kInt32, [&](int64_t i) { return v[i]; }), r, how); };
    auto D = [&](const std::vector<F>& v, at::IntArrayRef sh) { return layout(fill<F>(sh, stype<F>(), [&](int64_t i) { return v[i]; }), r, how); };
    at::Tensor til = I(il, {B, inum}), tnn = I(nn, {B, inum}), tfn = I(fn, {B, inum, tot}), trel = D(rel, {B, inum, tot, 3}), tty = I(tt, {B, na}), twl = I(wl, {B, nt}), tx = D(x, {B, na, 3}), tw1 = I(w, {nt});
    std::vector<at::Tensor> in = {til, tnn, tfn, trel, tty, twl, tx, tw1}, keep; for (auto& t : in) keep.push_back(t.clone());
    Env e{rc, rs, std::numeric_limits<F>::epsilon()};
    std::string ctx = fmt("%s batch=%d centres=%d atoms=%d types=%d slots=%d rcut=%.9g rsmooth=%.9g layouts=%s", ty, B, inum, na, nt, tot, (double)rc, (double)rs, how.c_str());
    auto judge_ = [&](const char* tag, const at::Tensor& v, const at::Tensor& d, L sign, int tot, const std::vector<char>& used, const std::vector<std::array<L, 3>>& disp) {
        std::vector<int64_t> s4 = {B, inum, tot, 4}, s5 = {B, inum, tot, 4, 3};
        if (!m.check(v.sizes() == at::IntArrayRef(s4) && d.sizes() == at::IntArrayRef(s5) && v.scalar_type() == stype<F>() && d.scalar_type() == stype<F>(), std::string(tag) + ":shape", ctx)) return;
        at::Tensor vc = v.contiguous(), dc = d.contiguous(); F *pv = vc.data_ptr<F>(), *pd = dc.data_ptr<F>();
        for (size_t at = 0; at < used.size(); at++) {
            Val V; Der G; V.fill(0); G.fill(0); L tv = 0, td = 0;
            if (used[at]) { V = e.val(disp[at].data()); G = e.der(disp[at].data()); tv = e.tol(disp[at].data(), false); td = e.tol(disp[at].data(), true); m.hit("slots_filled"); } else m.hit("slots_padding");
            for (int k = 0; k < 4; k++) if (!(fabsl(pv[at * 4 + k] - V[k]) <= tv)) { m.fail(std::string(tag) + (used[at] ? ":value" : ":padding"), ctx + fmt(" flat slot %zu component %d: %.9g, expected %.9g", at, k, (double)pv[at * 4 + k], (double)V[k])); return; }
            for (int k = 0; k < 12; k++) if (!(fabsl(pd[at * 12 + k] - sign * G[k]) <= td)) { m.fail(std::string(tag) + (used[at] ? ":derivative" : ":padding"), ctx + fmt(" flat slot %zu derivative %d: %.9g, expected %.9g", at, k, (double)pd[at * 12 + k], (double)(sign * G[k]))); return; }
        }
        m.hit(std::string("tables_") + tag);
    };
    auto judge = [&](const char* tag, const at::Tensor& v, const at::Tensor& d, L sign) { judge_(tag, v, d, sign, tot, used, disp); };
    // the operator as scripts call it: torch.ops.deepmd.EnvMatrixOp
    auto registered = [&](const std::vector<at::Tensor>& in) -> std::vector<at::Tensor> {
        static auto op = c10::Dispatcher::singleton().findSchema({"deepmd::EnvMatrixOp", ""});
        if (!m.check(op.has_value(), "registered:missing", ctx)) return {};
        torch::jit::Stack st; for (auto& t : in) st.emplace_back(t);
        st.emplace_back((double)rc); st.emplace_back((double)rs);
        op->callBoxed(&st);
        if (!m.check(st.size() == 1 && st[0].isTensorList() && st[0].toTensorVector().size() == 2, "registered:outputs", ctx)) return {};
        m.hit("registered_calls");
        return st[0].toTensorVector();
    };
    { auto v = registered({til, tnn, tfn, trel, tty, twl}); if (v.size() == 2) judge("registered", v[0], v[1], 1); }
    auto a = EnvMatrixOp(til, tnn, tfn, trel, tty, twl, (double)rc, (double)rs);
    if (m.check(a.size() == 2, "EnvMatrixOp:outputs", ctx)) judge("EnvMatrixOp", a[0], a[1], 1);
    at::Tensor a0 = a[0].clone();
    auto p = Se4pwOp::forward(B, inum, til, tnn, tfn, tx, tty, nt, tw1, (double)rc, (double)rs);
    if (m.check(p.size() == 3, "Se4pwOp:outputs", ctx)) {
        judge("Se4pwOp", p[0], p[1], -1);
        at::Tensor q = p[2].contiguous(); bool ok = q.numel() == (int64_t)used.size() * 3; for (size_t i = 0; ok && i < used.size(); i++) for (int c = 0; c < 3; c++) ok = ok && q.data_ptr<F>()[3 * i + c] == (F)disp[i][c];
        m.check(ok, "Se4pwOp:relative-coords", ctx);
    }
    at::Tensor pi = Se4pwOp::get_prim_indices_from_matersdk(B, inum, til, tnn, tfn, tty, nt, tw1).contiguous();
    bool ok = pi.scalar_type() == torch::kInt32 && pi.numel() == (int64_t)prim.size(); for (size_t i = 0; ok && i < prim.size(); i++) ok = pi.data_ptr<int>()[i] == prim[i];
    m.check(ok, "Se4pwOp:home-indices", ctx);
    for (size_t i = 0; i < in.size(); i++) m.check(at::equal(in[i], keep[i]), "inputs-changed", ctx + fmt(" input %zu", i));
    // a structure's result does not depend on what else is in the batch
    if (B > 1) {
        int b = r.i(0, B - 1); auto S1 = [&](at::Tensor t) { return t.slice(0, b, b + 1); };
        auto q = EnvMatrixOp(S1(til), S1(tnn), S1(tfn), S1(trel), S1(tty), S1(twl), (double)rc, (double)rs);
        m.check(at::equal(q[0][0], a[0][b]) && at::equal(q[1][0], a[1][b]), "EnvMatrixOp:batch-dependence", ctx);
        at::Tensor l1 = S1(til), l2 = S1(tnn), l3 = S1(tfn), l4 = S1(tx), l5 = S1(tty);
        auto q2 = Se4pwOp::forward(1, inum, l1, l2, l3, l4, l5, nt, tw1, (double)rc, (double)rs);
        m.check(at::equal(q2[0][0], p[0][b]) && at::equal(q2[1][0], p[1][b]) && at::equal(q2[2][0], p[2][b]), "Se4pwOp:batch-dependence", ctx);
        m.hit("batch_slices");
    }
    // every structure may divide the slots between the species in its own way
    if (B > 1 && nt > 1) {
        std::vector<std::vector<int>> wb(B, std::vector<int>(nt, 0)); int tot2 = 1;
        for (int b = 0; b < B; b++) { for (auto& f : bs[b].fn) { std::vector<int> k(nt, 0); for (int j : f) k[bs[b].ty[j]]++; for (int q = 0; q < nt; q++) wb[b][q] = std::max(wb[b][q], k[q]); } int t = 0; for (int q : wb[b]) t += q; tot2 = std::max(tot2, t); }
        tot2 += r.i(0, 3);
        for (auto& v : wb) { int t = 0; for (int q : v) t += q; for (; t < tot2; t++) v[r.i(0, nt - 1)]++; }
        std::vector<int> fn2, wl2; std::vector<F> rel2; std::vector<std::array<L, 3>> disp2((size_t)B * inum * tot2, {0, 0, 0}); std::vector<char> used2((size_t)B * inum * tot2, 0);
        for (int b = 0; b < B; b++) {
            S& s = bs[b]; wl2.insert(wl2.end(), wb[b].begin(), wb[b].end()); if (b && wb[b] != wb[0]) m.hit("own_slots");
            for (int i = 0; i < inum; i++) {
                std::vector<int> k(nt, 0);
                for (int j = 0; j < tot2; j++) {
                    if (j >= (int)s.fn[i].size()) { fn2.push_back(-1); for (int c = 0; c < 3; c++) rel2.push_back(0); continue; }
                    int q = s.fn[i][j], s0 = 0; for (int u = 0; u < s.ty[q]; u++) s0 += wb[b][u]; size_t at = ((size_t)b * inum + i) * tot2 + s0 + k[s.ty[q]]++;
                    fn2.push_back(q); used2[at] = 1; for (int c = 0; c < 3; c++) { F d = s.x[3 * q + c] - s.x[3 * s.il[i] + c]; rel2.push_back(d); disp2[at][c] = d; }
                }
            }
        }
        at::Tensor tfn2 = I(fn2, {B, inum, tot2}), trel2 = D(rel2, {B, inum, tot2, 3}), twl2 = I(wl2, {B, nt});
        { auto v = registered({til, tnn, tfn2, trel2, tty, twl2}); if (v.size() == 2) judge_("registered-own-slots", v[0], v[1], 1, tot2, used2, disp2); }
        auto q = EnvMatrixOp(til, tnn, tfn2, trel2, tty, twl2, (double)rc, (double)rs);
        if (m.check(q.size() == 2, "EnvMatrixOp:outputs", ctx)) judge_("EnvMatrixOp-own-slots", q[0], q[1], 1, tot2, used2, disp2);
    }
    m.check(at::equal(a0, a[0]), "EnvMatrixOp:result-overwritten", ctx);
    if (how.find_first_not_of("c") != std::string::npos) m.hit("non_contiguous");
    m.sig(ctx); if (m.cur < 4) m.sample(ctx);
}
int main(int argc, char** argv) {
    at::set_num_threads(1);
    return Mon::get().run(argc, argv, [](Rng& r, long k) { if (k % 3 == 2) one<float>(r, "float"); else one<double>(r, "double"); });
}
