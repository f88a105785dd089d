// C06 (switching functions) and C10 (Chebyshev radial bases): every implementation against closed forms in long double.
// -DBASES selects C10.
#include "vp.h"
#include "cheb.h"
#include <iostream>
#include <limits>
#include "nblist/include/neighborList.h"
#include "descriptor/deepmd/include/se.h"
#include "descriptor/mtp/include/mtpMRadial.h"
#include "descriptor/mtp/include/mtpMRadial_de.h"
#include "descriptor/mtpr/include/basis.h"
using namespace vp;
using namespace matersdk;
template <class F> struct Ctx {
    F rc, rs, r; Dom d; L eps, cond; const char* where; const char* ty;
    std::string str() const { return fmt("%s rcut=%.17g rsmooth=%.17g r=%.17g (%s)", ty, (double)rc, (double)rs, (double)r, where); }
};
template <class F> void eq(const Ctx<F>& c, const char* tag, F got, L want, L scale, L amp) {
    Mon& m = Mon::get();
    L tol = 40 * c.eps * (amp * c.cond + 4) * (scale + fabsl(want));
    bool ok = !(got != got) && fabsl((L)got - want) <= tol;
    m.hit("values");
    if (!ok) m.fail(tag, c.str() + fmt(": got %.17g, expected %.17g (tolerance %.3g)", (double)got, (double)want, (double)tol));
}

template <class F> F place(Rng& r, F rc, F rs, const char*& where) {
    switch (r.i(0, 11)) {
        case 0: where = "at-rs"; return rs;
        case 1: where = "just-below-rs"; return rs > 0 ? std::nextafter(rs, (F)-1) : rs;
        case 2: where = "just-above-rs"; return rs > 0 ? std::nextafter(rs, rc) : (F)1e-9;
        case 3: where = "at-rc"; return rc;
        case 4: where = "just-below-rc"; return std::nextafter(rc, (F)0);
        case 5: where = "just-above-rc"; return std::nextafter(rc, (F)100);
        case 6: where = "below-rs"; return rs * (F)r.u(0.02, 0.999);
        case 7: where = "beyond-rc"; return rc * (F)r.u(1.001, 3);
        case 8: where = "middle"; return (rc + rs) / 2;
        case 9: where = "near-rs"; return std::max(rs > 0 ? std::nextafter(rs, rc) : (F)1e-9, rs + (rc - rs) * (F)(std::pow(10, r.u(-6, -1))));
        case 10: where = "near-rc"; return std::min(std::nextafter(rc, (F)0), rc - (rc - rs) * (F)(std::pow(10, r.u(-6, -1))));
        default: where = "inside"; return std::min(std::nextafter(rc, (F)0), rs + (rc - rs) * (F)r.u(1e-9, 1));
    }
}
template <class F> void gen(Rng& r, F& rc, F& rs) {
    int t = r.i(0, 5);
    rc = t == 0 ? (F)r.i(3, 8) : r.p(0.1) ? (F)r.u(9, 40) : (F)r.u(0.8, 9);
    rs = t == 5 && r.p(0.5) ? (F)0 : t == 0 ? rc - (F)r.i(1, (int)rc - 1) : t == 1 ? rc * (F)r.u(0.9, 0.99) : t == 2 ? rc * (F)r.u(0.01, 0.1) : rc * (F)r.u(0.1, 0.9);
}
template <class F> void one(Rng& r, const char* ty) {
    Mon& m = Mon::get();
    F rc, rs; gen(r, rc, rs); m.hit("inner_radius_zero", rs == 0); m.hit("large_radii", rc > 9);
    Ctx<F> c; c.rc = rc; c.rs = rs; c.d = Dom{rc, rs}; c.eps = std::numeric_limits<F>::epsilon(); c.cond = (L)rc / ((L)rc - rs); c.ty = ty;
#ifdef BASES
    int size = r.p(0.1) ? r.i(1, 2) : r.p(0.05) ? r.i(14, 40) : r.i(1, 13);
    mtp::ChebyshevPoly<F> cp(size, rc, rs); mtp::MtpQ<F> q(size, rc, rs);
    mtpr::RB_Chebyshev<F> rb(size, rc, rs); mtpr::RQ_Chebyshev<F> rq(size, rc, rs);
    m.check(cp.size() == size && q.size() == size && rb.size() == size && rq.size() == size, "size", fmt("size %d reported wrongly", size));
    m.check(rb.rmax() == rc && rb.rmin() == rs && rq.rmax() == rc && rq.rmin() == rs, "range", "reported range differs from the given one");
    int steps = r.i(2, 6); std::string path;
    for (int s = 0; s < steps; s++) {                     // the objects are reused, as in a loop over neighbours
        c.r = place(r, rc, rs, c.where); path += std::string(c.where) + ">";
        m.hit(std::string("at_") + c.where);
        bool in = c.r >= rs && c.r < rc;
        cp.build(c.r); q.build(c.r);
        L x = xi(c.d, c.r), dx = 2 / (c.d.rc - c.d.rs), S = in ? sw(c.d, c.r) : 0, dS = dsw(c.d, c.r);
        L x1 = std::max((L)1, fabsl(x));
        for (int n = 0; n < size; n++) {
            L t = in ? T(n, x) : 0, dt = in ? dT(n, x) : 0, n2 = n * n + 1, n4 = (L)n * n * n * n + 1;
            eq(c, "mtp:chebyshev-value", cp.get_result()[n], t, 1, n2);
            eq(c, "mtp:chebyshev-deriv-xi", cp.get_deriv2xi()[n], dt, in ? n2 : 0, n4);
            eq(c, "mtp:chebyshev-deriv-r", cp.get_deriv2r()[n], dt * dx, in ? n2 * dx : 0, n4);
            eq(c, "mtp:q-value", q.get_result()[n], t * S, 1, n2);
            eq(c, "mtp:q-deriv-r", q.get_deriv2r()[n], dt * dx * S + t * dS, in ? 4 * n2 * dx : 0, n4);
            if (!in) m.check(q.get_result()[n] == 0 && q.get_deriv2r()[n] == 0 && cp.get_result()[n] == 0 && cp.get_deriv2r()[n] == 0 && cp.get_deriv2xi()[n] == 0,
                             "mtp:nonzero-outside-range", c.str() + fmt(" order %d does not vanish outside the range", n));
        }
        m.hit(in ? "inside" : "outside");
        if (c.r >= rs && c.r <= rc) {                     // documented domain of the MTPR basis
            rb.build(c.r); rq.build(c.r);
            L S2 = sw(c.d, c.r);
            for (int n = 0; n < size; n++) {
                L t = T(n, x), dt = dT(n, x), n2 = n * n + 1, n4 = (L)n * n * n * n + 1;
                eq(c, "mtpr:rb-value", rb.vals()[n], t, 1, n2);
                eq(c, "mtpr:rb-deriv-uu", rb.ders2uu()[n], dt, n2, n4);
                eq(c, "mtpr:rb-deriv-r", rb.ders2r()[n], dt * dx, n2 * dx, n4);
                eq(c, "mtpr:rq-value", rq.vals()[n], t * S2, 1, n2);
                eq(c, "mtpr:rq-deriv-r", rq.ders2r()[n], dt * dx * S2 + t * dS, 4 * n2 * dx, n4);
            }
            m.hit("mtpr_builds");
        }
        if (r.p(0.2) && size <= 13) {                                   // the basis object for a single distance
            leakcheck("mtp_de:leak", "RadialBasisChebyshev", [&] { mtp::RadialBasisChebyshev<F> o(rc, rs, size - 1, c.r); });
            mtp::RadialBasisChebyshev<F> o(rc, rs, size - 1, c.r);
            m.check(o.get_hmju() == size - 1 && o.get_rcut() == rc && o.get_rcut_smooth() == rs && o.get_rji() == c.r, "mtp_de:parameters", c.str());
            L S3 = sw(c.d, c.r);
            // inside or below the range; far outside the polynomials grow, bound the amplification by the value itself
            for (int n = 0; n < size; n++) {
                L g = powl(x1 + sqrtl(x1 * x1 - 1), n);
                L t = T(n, x), dt = dT(n, x), n2 = (n * n + 1) * g, n4 = ((L)n * n * n * n + 1);
                L a = n4 * x1;
                eq(c, "mtp_de:chebyshev-value", o.get_chebyshev_vals()[n], t, g, a);
                eq(c, "mtp_de:chebyshev-deriv-r", o.get_chebyshev_ders()[n], dt * dx, n2 * dx, a);
                eq(c, "mtp_de:rb-value", o.get_rb_vals()[n], t * S3, g, a);
                eq(c, "mtp_de:rb-deriv-r", o.get_rb_ders()[n], dt * dx * S3 + t * dS, 4 * n2 * dx, a);
                if (c.r >= rc) m.check(o.get_rb_vals()[n] == 0 && o.get_rb_ders()[n] == 0, "mtp_de:nonzero-beyond-cutoff", c.str());
            }
            m.hit("mtp_de_builds");
        }
    }
    m.sig(fmt("%s/%d/%.2f/", ty, size, (double)(rs / rc)) + path);
    if (m.cur < 4) m.sample(c.str() + fmt(" size=%d path=", size) + path);
#else
    deepPotSE::SwitchFunc<F> dp(rc, rs); mtp::SwitchFunc<F> de(rc, rs);
    mtp::MtpSwitchFunc1<F> s1(rc, rs); mtp::MtpSwitchFunc2<F> s2(rc, rs); mtpr::SwitchFunction<F> sr(rc, rs);
    L h = 1 / (c.d.rc - c.d.rs);
    F prev_r = 0, prev_v = 1; std::vector<F> pts; std::vector<const char*> wh;
    int steps = r.i(3, 9);
    for (int s = 0; s < steps; s++) {
        c.r = place(r, rc, rs, c.where);
        m.hit(std::string("at_") + c.where);
        L S = sw(c.d, c.r), dS = dsw(c.d, c.r);
        bool below = c.r < rs, out = c.r >= rc;
        eq(c, "deepmd:switch-value", dp.get_result(c.r), S, 1, 4);
        eq(c, "deepmd:switch-deriv", dp.get_deriv2r(c.r), dS, h, 12);
        eq(c, "mtp_de:switch-value", de.get_result(c.r), S, 1, 4);
        eq(c, "mtp_de:switch-deriv", de.get_deriv2rji(c.r), dS, h, 12);
        eq(c, "mtp:switch2-value", s2.get_result(c.r), below ? 0 : S, 1, 4);
        eq(c, "mtp:switch2-deriv", s2.get_deriv2r(c.r), dS, h, 12);
        eq(c, "mtp:scaling-value", s1.get_result(c.r), xi(c.d, c.r), 1, 4);
        eq(c, "mtp:scaling-deriv", s1.get_deriv2r(), 2 * h, 0, 4);
        if (!below && c.r <= rc) {
            eq(c, "mtpr:switch-value", sr.val(c.r), S, 1, 4); eq(c, "mtpr:switch-deriv", sr.der2r(c.r), dS, h, 12);
            m.hit("mtpr");
        }
        L w = c.r == 0 ? 0 : S / (L)c.r;
        eq(c, "deepmd:smooth-value", deepPotSE::smooth_func<F>(c.r, rc, rs), w, c.r == 0 ? 1 : 1 / (L)c.r, 4);
        eq(c, "deepmd:recip", deepPotSE::recip<F>(c.r), c.r == 0 ? 0 : 1 / (L)c.r, 0, 1);
        // exactness on the two plateaus
        if (below) m.check(dp.get_result(c.r) == 1 && dp.get_deriv2r(c.r) == 0 && de.get_result(c.r) == 1 && de.get_deriv2rji(c.r) == 0, "plateau-one", c.str());
        if (out) m.check(dp.get_result(c.r) == 0 && dp.get_deriv2r(c.r) == 0 && de.get_result(c.r) == 0 && de.get_deriv2rji(c.r) == 0 && s2.get_result(c.r) == 0 && s2.get_deriv2r(c.r) == 0
                             && deepPotSE::smooth_func<F>(c.r, rc, rs) == 0, "plateau-zero", c.str());
        m.hit(below ? "below" : out ? "beyond" : "inside");
        m.sig(fmt("%s/%.3f/%s/%.4f", ty, (double)(rs / rc), c.where, (double)((c.r - rs) / (rc - rs))));
    }
    eq(c, "deepmd:recip", deepPotSE::recip<F>((F)0), 0, 0, 1);
    F z = 0; eq(c, "deepmd:smooth-at-zero", deepPotSE::smooth_func<F>(z, rc, rs), 0, 0, 1);
    // copies carry the parameters
    mtp::MtpSwitchFunc2<F> cc(s2), ca; ca = s2; mtp::MtpSwitchFunc1<F> c1(s1), a1; a1 = s1;
    m.check(cc.get_result(c.r) == s2.get_result(c.r) && ca.get_result(c.r) == s2.get_result(c.r) && ca.get_deriv2r(c.r) == s2.get_deriv2r(c.r)
            && cc.get_deriv2r(c.r) == s2.get_deriv2r(c.r) && c1.get_result(c.r) == s1.get_result(c.r) && a1.get_result(c.r) == s1.get_result(c.r)
            && a1.get_deriv2r() == s1.get_deriv2r() && c1.get_deriv2r() == s1.get_deriv2r(), "copy-differs", c.str());
    if (m.cur < 4) m.sample(c.str());
#endif
}
int main(int argc, char** argv) {
    return Mon::get().run(argc, argv, [](Rng& r, long k) { if (k % 3 == 2) one<float>(r, "float"); else one<double>(r, "double"); });
}
