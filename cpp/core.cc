// C15: the containers and vector algebra under everything else.
#include "vp.h"
#include <iostream>
#include "core/include/AlignedArray.h"
#include "core/include/arrayUtils.h"
#include "core/include/vec3Operation.h"
#include "core/include/vecx.h"
#include "core/include/hardware.h"
using namespace vp;
using namespace matersdk;
typedef long double L;

template <class T> void aligned(Rng& r, const char* ty) {
    Mon& m = Mon::get();
    struct Obj { AlignedArray<T> a; std::vector<T> model; std::vector<bool> known; };
    auto sync = [&](const Obj& o, const char* op) {
        bool ok = o.a.size() == (int)o.model.size();
        if (!m.check(ok, "aligned:size", fmt("AlignedArray<%s> after %s: size %d, expected %zu", ty, op, o.a.size(), o.model.size()))) return;
        if (o.model.size()) m.check((((uintptr_t)&o.a[0]) & 15) == 0, "aligned:alignment", fmt("AlignedArray<%s> of size %zu starts at %p", ty, o.model.size(), (const void*)&o.a[0]));
        for (size_t i = 0; i < o.model.size(); i++) {
            m.check((const char*)&o.a[(int)i] - (const char*)&o.a[0] == (ptrdiff_t)(i * sizeof(T)), "aligned:stride", "elements are not contiguous");
            if (o.known[i]) m.check(o.a[(int)i] == o.model[i], "aligned:content", fmt("AlignedArray<%s> after %s: element %zu changed", ty, op, i));
        }
        m.hit("aligned_states");
    };
    std::string path;
    leakcheck("aligned:leak", fmt("AlignedArray<%s>", ty), [&] {
        Rng q(r.s); path.clear();
        std::vector<Obj> pool(3);
        int n = q.i(5, 25);
        for (int s = 0; s < n; s++) {
            Obj& o = pool[q.i(0, 2)];
            switch (q.i(0, 5)) {
                case 0: { int k = q.p(0.2) ? 0 : q.p(0.03) ? q.i(1000, 9000) : q.i(1, 70); bool same = k == (int)o.model.size(); o.a.resize(k); o.model.resize(k); if (!same) o.known.assign(k, false); path += "r"; sync(o, "resize"); break; }
                case 1: case 2: if (o.model.size()) { for (size_t i = 0; i < o.model.size(); i++) if (q.p(0.8)) { T v = (T)q.i(-100, 100); o.a[(int)i] = v; o.model[i] = v; o.known[i] = true; } path += "w"; sync(o, "writes"); } break;
                case 3: { Obj& p = pool[q.i(0, 2)]; for (size_t i = 0; i < p.model.size(); i++) if (!p.known[i]) { p.a[(int)i] = 7; p.model[i] = 7; p.known[i] = true; } o.a = p.a; o.model = p.model; o.known = p.known; path += "="; sync(o, "assignment"); sync(p, "being assigned from"); break; }
                case 4: { for (size_t i = 0; i < o.model.size(); i++) if (!o.known[i]) { o.a[(int)i] = 3; o.model[i] = 3; o.known[i] = true; } Obj c(o); sync(c, "copy"); for (size_t i = 0; i < c.model.size(); i++) c.a[(int)i] = 1; path += "c"; sync(o, "its copy was written"); break; }
                default: { int k = q.i(0, 40); AlignedArray<T> f(k); m.check(f.size() == k, "aligned:size", "constructed size"); for (int i = 0; i < k; i++) f[i] = (T)i; const AlignedArray<T>& cf = f; if (k) m.check(cf[k - 1] == (T)(k - 1), "aligned:content", "constructed"); path += "n"; }
            }
        }
        for (auto& o : pool) sync(o, "the whole history");
    });
    m.sig(std::string(ty) + path); m.hit(std::string("aligned_") + ty);
}
template <class T> void arrays(Rng& r, const char* ty) {
    Mon& m = Mon::get();
    int a = r.i(0, 5), b = r.i(0, 5), c = r.i(0, 6), d = r.i(0, 4), e = r.i(0, 4); bool init = r.p(0.6);
    if (r.p(0.1)) { int* w[5] = {&a, &b, &c, &d, &e}; *w[r.i(0, 4)] = r.i(10, 90); m.hit("arrays_long"); }
    leakcheck("arrays:leak", fmt("allocate/free of a (%d,%d,%d,%d,%d) array of %s", a, b, c, d, e, ty), [&] {
        T*** p3 = arrayUtils::allocate3dArray<T>(a, b, c, init); T**** p4 = arrayUtils::allocate4dArray<T>(a, b, c, d, init); T***** p5 = arrayUtils::allocate5dArray<T>(a, b, c, d, e, init);
        bool zero = true, keep = true; T v = 0;
        if (init) for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < c; k++) { zero &= p3[i][j][k] == 0; for (int l = 0; l < d; l++) { zero &= p4[i][j][k][l] == 0; for (int q = 0; q < e; q++) zero &= p5[i][j][k][l][q] == 0; } }
        m.check(zero, "arrays:not-zeroed", fmt("(%d,%d,%d,%d,%d) %s", a, b, c, d, e, ty));
        v = 0; for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < c; k++) { p3[i][j][k] = v += 1; for (int l = 0; l < d; l++) { p4[i][j][k][l] = v += 1; for (int q = 0; q < e; q++) p5[i][j][k][l][q] = v += 1; } }
        v = 0; for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < c; k++) { keep &= p3[i][j][k] == (v += 1); for (int l = 0; l < d; l++) { keep &= p4[i][j][k][l] == (v += 1); for (int q = 0; q < e; q++) keep &= p5[i][j][k][l][q] == (v += 1); } }
        m.check(keep, "arrays:overlap", fmt("elements of a (%d,%d,%d,%d,%d) array of %s share storage", a, b, c, d, e, ty));
        arrayUtils::free3dArray(p3, a, b); arrayUtils::free4dArray(p4, a, b, c); arrayUtils::free5dArray(p5, a, b, c, d);
    });
    m.hit("arrays_blocks", 3); m.sig(fmt("arr/%d%d%d%d%d%d%s", a, b, c, d, e, init, ty));
}
template <class T> void algebra(Rng& r, const char* ty) {
    Mon& m = Mon::get();
    L eps = std::numeric_limits<T>::epsilon(); double mag = std::pow(10, r.u(-3, 3));
    auto val = [&] { return r.p(0.1) ? (T)0 : r.p(0.2) ? (T)r.i(-3, 3) : (T)(mag * r.n()); };
    T u[3] = {val(), val(), val()}, v[3] = {val(), val(), val()};
    L U = 0, V = 0, d = 0; for (int i = 0; i < 3; i++) { U += (L)u[i] * u[i]; V += (L)v[i] * v[i]; d += (L)u[i] * v[i]; }
    U = sqrtl(U); V = sqrtl(V);
    std::string what = fmt("%s u=(%.9g,%.9g,%.9g) v=(%.9g,%.9g,%.9g)", ty, (double)u[0], (double)u[1], (double)u[2], (double)v[0], (double)v[1], (double)v[2]);
    m.check(fabsl(vec3Operation::dot(u, v) - d) <= 8 * eps * U * V, "vec3:dot", what);
    m.check(fabsl(vec3Operation::norm(u) - U) <= 8 * eps * U, "vec3:norm", what);
    L c[3] = {(L)u[1] * v[2] - (L)u[2] * v[1], (L)u[2] * v[0] - (L)u[0] * v[2], (L)u[0] * v[1] - (L)u[1] * v[0]};
    T* x = vec3Operation::cross(u, v); for (int i = 0; i < 3; i++) m.check(fabsl(x[i] - c[i]) <= 8 * eps * U * V, "vec3:cross", what); free(x);
    if (U > 0) { T* n = vec3Operation::normalize(u); for (int i = 0; i < 3; i++) m.check(fabsl(n[i] - u[i] / U) <= 16 * eps, "vec3:normalize", what); free(n); }
    int nju = r.i(1, 6), rows = 1; for (int i = 1; i < nju; i++) rows *= 3;
    leakcheck("vec3:leak", fmt("RecursionOuterProduct(%d)", nju), [&] {
        T** t = vec3Operation::RecursionOuterProduct(nju, u);
        for (int i = 0; i < rows; i++) for (int j = 0; j < 3; j++) {
            L w = u[j]; for (int k = i, s = 1; s < nju; s++, k /= 3) w *= u[k % 3];
            m.check(fabsl(t[i][j] - w) <= 4 * nju * eps * fabsl(w) + 1e-300L, "vec3:outer-product", what + fmt(" rank %d element (%d,%d): %g, expected %g", nju, i, j, (double)t[i][j], (double)w));
        }
        for (int i = 0; i < rows; i++) free(t[i]);
        free(t);
    });
    m.hit(fmt("outer_rank_%d", nju));
    // Vec3: component-wise meaning of every operator
    Vec3 a(u[0], u[1], u[2]), b(v[0], v[1], v[2]); double s = r.p(0.2) ? 2 : r.u(0.1, 9) * (r.p(0.5) ? -1 : 1);
    auto is = [&](const Vec3& g, std::function<double(int)> f, const char* op, double tol) { for (int i = 0; i < 3; i++) m.check(std::fabs(g[i] - f(i)) <= tol * std::fabs(f(i)), std::string("vec:") + op, what + fmt(" s=%g component %d of %s: %.17g, expected %.17g", s, i, op, g[i], f(i))); m.hit("vec_ops"); };
    double au[3] = {(double)u[0], (double)u[1], (double)u[2]}, bv[3] = {(double)v[0], (double)v[1], (double)v[2]};
    is(Vec3(), [&](int) { return 0.0; }, "default", 0); is(a, [&](int i) { return au[i]; }, "construct", 0); is(+a, [&](int i) { return au[i]; }, "plus", 0); is(-a, [&](int i) { return -au[i]; }, "minus", 0);
    is(a + b, [&](int i) { return au[i] + bv[i]; }, "add", 0); is(a - b, [&](int i) { return au[i] - bv[i]; }, "sub", 0);
    is(a * s, [&](int i) { return au[i] * s; }, "scale", 0); is(s * a, [&](int i) { return au[i] * s; }, "scale-left", 0); is(a / s, [&](int i) { return au[i] / s; }, "divide", 4e-16 * 2);
    { Vec3 t = a; Vec3& q = (t += b); is(t, [&](int i) { return au[i] + bv[i]; }, "add-assign", 0); m.check(&q == &t, "vec:returns-self", "+="); }
    { Vec3 t = a; Vec3& q = (t -= b); is(t, [&](int i) { return au[i] - bv[i]; }, "sub-assign", 0); m.check(&q == &t, "vec:returns-self", "-="); }
    { Vec3 t = a; Vec3& q = (t *= s); is(t, [&](int i) { return au[i] * s; }, "scale-assign", 0); m.check(&q == &t, "vec:returns-self", "*="); }
    { Vec3 t = a; Vec3& q = (t /= s); is(t, [&](int i) { return au[i] / s; }, "divide-assign", 8e-16); m.check(&q == &t, "vec:returns-self", "/="); }
    { Vec3 t = a; t += t; is(t, [&](int i) { return 2 * au[i]; }, "add-to-itself", 0); t -= t; is(t, [&](int) { return 0.0; }, "sub-from-itself", 0); }
    m.check(std::fabs(a.dot(b) - (double)d) <= 2e-15 * (double)(U * V), "vec:dot", what);
    { Vec3 g = a.cross(b); for (int i = 0; i < 3; i++) m.check(std::fabs(g[i] - (double)c[i]) <= 2e-15 * (double)(U * V), "vec:cross", what); }
    bool e = au[0] == bv[0] && au[1] == bv[1] && au[2] == bv[2]; m.check((a == b) == e && (a != b) == !e && a == a && !(a != a), "vec:equality", what);
    { int i = r.i(0, 2); Vec3 t = a; t[i] = au[i] + 1; if (t[i] != au[i]) m.check(!(t == a) && t != a, "vec:equality", what + fmt(" differing in component %d only", i)); }
    m.sig(what);
}
int main(int argc, char** argv) {
    return Mon::get().run(argc, argv, [](Rng& r, long k) {
        if (k < 3) Mon::get().sample(fmt("case %ld: AlignedArray histories, 3/4/5-d arrays, vec3 algebra", k));
        if (k == 0) Mon::get().check(getNumProcessorsOnln() >= 1, "hardware", "fewer than one processor");
        switch (k % 4) { case 0: aligned<double>(r, "double"); break; case 1: aligned<float>(r, "float"); break; case 2: aligned<int>(r, "int"); break; default: aligned<char>(r, "char"); }
        if (k % 2) { arrays<double>(r, "double"); algebra<double>(r, "double"); } else { if (k % 4) arrays<int>(r, "int"); else arrays<float>(r, "float"); algebra<float>(r, "float"); }
    });
}
