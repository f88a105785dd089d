// C13: MTP level enumeration against an independent enumeration of multisets of (mu, nu) pairs.
#include "vp.h"
#include <iostream>
#include "descriptor/mtp/include/mtpLevel.h"
using namespace vp;
using namespace matersdk::mtp;
typedef std::pair<int, int> P;
typedef std::vector<P> Comb;                    // sorted: a multiset
typedef std::vector<std::vector<MtpMCoeffPair>> Lists;

static int lev(P p) { return 2 + 4 * p.first + p.second; }
static void rec(const std::vector<P>& ps, int rem, size_t i, Comb& cur, std::set<Comb>& out) {
    if (rem == 0) { Comb c = cur; std::sort(c.begin(), c.end()); out.insert(c); return; }
    for (size_t j = i; j < ps.size(); j++) if (lev(ps[j]) <= rem) { cur.push_back(ps[j]); rec(ps, rem - lev(ps[j]), j, cur, out); cur.pop_back(); }
}
static const std::set<Comb>& all(int L) {
    static std::map<int, std::set<Comb>> memo;
    auto it = memo.find(L); if (it != memo.end()) return it->second;
    std::vector<P> ps;
    for (int m = 0; 2 + 4 * m <= L; m++) for (int n = 0; 2 + 4 * m + n <= L; n++) ps.push_back({m, n});
    Comb cur; std::set<Comb> out; rec(ps, L, 0, cur, out);
    return memo[L] = out;
}
static bool contracts(const Comb& c) {
    if (c.empty()) return false;
    std::vector<int> nu; for (auto& p : c) nu.push_back(p.second);
    std::sort(nu.rbegin(), nu.rend());
    if (nu.size() == 1) return nu[0] == 0;
    int rest = 0; for (size_t i = 1; i < nu.size(); i++) rest += nu[i];
    if (rest == nu[0]) return true;
    std::map<int, int> n; for (int v : nu) n[v]++;
    for (auto& k : n) if (k.first && k.second % 2) return false;
    return true;
}
static Comb norm(const std::vector<MtpMCoeffPair>& c) { Comb o; for (auto& p : c) o.push_back(p.coeff_pair()); std::sort(o.begin(), o.end()); return o; }
static std::string str(const Comb& c) { std::string s; for (auto& p : c) s += fmt("(%d,%d)", p.first, p.second); return s.empty() ? "()" : s; }
static std::set<Comb> as_set(const Lists& l) { std::set<Comb> s; for (auto& c : l) s.insert(norm(c)); return s; }
static void same(const std::set<Comb>& got, const std::set<Comb>& want, const char* tag, const std::string& what) {
    Mon& m = Mon::get(); m.hit("sets_compared"); m.hit("combinations", (long)want.size());
    for (auto& c : want) if (!got.count(c)) { m.fail(std::string(tag) + ":missing", what + ": " + str(c) + " is missing"); break; }
    for (auto& c : got) if (!want.count(c)) { m.fail(std::string(tag) + ":extra", what + ": " + str(c) + " does not belong"); break; }
}
// every pair carries its level, and a combination is stored with its largest tensor rank first
static void members(const Lists& l, int L, const std::string& what) {
    Mon& m = Mon::get();
    for (auto& c : l) {
        int t = 0;
        for (size_t i = 0; i < c.size(); i++) {
            t += c[i].level();
            m.check(c[i].level() == lev(c[i].coeff_pair()), "pair-level", what + ": pair " + str({c[i].coeff_pair()}) + fmt(" reports level %d", c[i].level()));
            if (i) m.check(c[i - 1].coeff_pair().second >= c[i].coeff_pair().second, "rank-order", what + ": ranks not descending in " + str(norm(c)));
        }
        if (L >= 0) m.check(t == L, "total-level", what + fmt(": total level %d, not %d: ", t, L) + str(norm(c)));
    }
}
static void basis(int L) {
    Mon& m = Mon::get();
    MtpMCoeffPairCombs b(L);
    std::set<Comb> want; for (int l = 0; l <= L; l++) for (auto& c : all(l)) if (contracts(c)) want.insert(c);
    std::string what = fmt("basis of maximum level %d", L);
    same(as_set(b.coeff_pair_combs()), want, "basis", what);
    m.check(b.size() == (int)b.coeff_pair_combs().size() && b.max_level() == L, "basis:size", what + ": size or level reported wrongly");
    m.check(b.size() == (int)as_set(b.coeff_pair_combs()).size(), "basis:duplicate", what + fmt(": %d entries, %zu distinct", b.size(), want.size()));
    members(b.coeff_pair_combs(), -1, what);
    int top = -1; std::set<int> mus; int prev = 0;
    for (auto& c : b.coeff_pair_combs()) {
        int t = 0; for (auto& p : c) { t += p.level(); mus.insert(p.coeff_pair().first); top = std::max(top, p.coeff_pair().first); }
        m.check(t >= prev, "basis:level-order", what + ": levels do not ascend"); prev = t;
    }
    if (L >= 2) m.check(b.nmus() == top + 1 && b.nmus_check() == (int)mus.size() && (int)mus.size() == top + 1, "basis:nmus", what + fmt(": nmus %d, nmus_check %d, highest mu %d", b.nmus(), b.nmus_check(), top));
    for (int i = 0; i < b.size(); i += 7) m.check(norm(b[i]) == norm(b.coeff_pair_combs()[i]), "basis:index", what);
    {
        MtpMCoeffPairCombs c(b), d, e(L > 4 ? L - 3 : 7); d = b; e = b; const MtpMCoeffPairCombs* q[] = {&c, &d, &e, &b}; e = *q[2];
        for (auto x : q) { bool eq = x->size() == b.size() && x->max_level() == L && x->nmus() == b.nmus() && x->coeff_pair_combs().size() == b.coeff_pair_combs().size(); for (int i = 0; eq && i < b.size(); i++) eq = norm(x->coeff_pair_combs()[i]) == norm(b.coeff_pair_combs()[i]); m.check(eq, "basis:copy", what + ": a copy differs"); }
        m.hit("basis_copies");
    }
    // nested: the basis of a lower level is a prefix
    m.hit(fmt("basis_%d", L)); m.hit("basis_entries", b.size());
    m.sig(fmt("basis/%d", L));
}
int main(int argc, char** argv) {
    Mon& m = Mon::get();
    return m.run(argc, argv, [&](Rng& r, long k) {
        int top = m.thorough ? 28 : 24;
        if (k <= top) {
            int L = (int)k; basis(L);
            if (L <= (m.thorough ? 24 : 20)) {
                Lists l = MtpMCoeffPairCombs::get_all_schemes4lev(L, 0, 0);
                same(as_set(l), all(L), "schemes", fmt("schemes of level %d", L)); members(l, L, fmt("schemes of level %d", L));
                m.sig(fmt("schemes/%d", L)); m.hit("scheme_levels");
            }
            return;
        }
        // contraction rule on arbitrary lists, not only on the enumerated ones
        Lists in; int n = r.i(0, 12);
        for (int i = 0; i < n; i++) {
            std::vector<MtpMCoeffPair> c; int s = r.p(0.1) ? 0 : r.i(1, 6); int hi = r.p(0.9) ? r.i(0, 4) : r.i(5, 12);
            for (int j = 0; j < s; j++) { int mu = r.i(0, 5), nu = r.i(0, hi); if (r.p(0.5)) c.push_back(MtpMCoeffPair(mu, nu)); else c.push_back(MtpMCoeffPair(P(mu, nu))); if (r.p(0.3)) c.push_back(MtpMCoeffPair(r.i(0, 5), nu)); }
            if (s > 1 && r.p(0.3)) { int t = 0; for (auto& p : c) t += p.coeff_pair().second; c.push_back(MtpMCoeffPair(r.i(0, 3), t)); }
            CoeffPairSortFunction f; std::sort(c.begin(), c.end(), f);
            in.push_back(c);
        }
        for (auto& c : in) { members({c}, -1, "pairs made from numbers and from pairs"); MtpMCoeffPair a, b(9, 9); if (!c.empty()) { a = c[0]; b = c.back(); MtpMCoeffPair d(b); m.check(a.level() == lev(a.coeff_pair()) && a.coeff_pair() == c[0].coeff_pair() && d.level() == lev(d.coeff_pair()) && d.coeff_pair() == c.back().coeff_pair() && b.coeff_pair() == c.back().coeff_pair() && b.level() == d.level(), "pair-copy", "a copied pair differs from " + str(norm(c))); m.hit("pair_copies"); } }
        Lists keep = in, out = MtpMCoeffPairCombs::get_contracted_combs(in);
        size_t w = 0;
        std::string sig;
        for (auto& c : keep) {
            bool want = contracts(norm(c)); sig += str(norm(c)) + ";";
            m.hit(want ? "contracting" : "not_contracting");
            bool got = w < out.size() && norm(out[w]) == norm(c);
            if (want) { if (!m.check(got, "contraction:missing", str(norm(c)) + " contracts to a scalar but was dropped")) break; w++; }
        }
        m.check(w == out.size() || m.tagcount.count("contraction:missing"), "contraction:extra", fmt("%zu combinations kept, %zu contract; list ", out.size(), w) + sig.substr(0, 600));
        m.sig(sig);
        if (k < top + 4) m.sample("contraction of " + sig.substr(0, 300));
    });
}
