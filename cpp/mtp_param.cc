// C14: MTP template files: what is loaded is what is written, anything malformed is refused cleanly.
#include "vp.h"
#include <iostream>
#include <fstream>
#include "descriptor/mtpr/include/mtpParam.h"
using namespace vp;
using namespace matersdk::mtpr;
typedef std::vector<std::vector<int>> Rows;
struct Tpl { int moments = 0; Rows basic, times; std::vector<int> map; };

static std::string GAP = ", ";                              // what stands between two rows
static std::string rows(const Rows& r) { std::string s = "{"; for (size_t i = 0; i < r.size(); i++) s += fmt("%s{%d, %d, %d, %d}", i ? GAP.c_str() : "", r[i][0], r[i][1], r[i][2], r[i][3]); return s + "}"; }
static std::string list(const std::vector<int>& v) { std::string s = "{"; for (size_t i = 0; i < v.size(); i++) s += fmt("%s%d", i ? ", " : "", v[i]); return s + "}"; }
static std::vector<std::string> lines(const Tpl& t, Rng& r) {
    std::vector<std::string> o = {"MTP", "version = 1.1.0", "potential_name = MTP1m", fmt("species_count = %d", r.i(1, 5)), "potential_tag = ", "radial_basis_type = RBChebyshev",
        fmt("\tmin_dist = %d", r.i(1, 2)), fmt("\tmax_dist = %d", r.i(3, 7)), "\tradial_basis_size = 8", "\tradial_funcs_count = 2",
        fmt("alpha_moments_count = %d", t.moments), fmt("alpha_index_basic_count = %zu", t.basic.size()), "alpha_index_basic = " + rows(t.basic),
        fmt("alpha_index_times_count = %zu", t.times.size()), "alpha_index_times = " + rows(t.times), fmt("alpha_scalar_moments = %zu", t.map.size()), "alpha_moment_mapping = " + list(t.map)};
    return o;
}
static std::string join(const std::vector<std::string>& l) { std::string s; for (auto& x : l) s += x + "\n"; return s; }
static std::string FN;
static void put(const std::string& s) { FILE* f = fopen(FN.c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }

static bool same(const MtpParam& p, const Tpl& t, std::string& why) {
    if (p.alpha_moments_count() != t.moments) { why = fmt("alpha_moments_count %d, file has %d", p.alpha_moments_count(), t.moments); return false; }
    if (p.alpha_index_basic_count() != (int)t.basic.size()) { why = "alpha_index_basic_count"; return false; }
    if (p.alpha_index_times_count() != (int)t.times.size()) { why = "alpha_index_times_count"; return false; }
    if (p.alpha_scalar_moments() != (int)t.map.size()) { why = "alpha_scalar_moments"; return false; }
    for (size_t i = 0; i < t.basic.size(); i++) for (int j = 0; j < 4; j++) if (p.alpha_index_basic()[i][j] != t.basic[i][j]) { why = fmt("alpha_index_basic[%zu][%d]", i, j); return false; }
    for (size_t i = 0; i < t.times.size(); i++) for (int j = 0; j < 4; j++) if (p.alpha_index_times()[i][j] != t.times[i][j]) { why = fmt("alpha_index_times[%zu][%d]", i, j); return false; }
    for (size_t i = 0; i < t.map.size(); i++) if (p.alpha_moment_mapping()[i] != t.map[i]) { why = fmt("alpha_moment_mapping[%zu]", i); return false; }
    return true;
}
static std::vector<int> ints(const std::string& s) { std::vector<int> o; const char* p = s.c_str(); while (*p) { if (*p == '-' || (*p >= '0' && *p <= '9')) { char* e; int v = (int)strtol(p, &e, 10); if (e == p) p++; else { o.push_back(v); p = e; } } else p++; } return o; }
static bool parse(const std::string& text, Tpl& t) {
    std::map<std::string, std::string> kv; std::istringstream is(text); std::string l;
    while (std::getline(is, l)) { size_t e = l.find('='); if (e == std::string::npos) continue; std::string k = l.substr(0, e); k.erase(k.find_last_not_of(" \t") + 1); k.erase(0, k.find_first_not_of(" \t")); kv[k] = l.substr(e + 1); }
    for (const char* k : {"alpha_moments_count", "alpha_index_basic_count", "alpha_index_basic", "alpha_index_times_count", "alpha_index_times", "alpha_scalar_moments", "alpha_moment_mapping"}) if (!kv.count(k)) return false;
    t.moments = ints(kv["alpha_moments_count"])[0];
    auto tab = [](const std::vector<int>& v) { Rows r; for (size_t i = 0; i + 3 < v.size(); i += 4) r.push_back({v[i], v[i + 1], v[i + 2], v[i + 3]}); return r; };
    t.basic = tab(ints(kv["alpha_index_basic"])); t.times = tab(ints(kv["alpha_index_times"])); t.map = ints(kv["alpha_moment_mapping"]);
    return (int)t.basic.size() == ints(kv["alpha_index_basic_count"])[0] && (int)t.times.size() == ints(kv["alpha_index_times_count"])[0] && (int)t.map.size() == ints(kv["alpha_scalar_moments"])[0];
}
static Tpl gen(Rng& r, bool big) {
    Tpl t; int top = big ? 300 : 30; bool neg = r.p(0.15), empty = r.p(0.15);
    t.moments = r.i(1, 4000);
    for (int i = r.i(1, top); i > 0; i--) t.basic.push_back({r.i(0, 5), r.i(0, 9), r.i(0, 9), r.i(0, 9)});
    if (!empty) for (int i = r.i(1, top * 2); i > 0; i--) t.times.push_back({r.i(neg ? -9 : 0, 4000), r.i(0, 4000), r.i(1, 60), r.i(0, 4000)});
    for (int i = r.i(1, top); i > 0; i--) t.map.push_back(r.i(0, 4000));
    return t;
}
enum Out { LOADED, REFUSED, OTHER };
static Out load(std::string& msg, bool twice, const std::string& fn) {
    try { if (twice) { MtpParam p; p._load(fn); } else MtpParam p(fn); return LOADED; }
    catch (MtpException& e) { msg = e.what(); return REFUSED; }
    catch (...) { return OTHER; }
}
static void refuse(const char* kind, const std::string& text) {
    Mon& m = Mon::get(); put(text); std::string msg;
    Out o = OTHER;
    leakcheck(std::string("leak:") + kind, "refused template", [&] { std::string a; o = load(a, false, FN); msg.clear(); });
    m.hit(std::string("malformed_") + kind);
    m.check(o != OTHER, "wrong-exception", std::string(kind) + ": something else than an MtpException was thrown");
    m.check(o != LOADED, std::string("accepted:") + kind, std::string(kind) + " template was accepted: ..." + text.substr(text.size() > 700 ? text.size() - 700 : 0));
}
int main(int argc, char** argv) {
    Mon& m = Mon::get();
    char cwd[1000]; if (!getcwd(cwd, sizeof cwd)) return 3;
    std::string dir = getenv("VP_TEMPLATES") ? getenv("VP_TEMPLATES") : "";
    return m.run(argc, argv, [&](Rng& r, long k) {
        FN = fmt("t%d.almtp", (int)getpid());
        if (k < 12) {                                       // the templates the repository ships
            std::string f = dir + fmt("/%02d.almtp", 6 + 2 * (int)k);
            std::ifstream in(f); std::stringstream ss; ss << in.rdbuf(); Tpl t;
            if (!in.is_open() || !parse(ss.str(), t)) { m.fail("shipped:inconsistent", f + " cannot be parsed or its counts disagree with its tables"); return; }
            try { MtpParam p(f); std::string why; m.check(same(p, t, why), "shipped:differs", f + ": " + why); }
            catch (MtpException& e) { m.fail("shipped:refused", f + ": " + e.what()); }
            // the product rules refer to moments that are known by then
            std::vector<bool> known(t.moments, false); for (size_t i = 0; i < t.basic.size() && i < known.size(); i++) known[i] = true;
            bool ok = t.basic.size() <= known.size();
            for (auto& x : t.times) { for (int j : {0, 1, 3}) if (x[j] < 0 || x[j] >= t.moments) { ok = false; break; } if (!ok) break; if (!known[x[0]] || !known[x[1]]) ok = false; known[x[3]] = true; }
            for (int x : t.map) if (x < 0 || x >= t.moments || !known[x]) ok = false;
            m.check(ok, "shipped:dangling-index", f + ": a product or scalar refers to a moment that is never computed");
            m.hit("shipped"); m.sig(f);
            return;
        }
        GAP = r.p(0.8) ? ", " : "," + std::string((size_t)r.i(0, 90), ' ');
        Tpl t = gen(r, r.p(0.1)); auto l = lines(t, r);
        m.sig(fmt("%zu/%zu/%zu/%d", t.basic.size(), t.times.size(), t.map.size(), (int)(k % 10)));
        // an intact template loads as written, by constructor and by loading into a used object
        put(join(l)); std::string why;
        try {
            MtpParam p(FN); m.check(same(p, t, why), "differs", why + " in " + join(l).substr(0, 900)); m.hit("intact"); m.hit("rows", (long)(t.basic.size() + t.times.size() + t.map.size()));
        } catch (MtpException& e) { m.fail("refused", std::string("intact template refused: ") + e.what()); }
        if (k % 5 == 0) {
            Tpl t2 = gen(r, false); std::string a = FN + ".b";
            leakcheck("leak:reload", "template loaded over another", [&] {
                std::string keep = FN; MtpParam p(FN); Rng r2(5); FN = a; put(join(lines(t2, r2))); p._load(FN); std::string w;
                m.check(same(p, t2, w), "reload:differs", w); ::unlink(FN.c_str()); FN = keep; });
            m.hit("reloads");
        }
        if (k % 5 == 1) {                                   // copies own their tables, moves hand them over
            Tpl t2 = gen(r, false), none; std::string a = FN + ".c"; int way = r.i(0, 5);
            leakcheck("leak:copy", fmt("copied template, way %d", way), [&] {
                std::string keep = FN, w, ctx = fmt("way %d: ", way); { Rng r2(5); FN = a; put(join(lines(t2, r2))); FN = keep; }
                MtpParam* p = new MtpParam(FN); MtpParam q; if (r.p(0.5)) q._load(a);
                MtpParam e;
                switch (way) {
                    case 0: { MtpParam c(*p); p->_load(a); m.check(same(c, t, w), "copy:differs", ctx + w); m.check(same(*p, t2, w), "copy:source", ctx + w); q = c; break; }
                    case 1: { q = *p; m.check(same(*p, t, w), "copy:source", ctx + w); break; }
                    case 2: { MtpParam c(std::move(*p)); *p = MtpParam(a); m.check(same(c, t, w), "move:differs", ctx + w); m.check(same(*p, t2, w), "move:source", ctx + w); q = std::move(c); break; }
                    case 3: { q = std::move(*p); break; }
                    case 4: { MtpParam& s = *p; *p = s; m.check(same(*p, t, w), "copy:self", ctx + w); *p = std::move(s); m.check(same(*p, t, w), "move:self", ctx + w); q = *p; break; }
                    default: { MtpParam c(e); m.check(same(c, none, w), "copy:empty", ctx + w); c = *p; c = e; m.check(same(c, none, w), "copy:empty", ctx + w); c = MtpParam(FN); MtpParam d(std::move(c)); q = d; }
                }
                delete p; m.check(same(q, t, w), "copy:differs", ctx + w); ::unlink(a.c_str()); });
            m.hit("copies");
        }
        if (m.cur < 16) m.sample(join(l).substr(0, 700));
        // malformed variants
        std::string text = join(l);
        switch (k % 10) {
            case 0: case 1: { size_t last = text.rfind('}'); refuse("truncated", text.substr(0, r.p(0.5) ? r.i(1, (int)last - 1) : (int)last - r.i(0, std::min(40, (int)last - 1)))); break; }
            case 2: { auto l2 = l; l2.erase(l2.begin() + r.i(10, 16)); refuse("missing-line", join(l2)); break; }
            case 3: { auto l2 = l; std::string& s = l2[r.i(10, 16)]; size_t e = s.find(' '); s[r.i(0, (int)e - 1)] = '#'; refuse("renamed-key", join(l2)); break; }
            case 4: { auto l2 = l; int i = r.pick(*new std::vector<int>{10, 11, 13, 15}); l2[i] = l2[i].substr(0, l2[i].find('=')) + "= " + (r.p(0.5) ? "x" : "{}"); refuse("non-numeric-count", join(l2)); break; }
            case 5: { auto l2 = l; int i = t.times.empty() ? 12 : r.pick(*new std::vector<int>{12, 14}); std::string& s = l2[i]; std::vector<size_t> d; for (size_t j = s.find('{'); j < s.size(); j++) if (isdigit(s[j]) && !isdigit(s[j - 1]) && s[j - 1] != '-') d.push_back(j);
                      size_t j = r.pick(d); s[j] = 'q'; refuse("non-numeric-entry", join(l2)); break; }
            case 6: { auto l2 = l; int i = r.pick(*new std::vector<int>{11, 13, 15}); size_t n = i == 11 ? t.basic.size() : i == 13 ? t.times.size() : t.map.size(); l2[i] = l2[i].substr(0, l2[i].find('=')) + fmt("= %zu", n + r.i(1, 20)); refuse("count-too-large", join(l2)); break; }
            case 7: { auto l2 = l; int i = r.pick(*new std::vector<int>{10, 11, 13, 15}); l2[i] = l2[i].substr(0, l2[i].find('=')) + fmt("= -%d", r.i(1, 20)); refuse("negative-count", join(l2)); break; }
            case 8: { auto l2 = l; int i = r.i(10, 15); std::swap(l2[i], l2[i + 1]); refuse("swapped-lines", join(l2)); break; }
            default: {                                      // arbitrary damage: refused or loaded, never a memory error or a leak
                std::string s = text; const char cs[] = "{},= x-9#\n"; int n = r.i(1, 6);
                size_t from = s.find("alpha_moments_count");
                for (int i = 0; i < n; i++) { size_t p = (size_t)r.i((int)from, (int)s.size() - 1); if (isdigit(s[p]) && r.p(0.7)) s[p] = (char)('0' + r.i(0, 9)); else if (r.p(0.3)) s.erase(p, 1); else s[p] = cs[r.i(0, 9)]; }
                std::vector<int> v = ints(s.substr(from)); bool huge = false; for (int x : v) if (x > 100000) huge = true;
                if (huge) break;
                put(s); Out o = OTHER; leakcheck("leak:damaged", "damaged template", [&] { std::string a; o = load(a, false, FN); });
                m.hit(o == LOADED ? "damaged_loaded" : "damaged_refused"); m.check(o != OTHER, "wrong-exception", "damaged template: not an MtpException");
            }
        }
        ::unlink(FN.c_str());
        std::string msg;
        if (k % 10 == 0) { m.check(load(msg, k % 20 == 0, fmt("no-such-%ld.almtp", k)) == REFUSED, "accepted:no-file", "a file that does not exist was accepted"); m.hit("malformed_no-file"); }
    });
}
