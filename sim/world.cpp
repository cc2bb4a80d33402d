#include "world.h"
#include <cstdarg>
static std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char *f, ...) {
    char b[700]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
std::string targets_name(const std::string &base, int n) {
    return n > 0 ? base + fmt("%04d", n) + "_targets" : base + "_targets";
}
std::string Store::f_targets(int cam, int n) const { return targets_name(img[cam], n); }
std::vector<std::string> Store::all(int n) const {
    std::vector<std::string> r = {f_corres(n), f_linkage(n)};
    if (with_prio) r.push_back(f_prio(n));
    for (int c = 0; c < ncams(); c++) r.push_back(f_targets(c, n));
    return r;
}
std::string text_targets(const std::vector<T2> &t) {
    std::string r = fmt("%d\n", (int)t.size());
    for (auto &a : t) r += fmt("%4d %9.4f %9.4f %5d %5d %5d %5d %5d\n", a.pnr, a.x, a.y, a.n, a.nx, a.ny, a.sumg, a.tnr);
    return r;
}
static int cnt(const std::vector<P3> &p, int o) { return o != -99 ? o : (int)p.size(); }
std::string text_corres(const std::vector<P3> &p, int o) {
    std::string r = fmt("%d\n", cnt(p, o)); int k = 0;
    for (auto &a : p) r += fmt("%4d %9.3f %9.3f %9.3f %4d %4d %4d %4d\n", ++k, a.x[0], a.x[1], a.x[2], a.p[0], a.p[1], a.p[2], a.p[3]);
    return r;
}
std::string text_linkage(const std::vector<P3> &p, int o) {
    std::string r = fmt("%d\n", cnt(p, o));
    for (auto &a : p) r += fmt("%4d %4d %10.3f %10.3f %10.3f\n", a.prev, a.next, a.x[0], a.x[1], a.x[2]);
    return r;
}
std::string text_prio(const std::vector<P3> &p, int o) {
    std::string r = fmt("%d\n", cnt(p, o));
    for (auto &a : p) r += fmt("%4d %4d %10.3f %10.3f %10.3f %d\n", a.prev, a.next, a.x[0], a.x[1], a.x[2], a.prio);
    return r;
}
void put_frame(Disk &d, const Store &s, int n, const FrameData &f, bool links, bool prio) {
    d.files[s.f_corres(n)] = text_corres(f.parts);
    if (links) d.files[s.f_linkage(n)] = text_linkage(f.parts);
    if (prio) d.files[s.f_prio(n)] = text_prio(f.parts);
    for (int c = 0; c < s.ncams(); c++) d.files[s.f_targets(c, n)] = text_targets(f.targets[c]);
}
std::vector<std::string> tokens(const std::string &s) {
    std::vector<std::string> r; size_t i = 0;
    while (i < s.size()) {
        while (i < s.size() && isspace((unsigned char)s[i])) i++;
        size_t j = i; while (j < s.size() && !isspace((unsigned char)s[j])) j++;
        if (j > i) r.push_back(s.substr(i, j - i));
        i = j;
    }
    return r;
}
bool tok_int(const std::string &t, int &v) { char *e; long l = strtol(t.c_str(), &e, 10); v = (int)l; return !t.empty() && e == t.c_str() + t.size(); }
bool tok_double(const std::string &t, double &v) { char *e; v = strtod(t.c_str(), &e); return !t.empty() && e == t.c_str() + t.size(); }
struct Tok {
    std::vector<std::string> t; size_t k = 0; bool ok = true;
    explicit Tok(const std::string &s) : t(tokens(s)) {}
    int i() { int v = 0; if (k >= t.size() || !tok_int(t[k++], v)) ok = false; return v; }
    double d() { double v = 0; if (k >= t.size() || !tok_double(t[k++], v)) ok = false; return v; }
};
bool parse_targets(const std::string &s, std::vector<T2> &out) {
    out.clear(); Tok t(s); int n = t.i(); if (!t.ok || n < 0) return false;
    for (int k = 0; k < n; k++) {
        T2 a; a.pnr = t.i(); a.x = t.d(); a.y = t.d(); a.n = t.i(); a.nx = t.i(); a.ny = t.i(); a.sumg = t.i(); a.tnr = t.i();
        if (!t.ok) return false;
        out.push_back(a);
    }
    return true;
}
bool parse_corres(const std::string &s, std::vector<P3> &out, int &n) {
    out.clear(); Tok t(s); n = t.i(); if (!t.ok) return false;
    for (int k = 0; k < n; k++) {
        P3 a; t.i(); for (double &x : a.x) x = t.d(); for (int &p : a.p) p = t.i();
        if (!t.ok) return false;
        out.push_back(a);
    }
    if (n < 0) n = 0;
    return true;
}
bool parse_linkage(const std::string &s, std::vector<P3> &out, int &n) {
    Tok t(s); n = t.i(); if (!t.ok) return false;
    if (n > 0 && (int)out.size() < n) out.resize(n);
    for (int k = 0; k < n; k++) {
        int a = t.i(), b = t.i(); t.d(); t.d(); t.d(); if (!t.ok) return false;
        out[k].prev = a; out[k].next = b;
    }
    if (n < 0) n = 0;
    return true;
}
bool parse_prio(const std::string &s, std::vector<P3> &out, int &n) {
    Tok t(s); n = t.i(); if (!t.ok) return false;
    if (n > 0 && (int)out.size() < n) out.resize(n);
    for (int k = 0; k < n; k++) {
        t.i(); t.i(); t.d(); t.d(); t.d(); int p = t.i(); if (!t.ok) return false;
        out[k].prio = p;
    }
    if (n < 0) n = 0;
    return true;
}
bool get_frame(const Disk &d, const Store &s, int n, bool links, bool prio, FrameData &f, std::string *why) {
    auto bad = [&](const std::string &m) { if (why) *why = m; return false; };
    auto get = [&](const std::string &nm, const std::string *&t) { auto i = d.files.find(nm); if (i == d.files.end()) return false; t = &i->second; return true; };
    const std::string *t; int c, c2; f.targets.assign(s.ncams(), {});
    if (!get(s.f_corres(n), t)) return bad("missing " + s.f_corres(n));
    if (!parse_corres(*t, f.parts, c)) return bad("incomplete " + s.f_corres(n));
    if (links) {
        if (!get(s.f_linkage(n), t)) return bad("missing " + s.f_linkage(n));
        if (!parse_linkage(*t, f.parts, c2)) return bad("incomplete " + s.f_linkage(n));
        if (c2 != c) return bad("counts differ " + s.f_linkage(n));
    }
    if (prio) {
        if (!get(s.f_prio(n), t)) return bad("missing " + s.f_prio(n));
        if (!parse_prio(*t, f.parts, c2)) return bad("incomplete " + s.f_prio(n));
        if (c2 != c) return bad("counts differ " + s.f_prio(n));
    }
    for (int k = 0; k < s.ncams(); k++) {
        if (!get(s.f_targets(k, n), t)) return bad("missing " + s.f_targets(k, n));
        if (!parse_targets(*t, f.targets[k])) return bad("incomplete " + s.f_targets(k, n));
    }
    return true;
}
bool near_prec(double a, double b, double unit) {
    return fabs(a - b) <= 0.5 * unit * (1 + 1e-6) + 1e-12 * (fabs(a) + fabs(b));
}
std::string show(const P3 &p) {
    return fmt("(%.4f %.4f %.4f) p %d %d %d %d prev %d next %d prio %d", p.x[0], p.x[1], p.x[2], p.p[0], p.p[1], p.p[2], p.p[3], p.prev, p.next, p.prio);
}
std::string show(const T2 &t) {
    return fmt("pnr %d (%.5f %.5f) n %d %d %d sumg %d tnr %d", t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr);
}
double any_coord(Rng &r, int style) {
    switch (r.below(style == 0 ? 4 : 8)) {
    case 0: case 1: case 2: return r.uni(-150, 150);
    case 3: return r.uni(0, 2000);
    case 4: return r.uni(-100000, 100000);
    case 5: return 0;
    case 6: return (double)r.range(-2000, 2000) / 2.0;
    default: return r.uni(-0.01, 0.01);
    }
}
int any_int(Rng &r, int style) {
    switch (r.below(style == 0 ? 4 : 8)) {
    case 0: case 1: return (int)r.range(0, 500);
    case 2: return -1;
    case 3: return (int)r.range(0, 9999);
    case 4: return (int)r.range(10000, 202399);
    case 5: return -999;
    case 6: return (int)r.range(9990, 10010);
    default: return (int)r.range(-99999, 9999999);
    }
}
std::vector<T2> random_targets(u64 seed, int nt, int style) {
    Rng r(mix(seed, 11)); std::vector<T2> v;
    for (int k = 0; k < nt; k++) {
        T2 t; t.pnr = style ? any_int(r, style) : k; t.x = any_coord(r, style); t.y = any_coord(r, style);
        t.n = any_int(r, style); t.nx = any_int(r, style); t.ny = any_int(r, style); t.sumg = any_int(r, style); t.tnr = any_int(r, style);
        v.push_back(t);
    }
    return v;
}
FrameData random_frame(u64 seed, int np, int nt, int ncams, int style) {
    FrameData f; Rng r(mix(seed, 12));
    for (int k = 0; k < np; k++) {
        P3 p; for (double &x : p.x) x = any_coord(r, style);
        for (int &q : p.p) q = any_int(r, style);
        p.prev = any_int(r, style); p.next = r.chance(0.2) ? -2 : any_int(r, style); p.prio = any_int(r, style);
        f.parts.push_back(p);
    }
    for (int c = 0; c < ncams; c++)   // cameras differ in how many targets they have
        f.targets.push_back(random_targets(mix(seed, 100 + c), nt ? (int)r.below(nt + 1) : 0, style));
    return f;
}
