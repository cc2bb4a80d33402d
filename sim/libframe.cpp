#include "libframe.h"
void fill_targets(target *dst, const std::vector<T2> &t) {
    for (size_t k = 0; k < t.size(); k++) {
        dst[k].pnr = t[k].pnr; dst[k].x = t[k].x; dst[k].y = t[k].y; dst[k].n = t[k].n; dst[k].nx = t[k].nx; dst[k].ny = t[k].ny;
        dst[k].sumg = t[k].sumg; dst[k].tnr = t[k].tnr;
    }
}
void fill_parts(P *pi, corres *c, const std::vector<P3> &p) {
    for (size_t k = 0; k < p.size(); k++) {
        for (int j = 0; j < 3; j++) pi[k].x[j] = p[k].x[j];
        pi[k].prev = p[k].prev; pi[k].next = p[k].next; pi[k].prio = p[k].prio;
        for (int j = 0; j < 4; j++) c[k].p[j] = p[k].p[j];
        c[k].nr = k + 1;
    }
}
void fill_frame(frame *f, const FrameData &d) {
    fill_parts(f->path_info, f->correspond, d.parts); f->num_parts = d.parts.size();
    for (size_t c = 0; c < d.targets.size(); c++) { fill_targets(f->targets[c], d.targets[c]); f->num_targets[c] = d.targets[c].size(); }
}
void check_targets(const char *cls, const std::string &what, const target *g, int n, const std::vector<T2> &w, double u) {
    if (n != (int)w.size()) fail(cls, "%s: %d targets instead of %zu", what.c_str(), n, w.size());
    for (int k = 0; k < n; k++) {
        T2 t; t.pnr = g[k].pnr; t.x = g[k].x; t.y = g[k].y; t.n = g[k].n; t.nx = g[k].nx; t.ny = g[k].ny; t.sumg = g[k].sumg; t.tnr = g[k].tnr;
        if (t.pnr != w[k].pnr || t.n != w[k].n || t.nx != w[k].nx || t.ny != w[k].ny || t.sumg != w[k].sumg || t.tnr != w[k].tnr ||
            !near_prec(t.x, w[k].x, u) || !near_prec(t.y, w[k].y, u))
            fail(cls, "%s: target %d is %s instead of %s", what.c_str(), k, show(t).c_str(), show(w[k]).c_str());
    }
}
void check_parts(const char *cls, const std::string &what, const P *pi, const corres *c, int n, const std::vector<P3> &w, double u, bool nr) {
    if (n != (int)w.size()) fail(cls, "%s: %d particles instead of %zu", what.c_str(), n, w.size());
    for (int k = 0; k < n; k++) {
        P3 g; bool ok = true;
        for (int j = 0; j < 3; j++) { g.x[j] = pi[k].x[j]; if (!near_prec(g.x[j], w[k].x[j], u)) ok = false; }
        for (int j = 0; j < 4; j++) { g.p[j] = c[k].p[j]; if (g.p[j] != w[k].p[j]) ok = false; }
        g.prev = pi[k].prev; g.next = pi[k].next; g.prio = pi[k].prio;
        if (g.prev != w[k].prev || g.next != w[k].next || g.prio != w[k].prio) ok = false;
        if (!ok) fail(cls, "%s: particle %d is %s instead of %s", what.c_str(), k, show(g).c_str(), show(w[k]).c_str());
        if (nr && c[k].nr != k + 1) fail(cls, "%s: particle %d is numbered %d", what.c_str(), k, c[k].nr);
        if (nr && (pi[k].inlist != 0 || pi[k].finaldecis != 1000000.0f || pi[k].linkdecis[0] != -999 || pi[k].linkdecis[POSI - 1] != -999 || pi[k].decis[0] != 0 || pi[k].decis[POSI - 1] != 0))
            fail(cls, "%s: particle %d does not have the default values of fields that are not stored", what.c_str(), k);
    }
}
void check_frame(const char *cls, const std::string &what, const frame *f, const FrameData &w, double ux, double ut) {
    int n = f->num_parts < 0 ? 0 : f->num_parts;   // -1: tracking's mark for a frame without particles
    check_parts(cls, what, f->path_info, f->correspond, n, w.parts, ux);
    for (size_t c = 0; c < w.targets.size(); c++)
        check_targets(cls, what + " camera " + std::to_string(c), f->targets[c], f->num_targets[c], w.targets[c], ut);
}
FrameData with_defaults(FrameData f, bool links, bool prio) {
    for (auto &p : f.parts) { if (!links) { p.prev = -1; p.next = -2; } if (!prio) p.prio = 4; }
    return f;
}
FrameData rounded(FrameData f) {
    int n; FrameData g; parse_corres(text_corres(f.parts), g.parts, n);
    for (size_t k = 0; k < f.parts.size(); k++) { g.parts[k].prev = f.parts[k].prev; g.parts[k].next = f.parts[k].next; g.parts[k].prio = f.parts[k].prio; }
    g.targets.resize(f.targets.size());
    for (size_t c = 0; c < f.targets.size(); c++) parse_targets(text_targets(f.targets[c]), g.targets[c]);
    return g;
}
Store random_store(Rng &r, int k, int ncams, bool prio) {
    Store s; s.with_prio = prio; std::string d = "s" + std::to_string(k) + "/";
    if (r.chance(0.2)) d += "res%d/";
    if (r.chance(0.1)) d += std::string(r.range(20, 200), 'n') + "/";
    s.corres = d + "rt_is"; s.linkage = d + "ptv_is"; s.prio = d + "added";
    const char *suf[] = {".", "", "_", "0", ".1."};
    std::string sf = suf[r.below(5)];
    for (int c = 0; c < ncams; c++) s.img.push_back(d + "cam" + std::string(1, 'A' + c) + sf);
    return s;
}
void put_store(Plan &p, int k, const Store &s) {
    Line l; l.t = {"store", std::to_string(k), s.with_prio ? "1" : "0", s.corres, s.linkage, s.prio};
    for (auto &i : s.img) l.t.push_back(i);
    p.lines.push_back(l);
}
bool get_store(const Line &l, Store &s) {
    if (l.t.size() < 7) return false;
    s.with_prio = l.i(2); s.corres = l.s(3); s.linkage = l.s(4); s.prio = l.s(5);
    s.img.assign(l.t.begin() + 6, l.t.end()); return true;
}
