#include "trackscene.h"
#include <algorithm>
// ---------------------------------------------------------------- scenes
int TrackScene::max_targets() const {
    size_t m = 1;
    for (auto &f : frames) { size_t n = f.second.parts.size(); for (auto &t : f.second.targets) n += t.size(); m = std::max(m, n); }
    return (int)m + 10;
}
void TrackScene::put(Disk &d) const { for (auto &f : frames) put_frame(d, st, f.first, f.second, false, false); }
TrackGen random_track_gen(Rng &r, int tier) {
    TrackGen g; g.nc = r.chance(0.6) ? 4 : 1 + (int)r.below(4);
    g.frames = r.chance(0.15) ? 2 + (int)r.below(3) : 4 + (int)r.below(tier ? 14 : 7);
    g.dense = r.chance(0.5); g.parts = g.dense ? 4 + (int)r.below(tier ? 45 : 26) : r.chance(0.03) ? 0 : 1 + (int)r.below(8);
    g.add = r.chance(0.4); g.quiet = r.chance(0.15); g.outside = g.frames >= 4 && r.chance(0.2) ? 1 + (int)r.below(3) : 0;
    if (!g.dense && r.chance(0.45)) { g.clear = true; g.nc = std::max(2, g.nc); g.parts = 1 + (int)r.below(5); g.frames = std::max(4, g.frames); }
    return g;
}
void gen_track(Rng &r, Plan &p, const TrackGen &g) {
    Rig rig = random_rig(r, g.nc, false);
    if (g.image) {   // the same sensors with fewer pixels
        int nx = g.image, ny = std::max(64, g.image * rig.imy / rig.imx); rig.px *= (double)rig.imx / nx; rig.py *= (double)rig.imy / ny; rig.imx = nx; rig.imy = ny; rig.chf = 0;
        rig.eps0 = r.uni(1.2, 2.0) * std::max(rig.px, rig.py); rig.cn = rig.cnx = rig.cny = rig.csumg = 0.05; rig.corrmin = 1e-3; rig.allcam = 0;
    }
    // particle spacing and motion relative to each other decide how hard the scene is
    double xr = rig.X[1], zl = std::max(rig.Zmin[0], rig.Zmin[1]) * 0.9, zh = std::min(rig.Zmax[0], rig.Zmax[1]) * 0.9;
    double v = xr * (g.dense ? r.uni(0.01, 0.15) : g.image ? r.uni(0.01, 0.03) : g.clear ? r.uni(0.002, 0.012) : r.uni(0.005, 0.06));
    TPar t; double lim = v * g.image ? r.uni(1.8, 2.5) : r.uni(1.1, g.clear ? 1.6 : 3);
    if (!rig.air()) for (int c = 0; c < g.nc; c++) {   // keep whatever is searched for on the far side of the glass
        Cam &k = rig.cam[c]; double gl = len(k.G), top = dot(k.c, unit(k.G)) - rig.d - 25, want = gl + 6 * lim;
        if (std::min(top, want) > gl) k.G = (std::min(top, want) / gl) * k.G;
    }
    put_rig(p, rig);
    for (int i = 0; i < 3; i++) { t.dv[i][0] = -lim * r.uni(0.7, 1.3); t.dv[i][1] = lim * r.uni(0.7, 1.3); }
    t.dacc = lim * r.uni(0.2, 2); t.dangle = r.chance(0.5) ? r.uni(60, 200) : r.uni(10, 120); t.add = g.add;
    if (g.image) { t.dacc = lim * r.uni(1.2, 1.8); t.dangle = 201; }
    put_tpar(p, t);
    int first = r.pick(std::vector<i64>{1, 1, 0, 7, 97, 998, 9998, 10001, 123456}), n0 = first - (first > 5 ? g.outside : 0), n1 = first + g.frames - 1 + g.outside;
    p.put("seq", first, first + g.frames - 1); p.put("tol", r.pick(std::vector<double>{1e-5, 1e-4, 1e-2, 10000.}));
    p.put("names", r.below(5)); p.put("feat", r.below(1u << 30));
    p.put("noise", g.quiet ? 0.0 : r.uni(0, 0.02) * v, g.quiet ? 0.0 : r.uni(0, 0.3));
    double acc = r.chance(0.5) ? 0 : v * r.uni(0, 0.3), wob = r.chance(0.3) ? v * r.uni(0, 0.4) : 0; bool still = r.chance(0.1), grid = r.chance(0.1);
    V3 drift{r.uni(-v, v) * 0.7, r.uni(-v, v) * 0.7, r.uni(-v, v) * 0.5}; V3 c0{r.uni(-xr, xr) / 3, r.uni(-xr, xr) / 3, (zl + zh) / 2}; bool clump = g.dense && r.chance(0.6);
    for (int k = 0; k < g.parts; k++) {
        int t0 = n0, t1 = n1;
        if (r.chance(0.2)) t0 = (int)r.range(n0, n1);
        if (r.chance(0.2)) t1 = (int)r.range(t0, n1);
        V3 q{r.uni(-xr, xr), r.uni(-xr, xr), r.uni(zl, zh)}; if (clump && r.chance(0.8)) { double cs = lim * r.uni(1, 4); q = c0 + V3{r.uni(-cs, cs), r.uni(-cs, cs), r.uni(-cs, cs) * 0.5}; }
        V3 u = drift + V3{r.uni(-v, v) * 0.3, r.uni(-v, v) * 0.3, r.uni(-v, v) * 0.3}; if (r.chance(0.15)) u = V3{r.uni(-v, v), r.uni(-v, v), r.uni(-v, v)};
        if (still && r.chance(0.5)) u = V3();
        if (grid) { auto q1 = [](double a) { return round(a * 8) / 8; }; q = {q1(q.x), q1(q.y), q1(q.z)}; u = {q1(u.x), q1(u.y), q1(u.z)}; }
        // where it is in the middle of the sequence
        double tm = 0.5 * (n0 + n1); q = q - (tm - t0) * u;
        p.put("traj", k, t0, t1, q.x, q.y, q.z, u.x, u.y, u.z, r.uni(-acc, acc), r.uni(-acc, acc), r.uni(-acc, acc), wob);
    }
    int total = g.parts * (n1 - n0 + 1);
    bool um = !g.clear;
    if (!g.quiet) {
        if (r.chance(0.6)) p.put("hloss", r.uni(0, 0.15), um ? r.uni(0, g.add ? 0.2 : 0.08) : 0., r.uni(0, 0.04), r.below(1u << 30));   // lost detections, unmatched, absent
        for (int k = (int)r.below(1 + std::min(total, 12)); k > 0; k--) p.put("lose", r.range(n0, n1), r.below(std::max(1, g.parts)), r.below(g.nc));
        for (int k = (int)r.below(1 + std::min(total, g.add ? 16 : 6)); um && k > 0; k--) p.put("unmatched", r.range(n0, n1), r.below(std::max(1, g.parts)));
        for (int k = (int)r.below(1 + std::min(total, 6)); k > 0; k--) p.put("absent", r.range(n0, n1), r.below(std::max(1, g.parts)));
        if (um && r.chance(0.5)) p.put("clutter", r.below(g.dense ? 40 : 10), r.below(1u << 30));
        if (r.chance(0.1)) p.put("outage", r.range(n0, n1), r.below(g.nc));
        if (r.chance(0.12)) p.put("emptyf", r.range(n0, n1), r.below(2));
    }
}
TrackScene build_track(const Plan &p) {
    TrackScene s; const Line *sq = p.find("seq"), *nz = p.find("noise"), *hl = p.find("hloss");
    if (!get_rig(p, s.rig) || !get_tpar(p, s.tp) || !sq) return s;
    s.first = (int)sq->i(1); s.last = (int)sq->i(2); if (s.last < s.first || s.last - s.first > 60 || s.first < 0) return s;
    if (auto l = p.find("tol")) s.tol = l->d(1);
    double noise = nz ? nz->d(1) : 0, pnoise = nz ? nz->d(2) : 0; u64 feat = (u64)p.geti("feat", 1); const Rig &g = s.rig;
    const char *dirs[] = {"res/", "", "out/run%d/", "a.b/", "/data/"}; std::string dir = dirs[p.geti("names", 0) % 5];
    s.st.corres = dir + "rt_is"; s.st.linkage = dir + "ptv_is"; s.st.prio = dir + "added"; s.st.with_prio = true;
    for (int c = 0; c < g.nc; c++) s.st.img.push_back("img/" + std::to_string(p.geti("names", 0)) + "cam" + std::to_string(c + 1) + ".");
    std::set<std::vector<i64>> lose, unm, abs, out; std::map<i64, i64> emp; std::vector<const Line *> tr;
    int n0 = s.first, n1 = s.last;
    for (auto &l : p.lines) {
        if (l.kind() == "traj" && tr.size() < 200) { tr.push_back(&l); n0 = std::min(n0, (int)l.i(2)); n1 = std::max(n1, (int)l.i(3)); }
        else if (l.kind() == "lose") lose.insert({l.i(1), l.i(2), l.i(3)});
        else if (l.kind() == "unmatched") unm.insert({l.i(1), l.i(2)});
        else if (l.kind() == "absent") abs.insert({l.i(1), l.i(2)});
        else if (l.kind() == "outage") out.insert({l.i(1), l.i(2)});
        else if (l.kind() == "emptyf") emp[l.i(1)] = l.i(2);
    }
    n0 = std::max(n0, std::max(0, s.first - 5)); n1 = std::min(n1, s.last + 5);
    if (s.last - s.first < 3) { n0 = s.first; n1 = s.last; }
    int need = g.nc == 1 ? 1 : 2;
    for (int f = n0; f <= n1; f++) {
        struct D { T2 t; int id; }; std::vector<std::vector<D>> det(g.nc); struct Q { V3 x; int id; }; std::vector<Q> pts;
        bool noparts = emp.count(f), notargets = emp.count(f) && emp[f];
        for (auto l : tr) {
            i64 id = l->i(1); int t0 = (int)l->i(2), t1 = (int)l->i(3); if (f < t0 || f > t1 || abs.count({f, id})) continue;
            auto hu = [&](int k) { return hash_uni(hash3(feat, id * 1000003 + f, k)); };
            double hk = hl ? hash_uni(hash3(hl->i(4), id, f)) : 1;
            if (hl && hk < hl->d(3)) continue;
            double t = f - t0; V3 q{l->d(4), l->d(5), l->d(6)}, u{l->d(7), l->d(8), l->d(9)}, a{l->d(10), l->d(11), l->d(12)};
            V3 x = q + t * u + (0.5 * t * t * 0.1) * a, w{2 * hu(1) - 1, 2 * hu(2) - 1, 2 * hu(3) - 1}; x = x + l->d(13) * w;
            bool um = unm.count({f, id}) || (hl && hk > 1 - hl->d(2)) || noparts;
            int seen = 0; std::vector<std::pair<int, D>> mine;
            for (int c = 0; c < g.nc; c++) {
                double px, py; if (lose.count({f, id, c}) || out.count({f, c}) || notargets || !sees(g, c, x, 0.5, &px, &py)) continue;
                if (hl && hash_uni(hash3(hl->i(4) + 7, id * 5 + c, f)) < hl->d(1)) continue;
                D d; d.id = (int)id; d.t = T2{0, px + pnoise * (2 * hu(10 + c) - 1), py + pnoise * (2 * hu(20 + c) - 1), 9 + (int)(hu(30) * 20), 3 + (int)(hu(31) * 4), 3 + (int)(hu(32) * 4), 300 + (int)(hu(33) * 4000), -1};
                mine.push_back({c, d}); seen++;
            }
            if (seen < need) um = true;
            for (auto &m : mine) { if (um) m.second.id = -1; det[m.first].push_back(m.second); }
            if (!um) { V3 nn{2 * hu(41) - 1, 2 * hu(42) - 1, 2 * hu(43) - 1}; pts.push_back({x + noise * nn, (int)id}); }
        }
        for (auto &l : p.lines) if (l.kind() == "clutter" && !notargets) {
            Rng r(mix((u64)l.i(2), f)); int n = std::min<i64>(l.i(1), 200);
            for (int k = 0; k < n; k++) { int c = (int)r.below(g.nc); double x = r.uni(0, g.imx), y = r.uni(0, g.chf ? g.imy / 2. : g.imy); D d; d.id = -1; d.t = T2{0, x, y, 8, 3, 3, 250, -1}; if (!out.count({f, c})) det[c].push_back(d); }
        }
        Rng o(hash3(feat, 99, f)); for (size_t i = pts.size(); i > 1; i--) std::swap(pts[i - 1], pts[o.below(i)]);
        FrameData F; F.targets.resize(g.nc); F.parts.resize(pts.size());
        for (size_t k = 0; k < pts.size(); k++) { P3 &q = F.parts[k]; for (int i = 0; i < 3; i++) q.x[i] = pts[k].x[i]; for (int i = 0; i < 4; i++) q.p[i] = -1; s.id[f].push_back(pts[k].id); }
        for (int c = 0; c < g.nc; c++) {
            for (auto &d : det[c]) { d.t.x = round(d.t.x * 1e4) / 1e4; d.t.y = round(d.t.y * 1e4) / 1e4; }
            std::stable_sort(det[c].begin(), det[c].end(), [](const D &a, const D &b) { return a.t.y < b.t.y; });
            for (size_t k = 0; k < det[c].size(); k++) {
                T2 t = det[c][k].t; t.pnr = (int)k;
                if (det[c][k].id >= 0) for (size_t q = 0; q < pts.size(); q++) if (pts[q].id == det[c][k].id) { t.tnr = (int)q; F.parts[q].p[c] = (int)k; }
                F.targets[c].push_back(t);
            }
        }
        s.frames[f] = rounded(F);
    }
    s.ok = true; return s;
}
// ---------------------------------------------------------------- the independent tracker
MStore read_store(const Disk &d, const TrackScene &s, int from, int to, bool links) {
    MStore m;
    for (int f = from; f <= to; f++) {
        FrameData F; MF &q = m[f]; q.tg.assign(s.rig.nc, {});
        if (!get_frame(d, s.st, f, links, links, F)) continue;
        q.readable = true; q.tg = F.targets;
        for (auto &p : F.parts) { MP n; n.x = {p.x[0], p.x[1], p.x[2]}; memcpy(n.p, p.p, sizeof n.p); if (links) { n.prev = p.prev; n.next = p.next; n.prio = p.prio; } q.parts.push_back(n); }
    }
    return m;
}
TrackModel::TrackModel(const TrackScene &sc) : s(sc) { vol = traced_volume(s.rig); V3 d{s.tp.dv[0][1] - s.tp.dv[0][0], s.tp.dv[1][1] - s.tp.dv[1][0], s.tp.dv[2][1] - s.tp.dv[2][0]}; lmax = len(d); }
bool TrackModel::lt(double a, double b, double eps) { if (!(fabs(a - b) > eps)) amb("threshold"); return a < b; }
bool TrackModel::proj(V3 P, int c, double &x, double &y) { if (!project(s.rig, c, P, x, y, false)) { amb("out of sight"); x = y = -1e6; return false; } return true; }
static V3 ahead(V3 from, V3 to) { return {2 * to.x - from.x, 2 * to.y - from.y, 2 * to.z - from.z}; }
bool TrackModel::bounds(V3 d) {
    bool r = true; for (int i = 0; i < 3; i++) if (!lt(s.tp.dv[i][0], d[i], 1e-9) || !lt(d[i], s.tp.dv[i][1], 1e-9)) r = false;
    return r;
}
void TrackModel::angle(V3 a, V3 b, V3 c, double &ang, double &acc) {
    V3 u = b - a, w = c - a; acc = len(u - w);
    if (u.x == -w.x && u.y == -w.y && u.z == -w.z) ang = 200;
    else if (u.x == w.x && u.y == w.y && u.z == w.z) ang = 0;
    else if (len(u) == 0 || len(w) == 0) ang = 0;
    else { if (len(u) < 1e-7 || len(w) < 1e-7 || len(u + w) < 1e-7) amb("no direction"); double k = dot(u, w) / len(u) / len(w); ang = 200 / M_PI * acos(std::max(-1.0, std::min(1.0, k))); }
}
bool TrackModel::admit(double acc, double ang) {
    if (!lt(s.tp.dacc / 10, acc, 1e-9)) return true;
    bool x = lt(acc, s.tp.dacc, 1e-9), y = x && lt(ang, s.tp.dangle, 1e-5); return x && y;
}
std::vector<TrackModel::Cand> TrackModel::search(V3 c, const double (*at)[2], const MF &f) {
    struct It { int f, cam, q; }; std::vector<It> it; const Rig &g = s.rig;
    for (int k = 0; k < g.nc; k++) {
        double x, y, l = g.imx, r = 0, u = g.imy, d = 0, cx, cy; proj(c, k, cx, cy);
        for (int i = 0; i < 8; i++) {
            V3 q{c.x + s.tp.dv[0][i & 1], c.y + s.tp.dv[1][i >> 1 & 1], c.z + s.tp.dv[2][i >> 2 & 1]};
            proj(q, k, x, y); l = std::min(l, x); r = std::max(r, x); u = std::min(u, y); d = std::max(d, y);
        }
        l = std::max(l, 0.0); u = std::max(u, 0.0); r = std::min(r, (double)g.imx); d = std::min(d, (double)g.imy);
        double ax = at[k][0], ay = at[k][1], x0 = std::max(0.0, ax - (cx - l)), x1 = std::min((double)g.imx, ax + (r - cx)), y0 = std::max(0.0, ay - (cy - u)), y1 = std::min((double)g.imy, ay + (d - cy));
        const double e = 1e-6;
        if (lt(ax, 0, e) || lt(g.imx, ax, e) || lt(ay, 0, e) || lt(g.imy, ay, e)) continue;
        std::vector<std::pair<double, int>> near;
        for (auto &t : f.tg[k]) {
            if (t.tnr == -1 || t.x < x0 - 1 || t.x > x1 + 1 || t.y < y0 - 1 || t.y > y1 + 1) continue;
            bool in = lt(x0, t.x, e); in &= lt(t.x, x1, e); in &= lt(y0, t.y, e); in &= lt(t.y, y1, e);
            if (in) near.push_back({hypot(t.x - ax, t.y - ay), t.tnr});
        }
        std::stable_sort(near.begin(), near.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (size_t i = 0; i + 1 < near.size() && i < 4; i++) if (near[i + 1].first - near[i].first < e) amb("equal distances");
        for (size_t i = 0; i < near.size() && i < 4; i++) it.push_back({near[i].second, k, 0});
    }
    for (auto &i : it) { std::set<int> cs; for (auto &j : it) if (j.f == i.f) cs.insert(j.cam); i.q = (int)cs.size(); }
    std::stable_sort(it.begin(), it.end(), [](auto &a, auto &b) { return a.q > b.q; });
    std::vector<Cand> out; std::set<int> had;
    for (size_t i = 0; i < it.size(); i++) if (!had.count(it[i].f) && (it[i].q >= 2 || i == 0)) { had.insert(it[i].f); out.push_back({it[i].f, it[i].q}); }
    for (auto &c : out) if (c.f >= (int)f.parts.size()) { amb("bad target"); return {}; }
    cands += out.size();
    return out;
}
int TrackModel::assess(V3 x, const MF &f, int ind[4], V3 &pos, bool &have) {
    const Rig &g = s.rig; std::vector<std::pair<int, std::pair<double, double>>> fl; const double e = 1e-6; have = false;
    for (int k = 0; k < 4; k++) ind[k] = -999;
    for (int k = 0; k < g.nc; k++) {
        double ax, ay; proj(x, k, ax, ay);
        if (lt(ax, 0, e) || lt(g.imx, ax, e) || lt(ay, 0, e) || lt(g.imy, ay, e)) continue;
        double x0 = std::max(0.0, ax - 3), x1 = std::min((double)g.imx, ax + 3), y0 = std::max(0.0, ay - 3), y1 = std::min((double)g.imy, ay + 3), best = 1e20;
        for (size_t i = 0; i < f.tg[k].size(); i++) {
            auto &t = f.tg[k][i]; if (t.tnr != -1 || fabs(t.x - ax) > 4 || fabs(t.y - ay) > 4) continue;
            bool in = lt(x0, t.x, e); in &= lt(t.x, x1, e); in &= lt(y0, t.y, e); in &= lt(t.y, y1, e);
            if (!in) continue;
            double d = hypot(t.x - ax, t.y - ay); if (lt(d, best, e)) { best = d; ind[k] = (int)i; }
        }
        if (ind[k] >= 0) {
            auto &t = f.tg[k][ind[k]]; double mx, my, fx, fy; to_metric(g, t.x, t.y, mx, my);
            undistort_iter(g.cam[k], mx, my, s.tol, fx, fy); fl.push_back({k, {fx - g.cam[k].xh, fy - g.cam[k].yh}});
        }
    }
    if (fl.size() >= 2) { pos = intersect(g, fl); have = true; if (!std::isfinite(pos.x + pos.y + pos.z)) amb("no position"); }
    return (int)fl.size();
}
bool TrackModel::inside(V3 x) {
    const double e = 1e-6; bool r = lt(vol.x0, x.x, e); r &= lt(x.x, vol.x1, e); r &= lt(vol.y0, x.y, e); r &= lt(x.y, vol.y1, e); r &= lt(vol.z0, x.z, e); r &= lt(x.z, vol.z1, e); return r;
}
void TrackModel::add(MF &f, V3 x, const int ind[4]) {
    MP p; p.x = x; p.prio = 2; for (int k = 0; k < 4; k++) { p.p[k] = -1; if (k < s.rig.nc && ind[k] >= 0) { f.tg[k][ind[k]].tnr = (int)f.parts.size(); p.p[k] = ind[k]; } }
    f.parts.push_back(p); added++;
}
static double rel(const TPar &t) { return 2e-6 / t.dangle + 1e-6; }
void TrackModel::forward(MStore &m, bool stale) {
    MF none; none.tg.assign(s.rig.nc, {}); const TPar &tp = s.tp;
    for (int step = s.first; step < s.last; step++) {
        MF &cur = m[step], &nxt = m[step + 1], before = none, after = none;
        const MF &prv = step > s.first ? m[step - 1] : none; MF *fut = &after; (void)before;
        if (step + 2 <= s.last) fut = &m[step + 2];
        else if (stale && s.last - s.first >= 3) after = m[s.last - 3];
        for (auto &q : cur.parts) {
            V3 X0, X1 = q.x, X2 = X1, X3, X4, X5; bool moving = q.prev >= 0; double at[4][2];
            if (moving) { X0 = prv.parts.at(q.prev).x; X2 = ahead(X0, X1); }
            for (int k = 0; k < s.rig.nc; k++) {
                if (!moving && q.p[k] != -1) { if (q.p[k] < 0 || q.p[k] >= (int)cur.tg[k].size()) { amb("bad correspondence"); return; } at[k][0] = cur.tg[k][q.p[k]].x; at[k][1] = cur.tg[k][q.p[k]].y; }
                else proj(X2, k, at[k][0], at[k][1]);
            }
            auto w = search(X2, at, nxt); if (w.empty()) continue;
            double a0, c0, a1, c1;
            auto reg = [&](double r, int to) { q.dec.push_back({(float)r, to}); };
            for (auto &c : w) {
                X3 = nxt.parts[c.f].x;
                if (moving) X5 = {0.5 * (5.0 * X3.x - 4.0 * X1.x + X0.x), 0.5 * (5.0 * X3.y - 4.0 * X1.y + X0.y), 0.5 * (5.0 * X3.z - 4.0 * X1.z + X0.z)};
                else X5 = ahead(X1, X3);
                for (int k = 0; k < s.rig.nc; k++) proj(X5, k, at[k][0], at[k][1]);
                for (auto &n : search(X5, at, *fut)) {
                    X4 = fut->parts[n.f].x; if (!bounds(X4 - X3)) continue;
                    angle(X3, X4, X5, a1, c1); a0 = a1; c0 = c1; if (moving) angle(X1, X2, X3, a0, c0);
                    double acc = (c0 + c1) / 2, ang = (a0 + a1) / 2; if (!admit(acc, ang)) continue;
                    reg(((len(X1 - X3) + len(X4 - X3)) / 2 / lmax + acc / tp.dacc + ang / tp.dangle) / (n.q + c.q), c.f);
                }
                int ind[4]; bool have; int n = assess(X5, *fut, ind, X4, have);
                if (n >= 2 && inside(X4) && bounds(X3 - X4)) {
                    angle(X3, X4, X5, a1, c1);
                    if (admit(c1, a1)) { reg(((len(X1 - X3) + len(X4 - X3)) / 2 / lmax + c1 / tp.dacc + a1 / tp.dangle) / (n + c.q), c.f); if (tp.add) add(*fut, X4, ind); }
                }
                if (q.dec.empty() && moving && bounds(X3 - X1)) {
                    angle(X1, X2, X3, a0, c0);
                    if (admit(c0, a0)) reg(((len(X1 - X3) + len(X0 - X1)) / 2 / lmax + c0 / tp.dacc + a0 / tp.dangle) / c.q, c.f);
                }
            }
            if (tp.add && q.dec.empty() && moving) {
                int ind[4]; bool have; int n = assess(X2, nxt, ind, X3, have);
                if (n >= 2 && inside(X3) && bounds(X2 - X3)) {
                    angle(X1, X2, X3, a0, c0);
                    if (admit(c0, a0)) { reg(((len(X1 - X3) + len(X0 - X1)) / 2 / lmax + c0 / tp.dacc + a0 / tp.dangle) / n, (int)nxt.parts.size()); add(nxt, X3, ind); }
                }
            }
        }
        for (auto &q : cur.parts) if (!q.dec.empty()) {
            std::stable_sort(q.dec.begin(), q.dec.end(), [](auto &a, auto &b) { return a.first < b.first; });
            for (size_t i = 1; i < q.dec.size(); i++) if (q.dec[i].second != q.dec[0].second && !(q.dec[i].first - q.dec[0].first > 2e-6 * q.dec[i].first + rel(tp))) amb("equal rank");
            q.fin = q.dec[0].first; q.next = q.dec[0].second;
        }
        for (size_t h = 0; h < cur.parts.size(); h++) {
            MP &q = cur.parts[h]; if (q.dec.empty()) continue;
            MP &to = nxt.parts[q.next];
            if (to.prev == -1) { to.prev = (int)h; links++; continue; }
            MP &o = cur.parts[to.prev]; if (!(fabs(o.fin - q.fin) > 2e-6 * o.fin + rel(tp))) amb("equal claims");
            stolen++;
            if (o.fin > q.fin) { o.next = -2; to.prev = (int)h; } else q.next = -2;
        }
    }
}
void TrackModel::backward(MStore &m, bool stale) {
    MF none; none.tg.assign(s.rig.nc, {}); const TPar &tp = s.tp;
    for (int step = s.last - 1; step > s.first; step--) {
        MF &cur = m[step], &f0 = m[step + 1], &nx = m[step - 1]; const MF &f3 = step - 2 >= s.first ? m[step - 2] : stale && s.last - s.first >= 3 ? m[step + 2] : none;
        std::vector<std::pair<size_t, V3>> todo;
        for (size_t h = 0; h < cur.parts.size(); h++) {
            MP &q = cur.parts[h]; q.dec.clear();
            if (q.next < 0 || q.prev != -1 || q.next >= (int)f0.parts.size()) continue;
            V3 X1 = q.x, X0 = f0.parts[q.next].x, X2 = ahead(X0, X1); double at[4][2], a, c;
            for (int k = 0; k < s.rig.nc; k++) proj(X2, k, at[k][0], at[k][1]);
            for (auto &w : search(X2, at, nx)) {
                V3 X3 = nx.parts[w.f].x; if (!bounds(X1 - X3)) continue;
                angle(X1, X2, X3, a, c);
                if (admit(c, a)) q.dec.push_back({(float)(((len(X1 - X3) + len(X0 - X1)) / 2 / lmax + c / tp.dacc + a / tp.dangle) / w.q), w.f});
            }
            std::stable_sort(q.dec.begin(), q.dec.end(), [](auto &x, auto &y) { return x.first < y.first; });
            for (size_t i = 1; i < q.dec.size(); i++) if (!(q.dec[i].first - q.dec[0].first > 2e-6 * q.dec[i].first + rel(tp))) amb("equal rank");
        }
        for (size_t h = 0; h < cur.parts.size(); h++) {
            MP &q = cur.parts[h]; if (q.dec.empty()) continue;
            MP &to = nx.parts[q.dec[0].second]; if (to.next != -2) continue;
            if (to.prev != -1) {
                if (to.prev >= (int)f3.parts.size() || to.prev < 0) continue;
                V3 X0 = f0.parts[q.next].x, X1 = q.x, X3 = to.x, X4 = f3.parts[to.prev].x, X5{0.5 * (5.0 * X3.x - 4.0 * X1.x + X0.x), 0.5 * (5.0 * X3.y - 4.0 * X1.y + X0.y), 0.5 * (5.0 * X3.z - 4.0 * X1.z + X0.z)};
                double a, c; angle(X3, X4, X5, a, c); if (!admit(c, a)) continue;
            }
            q.prev = q.dec[0].second; to.next = (int)h; relinked++;
        }
    }
}
FrameData to_frame(const MF &m) {
    FrameData f; f.targets = m.tg;
    for (auto &p : m.parts) { P3 q; for (int i = 0; i < 3; i++) q.x[i] = p.x[i]; memcpy(q.p, p.p, sizeof q.p); q.prev = p.prev; q.next = p.next; q.prio = p.prio; f.parts.push_back(q); }
    return f;
}
static std::string num(double v) { char b[40]; snprintf(b, 40, "%.4f", v); return b; }
bool same_tracked(const Disk &d, const TrackScene &s, int n, const MF &want, size_t nm, std::string *why) {
    FrameData f; std::string w; auto bad = [&](const std::string &m) { if (why) *why = "frame " + std::to_string(n) + ": " + m; return false; };
    if (!get_frame(d, s.st, n, true, true, f, &w)) return bad("not readable after tracking: " + w);
    if (f.parts.size() != want.parts.size()) return bad(std::to_string(f.parts.size()) + " particles instead of " + std::to_string(want.parts.size()));
    for (size_t k = 0; k < f.parts.size(); k++) {
        const P3 &g = f.parts[k]; const MP &m = want.parts[k]; std::string pk = "particle " + std::to_string(k) + " ";
        for (int i = 0; i < 3; i++) if (!(fabs(g.x[i] - m.x[i]) < (k < nm ? 1e-9 : 0.0011))) return bad(pk + "has coordinate " + num(g.x[i]) + " instead of " + num(m.x[i]));
        for (int i = 0; i < 4; i++) if (g.p[i] != m.p[i]) return bad(pk + "has target " + std::to_string(g.p[i]) + " instead of " + std::to_string(m.p[i]) + " in camera " + std::to_string(i));
        if (g.prev != m.prev) return bad(pk + "comes from " + std::to_string(g.prev) + " instead of " + std::to_string(m.prev));
        if (g.next != m.next) return bad(pk + "goes to " + std::to_string(g.next) + " instead of " + std::to_string(m.next));
        if (g.prio != m.prio) return bad(pk + "has priority " + std::to_string(g.prio) + " instead of " + std::to_string(m.prio));
    }
    for (size_t c = 0; c < want.tg.size(); c++) {
        if (f.targets[c].size() != want.tg[c].size()) return bad("camera " + std::to_string(c) + " has another number of targets");
        for (size_t k = 0; k < want.tg[c].size(); k++) {
            const T2 &g = f.targets[c][k], &m = want.tg[c][k];
            if (g.tnr != m.tnr) return bad("target " + std::to_string(k) + " of camera " + std::to_string(c) + " belongs to " + std::to_string(g.tnr) + " instead of " + std::to_string(m.tnr));
            if (g.pnr != m.pnr || fabs(g.x - m.x) > 1e-9 || fabs(g.y - m.y) > 1e-9 || g.n != m.n || g.nx != m.nx || g.ny != m.ny || g.sumg != m.sumg) return bad("target " + std::to_string(k) + " of camera " + std::to_string(c) + " was changed: " + show(g) + " instead of " + show(m));
        }
    }
    return true;
}
void check_tracked(const char *cls, const Disk &d, const TrackScene &s, int n, const MF &want, size_t nm) { std::string w; if (!same_tracked(d, s, n, want, nm, &w)) fail(cls, "%s", w.c_str()); }
// ---------------------------------------------------------------- the library's tracker
LibTrack::LibTrack(const TrackScene &sc) : nm(sc.st), L(sc.rig), s(sc) {
    tr = tr_new(make_seq(s.st.img, s.first, s.last), make_tpar(s.tp), make_vpar(s.rig), make_cpar(s.rig), 4, s.max_targets(), nm.c(), nm.l(), nm.p(), L.cal(), s.tol);
}
void LibTrack::forward(const std::function<void(int)> &after) {
    track_forward_start(tr);
    for (int step = s.first; step < s.last; step++) { trackcorr_c_loop(tr, step); if (after) after(step); }
    trackcorr_c_finish(tr, s.last); if (after) after(s.last);
}
void LibTrack::drop() { tr_free(tr); sim_free(tr); L.drop_tables(); }
// ---------------------------------------------------------------- ground truth
bool clear_scene(const TrackScene &s, MStore &m) {
    const Rig &g = s.rig; if (g.nc < 2) return false;
    // nothing else within reach of any search around any predicted place: the reach is the search box, seen from the
    // real place plus the largest deviation the prediction can have (two boxes)
    for (auto &fp : m) for (auto &gp : m) {
        if (std::abs(fp.first - gp.first) > 2 && fp.first != gp.first) continue;
        if (!s.id.count(fp.first) || !s.id.count(gp.first)) continue;
        for (size_t i = 0; i < fp.second.parts.size(); i++) {
            int ti = s.id.at(fp.first)[i]; V3 x = fp.second.parts[i].x;
            for (int c = 0; c < g.nc; c++) {
                double cx, cy, r = 0; if (!project(g, c, x, cx, cy, true)) return false;
                for (int k = 0; k < 8; k++) {
                    double px, py; auto ext = [&](int a) { return 5 * std::max(fabs(s.tp.dv[a][0]), fabs(s.tp.dv[a][1])) * (k >> a & 1 ? 1 : -1); };
                    V3 q{x.x + ext(0), x.y + ext(1), x.z + ext(2)}; if (!project(g, c, q, px, py, true)) return false;
                    r = std::max(r, hypot(px - cx, py - cy));
                }
                const auto &tg = gp.second.tg[c];
                for (auto &t : tg) { int o = t.tnr < 0 || t.tnr >= (int)s.id.at(gp.first).size() ? -1 : s.id.at(gp.first)[t.tnr]; if (o != ti && hypot(t.x - cx, t.y - cy) < r) return false; }
            }
        }
    }
    return true;
}
