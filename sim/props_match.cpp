// C16: matching with lost and spurious detections, camera outages, sparse and dense scenes.
#include "matchscene.h"
#include <algorithm>
static void gen(u64 seed, int tier, Plan &p) {
    Rng r(seed); p.put("env", r.below(1u << 30), r.below(1u << 30), 0, 0);
    int nc = r.chance(0.5) ? 4 : 2 + (int)r.below(3); Rig g; gen_match_rig(r, p, g, nc);
    bool dense = r.chance(0.4); int n = dense ? 5 + (int)r.below(tier ? 120 : 60) : (int)r.below(14);
    p.put("mode", dense ? 1 : 0); p.put("feat", r.below(1u << 30)); p.put("order", r.below(1u << 30)); p.put("order2", r.below(1u << 30));
    p.put("noise", r.chance(0.5) ? 0.0 : r.uni(0, dense ? 0.5 : 0.08));
    if (r.chance(0.002)) {   // far too wide a band: internal buffers fill up
        p = Plan(); p.prop = "C16"; p.put("env", r.below(1u << 30), r.below(1u << 30), 0, 0);
        nc = 3 + (int)r.below(2); g = random_rig(r, nc, false); g.eps0 = 1000; g.corrmin = 0; g.cn = g.cnx = g.cny = g.csumg = 0; put_rig(p, g);
        p.put("mode", 2); p.put("order", 1); p.put("feat", r.below(1u << 30));
        int m = nc == 3 ? 90 + (int)r.below(40) : 32;
        for (int c = 0; c < nc; c++) for (int k = 0; k < m; k++) p.put("spur", c, r.uni(0, g.imx), r.uni(0, g.chf ? g.imy / 2. : g.imy), r.below(1u << 20));
        return;
    }
    double zl = std::max(g.Zmin[0], g.Zmin[1]) * 0.95, zh = std::min(g.Zmax[0], g.Zmax[1]) * 0.95;
    bool plane = dense && r.chance(0.2);   // particles in clumps: many ambiguous candidates
    V3 c0{r.uni(-5, 5), r.uni(-5, 5), r.uni(zl, zh) / 2};
    for (int k = 0; k < n; k++) {
        V3 q{r.uni(g.X[0], g.X[1]), r.uni(g.X[0], g.X[1]), r.uni(zl, zh)};
        if (plane && r.chance(0.7)) q = c0 + V3{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)};
        p.put("part", k + 1, q.x, q.y, q.z);
    }
    double loss = r.chance(0.3) ? 0 : r.uni(0, 0.5);
    for (int k = 0; k < n; k++) for (int c = 0; c < nc; c++) if (r.chance(loss)) p.put("lose", k + 1, c);
    if (r.chance(0.2)) p.put("outage", r.below(nc));
    if (r.chance(0.05)) p.put("outage", r.below(nc));
    int ns = r.chance(0.3) ? 0 : (int)r.below(dense ? 100 : 12);
    for (int k = 0; k < ns; k++) p.put("spur", r.below(nc), r.uni(0, g.imx), r.uni(0, g.chf ? g.imy / 2. : g.imy), r.below(1u << 20));
}
struct Got { std::vector<std::vector<int>> m; std::vector<int> counts; };
static Got run(const MatchScene &s, MatchRef *ref, std::vector<std::vector<T2>> *tout) {
    Got out; bool nomem = false; const Rig &g = s.rig;
    lib([&] {
        LibMatch M(s); int mc[4] = {-7, -7, -7, -7};
        std::vector<std::vector<std::pair<double, double>>> flat(g.nc);
        for (int c = 0; c < g.nc; c++) { flat[c].resize(s.dets[c].size()); for (size_t i = 0; i < s.dets[c].size(); i++) {
            flat[c][M.cor[c][i].pnr] = {M.cor[c][i].x, M.cor[c][i].y};
            if (i && M.cor[c][i].x < M.cor[c][i - 1].x) fail("not-sorted", "camera %d: coordinates are not in order of x after sorting", c);
        } }
        n_tupel *con = correspondences(&M.frm, M.cor, M.vpar, M.cpar, M.L.cal(), mc);
        if (!con) { nomem = true; M.drop(); return; }
        if (ref) *ref = ref_match(s, flat);
        // what must hold for every scene
        if (mc[0] < 0 || mc[1] < 0 || mc[2] < 0 || mc[3] != mc[0] + mc[1] + mc[2]) fail("counts", "counts are %d %d %d, total %d", mc[0], mc[1], mc[2], mc[3]);
        std::vector<std::map<int, int>> used(g.nc);
        for (int i = 0; i < mc[3]; i++) {
            int want = i < mc[0] ? 4 : i < mc[0] + mc[1] ? 3 : 2, have = 0; std::vector<int> v(4, -1);
            for (int c = 0; c < g.nc; c++) {
                int q = con[i].p[c]; if (q < 0) continue;
                if (q >= (int)s.dets[c].size()) fail("range", "match %d uses detection %d of %zu in camera %d", i, q, s.dets[c].size(), c);
                v[c] = M.cor[c][q].pnr; have++;
                if (used[c].count(v[c])) fail("shared", "detection %d of camera %d is used by matches %d and %d", v[c], c, used[c][v[c]], i);
                used[c][v[c]] = i;
            }
            if (have != want) fail("size", "match %d among those of %d cameras has %d", i, want, have);
            int st = i < mc[0] ? 0 : i < mc[0] + mc[1] ? mc[0] : mc[0] + mc[1];
            if (i > st && con[i].corr > con[i - 1].corr) fail("order", "match %d is better than match %d before it", i, i - 1);
            out.m.push_back(v);
        }
        for (int c = 0; c < g.nc; c++) {
            std::vector<T2> to;
            for (size_t i = 0; i < s.dets[c].size(); i++) {
                target &t = M.frm.targets[c][i]; const T2 &w = s.dets[c][i].t; int tn = used[c].count(i) ? used[c][i] : -1;
                if (t.tnr != tn) fail("tnr", "detection %zu of camera %d carries match number %d, the match list says %d", i, c, t.tnr, tn);
                if (t.pnr != w.pnr || t.x != w.x || t.y != w.y || t.n != w.n || t.nx != w.nx || t.ny != w.ny || t.sumg != w.sumg) fail("changed", "matching changed detection %zu of camera %d", i, c);
                T2 o = w; o.tnr = t.tnr; to.push_back(o);
            }
            if (tout) tout->push_back(to);
        }
        // positions from the matched detections
        for (auto &v : out.m) {
            vec2d tg[4]; std::vector<std::pair<int, std::pair<double, double>>> fl; std::set<int> id;
            for (int c = 0; c < 4; c++) {
                tg[c][0] = tg[c][1] = COORD_UNUSED;
                if (c < g.nc && v[c] >= 0) { tg[c][0] = flat[c][v[c]].first; tg[c][1] = flat[c][v[c]].second; fl.push_back({c, flat[c][v[c]]}); id.insert(s.dets[c][v[c]].id); }
            }
            vec3d res; double sp0, sp = point_position(tg, g.nc, M.cpar->mm, M.L.cal(), res); V3 m = intersect(g, fl, &sp0);
            if (!std::isfinite(m.x + m.y + m.z)) continue;
            double sc = 1e-6 * (1 + len(m));
            if (!(fabs(res[0] - m.x) + fabs(res[1] - m.y) + fabs(res[2] - m.z) < sc)) fail("position", "position (%g %g %g) instead of (%g %g %g)", res[0], res[1], res[2], m.x, m.y, m.z);
            if (!(fabs(sp - sp0) < sc)) fail("precision", "ray distance %g instead of %g", sp, sp0);
            S->log("pos %.4f %.4f %.4f", res[0], res[1], res[2]);
        }
        out.counts.assign(mc, mc + 4);
        sim_free(con); M.drop();
    });
    if (nomem) fail("no-result", "matching reports failure although nothing failed");
    std::string lk = S->leak_report(); if (!lk.empty()) fail("leak", "%s", lk.c_str());
    return out;
}
static std::string name(const std::vector<int> &v) { std::string r; for (int x : v) r += std::to_string(x) + " "; return r; }
static Outcome exec(const Plan &p) {
    return guarded(p, [&](Outcome &o) {
        u64 o1 = p.geti("order", 0), o2 = p.geti("order2", 1);
        MatchScene s = build_match(p, o1); if (!s.ok) fail("invalid", "scene");
        if (s.rig.nc < 2) fail("invalid", "one camera");
        int mode = (int)p.geti("mode", 0); bool dense = mode != 0;
        MatchRef ref; ref.ambiguous = mode == 2; Got got = run(s, mode == 2 ? nullptr : &ref, nullptr);
        S->log("matches %d %d %d", got.counts[0], got.counts[1], got.counts[2]);
        stats.inc("matches", got.counts[3]);
        for (auto &l : p.lines) { if (l.kind() == "lose") stats.inc("fault.lost_detection"); if (l.kind() == "spur") stats.inc("fault.spurious_detection"); if (l.kind() == "outage") stats.inc("fault.camera_outage"); }
        int npart = (int)s.parts.size(); o.trivial = npart == 0 || got.counts[3] == 0;
        // the documented criteria, for dense scenes too
        if (ref.ambiguous) { stats.inc("probe.ambiguous"); o.trivial = true; }
        else {
            stats.inc("probe.compared");
            std::set<std::vector<int>> A(got.m.begin(), got.m.end()), B; for (auto &m : ref.m) B.insert(std::vector<int>(m.p, m.p + 4));
            for (auto &m : A) if (!B.count(m)) fail("wrong-match", "match %s is not among the %zu expected ones", name(m).c_str(), B.size());
            for (auto &m : B) if (!A.count(m)) fail("missed-match", "match %s is missing from the %zu found", name(m).c_str(), A.size());
            for (int k = 0; k < 4; k++) if (got.counts[k] != ref.counts[k]) fail("counts", "count %d is %d instead of %d", k, got.counts[k], ref.counts[k]);
        }
        // ground truth, where nothing can be confused
        if (!dense) {
            // confusable by exact geometry with margins?
            const Rig &g = s.rig; bool sparse = true; double noise = 0; if (auto l = p.find("noise")) noise = l->d(1);
            double e = g.eps0;
            for (int i = 0; i < g.nc && sparse; i++) for (int j = i + 1; j < g.nc && sparse; j++) for (auto &a : s.dets[i]) {
                V3 q, u; trace(g, i, a.fx, a.fy, q, u); double t = (q.x - g.X[0]) / (g.X[1] - g.X[0]), z0 = g.Zmin[0] + t * (g.Zmin[1] - g.Zmin[0]), z1 = g.Zmax[0] + t * (g.Zmax[1] - g.Zmax[0]);
                for (auto &b : s.dets[j]) {
                    double best = 1e9, x, y; bool same = a.id >= 0 && a.id == b.id;
                    for (int k = 0; k <= 60; k++) { double z = z0 + (z1 - z0) * k / 60; if (project_flat(g, j, q + ((z - q.z) / u.z) * u, x, y, true)) best = std::min(best, hypot(x - b.fx, y - b.fy)); }
                    double step = 0, xa, ya, xb, yb; if (project_flat(g, j, q + ((z0 - q.z) / u.z) * u, xa, ya, true) && project_flat(g, j, q + ((z1 - q.z) / u.z) * u, xb, yb, true)) step = hypot(xa - xb, ya - yb) / 60; else sparse = false;
                    if (!same && best < 3 * e + step) sparse = false;
                    if (same && best > step + 0.3 * e) sparse = false;
                    // the straight line between the ends stands for the epipolar curve
                    if (same) { double L = hypot(xa - xb, ya - yb), d = fabs((b.fx - xa) * (yb - ya) - (b.fy - ya) * (xb - xa)) / L; if (!(d < 0.4 * e)) sparse = false; }
                }
            }
            if (sparse && noise * g.px < 0.2 * e) {
                stats.inc("probe.ground_truth");
                std::map<int, std::vector<int>> want;
                for (int c = 0; c < g.nc; c++) for (size_t k = 0; k < s.dets[c].size(); k++) if (s.dets[c][k].id >= 0) { auto &w = want[s.dets[c][k].id]; if (w.empty()) w.assign(4, -1); w[c] = k; }
                std::map<std::vector<int>, int> exp;
                for (auto &w : want) { int n = 0; for (int x : w.second) n += x >= 0; if (n == g.nc || (n >= 2 && !g.allcam)) { if (g.nc == 2 && g.allcam) continue; exp[w.second] = w.first; } }
                for (auto &m : got.m) if (!exp.count(m)) fail("confused", "match %s does not consist of one particle's detections", name(m).c_str());
                if (exp.size() != got.m.size()) fail("not-matched", "%zu particles are seen well enough, %zu matches", exp.size(), got.m.size());
            }
        }
        // the order of detections does not matter
        if (!ref.ambiguous) {
            MatchScene s2 = build_match(p, o2); Got g2 = run(s2, nullptr, nullptr);
            auto canon = [](const MatchScene &s, const Got &g) { std::set<std::vector<double>> r; for (auto &m : g.m) { std::vector<double> k; for (int c = 0; c < s.rig.nc; c++) { k.push_back(m[c] < 0 ? -1 : s.dets[c][m[c]].t.x); k.push_back(m[c] < 0 ? -1 : s.dets[c][m[c]].t.y); } r.insert(k); } return r; };
            if (canon(s, got) != canon(s2, g2)) fail("order-matters", "another order of the same detections gives other matches");
        }
    });
}
static Reg r16({"C16", gen, exec, 24000, 200000});
