#include "matchscene.h"
#include "libframe.h"
#include <algorithm>
void gen_match_rig(Rng &r, Plan &p, Rig &g, int nc) {
    g = random_rig(r, nc, r.chance(0.3));
    g.eps0 = g.px * r.uni(0.3, 2.0); g.corrmin = r.uni(1, 40);
    g.cn = r.uni(0, 0.1); g.cnx = r.uni(0, 0.1); g.cny = r.uni(0, 0.1); g.csumg = r.uni(0, 0.1);
    g.allcam = nc > 2 && r.chance(0.15);
    put_rig(p, g);
}
MatchScene build_match(const Plan &p, u64 order) {
    MatchScene s; if (!get_rig(p, s.rig)) return s;
    const Rig &g = s.rig; double noise = 0; u64 feat = 1;
    std::set<std::pair<i64, i64>> lost; std::set<i64> out;
    for (auto &l : p.lines) {
        if (l.kind() == "part" && s.parts.size() < 400) { s.ids.push_back((int)l.i(1)); s.parts.push_back({l.d(2), l.d(3), l.d(4)}); }
        else if (l.kind() == "lose") lost.insert({l.i(1), l.i(2)});
        else if (l.kind() == "outage") out.insert(l.i(1));
        else if (l.kind() == "noise") noise = l.d(1);
        else if (l.kind() == "feat") feat = (u64)l.i(1);
    }
    for (int c = 0; c < g.nc; c++) {
        std::vector<Det> d;
        auto add = [&](double x, double y, int id, u64 h) {
            Det e; e.id = id; e.t.x = x; e.t.y = y;
            double q = id >= 0 ? hash_uni(hash3(feat, id, 17)) : hash_uni(h), w = 0.75 + 0.25 * hash_uni(mix(h, 3));
            e.t.nx = (int)((4 + 6 * q) * w + 1); e.t.ny = (int)((4 + 7 * q) * w + 1); e.t.n = (int)(e.t.nx * e.t.ny * 0.7 + 1); e.t.sumg = (int)((200 + 3000 * q) * w); e.t.tnr = -1;
            e.t.pnr = 0; d.push_back(e);
        };
        if (!out.count(c)) {
            for (size_t k = 0; k < s.parts.size(); k++) {
                double x, y; if (lost.count({s.ids[k], c}) || !sees(g, c, s.parts[k], 2, &x, &y)) continue;
                u64 h = hash3(feat, s.ids[k] + 1000, c);
                add(x + noise * (2 * hash_uni(mix(h, 1)) - 1), y + noise * (2 * hash_uni(mix(h, 2)) - 1), s.ids[k], h);
            }
            for (auto &l : p.lines) if (l.kind() == "spur" && l.i(1) == c) add(l.d(2), l.d(3), -1, hash3(feat, l.i(4), c + 77));
        }
        Rng o(mix(order, c)); for (size_t i = d.size(); i > 1; i--) std::swap(d[i - 1], d[o.below(i)]);
        if (order % 3) std::stable_sort(d.begin(), d.end(), [](const Det &a, const Det &b) { return a.t.y < b.t.y; });   // as detection lists normally are
        for (size_t i = 0; i < d.size(); i++) { d[i].t.pnr = (int)i; if (!flatten(g, c, d[i].t.x, d[i].t.y, d[i].fx, d[i].fy)) return s; }
        s.dets.push_back(d);
    }
    s.ok = true; return s;
}
namespace {
struct Edge { int b; double corr, dist; };
struct Amb { bool a = false; double eps; explicit Amb(double e) : eps(e) {}
    bool lt(double x, double y) { if (!(fabs(x - y) > eps * (1e-3 + fabs(x) + fabs(y)))) a = true; return x < y; } };
double ratio(double a, double b) { return a < b ? a / b : b / a; }
}
MatchRef ref_match(const MatchScene &s, const std::vector<std::vector<std::pair<double, double>>> &flat) {
    const Rig &g = s.rig; MatchRef R; Amb A(1e-9);
    std::vector<std::vector<Edge>> adj[4][4];
    for (int i = 0; i < g.nc; i++) for (int j = i + 1; j < g.nc; j++) {
        const Cam &c = g.cam[j]; double x0, y0, x1, y1;
        undistort_once(c, -g.px * g.imx / 2 - c.xh, -g.py * g.imy / 2 - c.yh, x0, y0); undistort_once(c, g.px * g.imx / 2 - c.xh, g.py * g.imy / 2 - c.yh, x1, y1);
        adj[i][j].resize(s.dets[i].size());
        for (size_t a = 0; a < s.dets[i].size(); a++) {
            V3 p, u; trace(g, i, flat[i][a].first, flat[i][a].second, p, u);
            double t = (p.x - g.X[0]) / (g.X[1] - g.X[0]), zl = g.Zmin[0] + t * (g.Zmin[1] - g.Zmin[0]), zh = g.Zmax[0] + t * (g.Zmax[1] - g.Zmax[0]);
            double xa, ya, xb, yb;
            auto at = [&](double z) { return p + ((z - p.z) / u.z) * u; };
            if (!project_flat(g, j, at(zl), xa, ya, false) || !project_flat(g, j, at(zh), xb, yb, false)) { R.ambiguous = true; return R; }
            double L = sqrt((xb - xa) * (xb - xa) + (yb - ya) * (yb - ya)); if (L < 1e-6 || fabs(xa - xb) < 1e-7) { R.ambiguous = true; return R; }
            double ex = (xb - xa) / L, ey = (yb - ya) / L, ax = std::min(xa, xb), bx = std::max(xa, xb), ay = std::min(ya, yb), by = std::max(ya, yb);
            if (!A.lt(x0, bx) || !A.lt(ax, x1) || !A.lt(y0, by) || !A.lt(ay, y1)) continue;   // line outside the sensor
            std::vector<std::pair<double, Edge>> es;
            for (size_t b = 0; b < s.dets[j].size(); b++) {
                double x = flat[j][b].first, y = flat[j][b].second, e = g.eps0;
                if (!A.lt(ay - e, y) || !A.lt(y, by + e) || !A.lt(ax - e, x) || !A.lt(x, bx + e)) continue;
                double d = fabs((x - xa) * ey - (y - ya) * ex);
                if (!A.lt(d, e)) continue;
                const T2 &q = s.dets[i][a].t, &w = s.dets[j][b].t;
                double qn = ratio(q.n, w.n), qx = ratio(q.nx, w.nx), qy = ratio(q.ny, w.ny), qs = ratio(q.sumg, w.sumg);
                if (qn < g.cn || qx < g.cnx || qy < g.cny || qs <= g.csumg) continue;
                es.push_back({x, Edge{(int)b, (4 * qs + 2 * qn + qx + qy) * (q.sumg + w.sumg), d}});
                if (s.dets[i][a].id < 0 || s.dets[i][a].id != s.dets[j][b].id) R.clean = false;
            }
            if (es.size() > 190) R.ambiguous = true;
            std::sort(es.begin(), es.end(), [](auto &m, auto &n) { return m.first < n.first; });
            for (auto &e : es) adj[i][j][a].push_back(e.second);
            if (s.dets[i][a].id >= 0) for (auto &w : s.dets[j]) if (w.id == s.dets[i][a].id) {   // a true pair the criteria miss
                bool f = false; for (auto &e : es) if (s.dets[j][e.second.b].id == w.id) f = true;
                if (!f) R.clean = false;
            }
        }
    }
    std::vector<std::set<int>> used(g.nc); std::fill(R.counts, R.counts + 4, 0);
    auto edge = [&](int i, int a, int j, int b) -> const Edge * { for (auto &e : adj[i][j][a]) if (e.b == b) return &e; return nullptr; };
    auto take = [&](std::vector<Match> &c, int k) {
        std::stable_sort(c.begin(), c.end(), [](const Match &x, const Match &y) { return x.corr > y.corr; });
        for (size_t i = 0; i + 1 < c.size(); i++) if (!(c[i].corr - c[i + 1].corr > 1e-7 * c[i].corr)) R.ambiguous = true;
        for (auto &m : c) {
            bool f = true; for (int j = 0; j < g.nc; j++) if (m.p[j] >= 0 && used[j].count(m.p[j])) f = false;
            if (!f) continue;
            for (int j = 0; j < g.nc; j++) if (m.p[j] >= 0) used[j].insert(m.p[j]);
            R.m.push_back(m); R.counts[k]++; R.counts[3]++;
        }
    };
    auto accept = [&](std::vector<Match> &c, double corr, double dist, std::initializer_list<std::pair<int, int>> ps) {
        Match m; for (int &x : m.p) x = -1;
        m.corr = corr / dist; if (dist < 1e-9) R.ambiguous = true;
        if (!A.lt(g.corrmin, m.corr)) return;
        for (auto &q : ps) m.p[q.first] = q.second;
        c.push_back(m);
    };
    if (g.nc == 4) {
        std::vector<Match> c;
        for (size_t a = 0; a < adj[0][1].size(); a++) for (auto &e01 : adj[0][1][a]) for (auto &e02 : adj[0][2][a]) {
            auto e12 = edge(1, e01.b, 2, e02.b); if (!e12) continue;
            for (auto &e03 : adj[0][3][a]) {
                auto e13 = edge(1, e01.b, 3, e03.b), e23 = edge(2, e02.b, 3, e03.b); if (!e13 || !e23) continue;
                accept(c, e01.corr + e02.corr + e03.corr + e12->corr + e13->corr + e23->corr, e01.dist + e02.dist + e03.dist + e12->dist + e13->dist + e23->dist, {{0, (int)a}, {1, e01.b}, {2, e02.b}, {3, e03.b}});
            }
        }
        take(c, 0);
    }
    if ((g.nc == 4 && !g.allcam) || g.nc == 3) {
        std::vector<Match> c;
        for (int i = 0; i < g.nc; i++) for (int j = i + 1; j < g.nc; j++) for (int k = j + 1; k < g.nc; k++)
            for (size_t a = 0; a < adj[i][j].size(); a++) if (!used[i].count(a)) for (auto &e1 : adj[i][j][a]) if (!used[j].count(e1.b)) for (auto &e2 : adj[i][k][a]) if (!used[k].count(e2.b)) {
                auto e3 = edge(j, e1.b, k, e2.b); if (!e3) continue;
                accept(c, e1.corr + e2.corr + e3->corr, e1.dist + e2.dist + e3->dist, {{i, (int)a}, {j, e1.b}, {k, e2.b}});
            }
        take(c, 1);
    }
    if (g.nc > 1 && !g.allcam) {
        std::vector<Match> c;
        for (int i = 0; i < g.nc; i++) for (int j = i + 1; j < g.nc; j++) for (size_t a = 0; a < adj[i][j].size(); a++)
            if (!used[i].count(a) && adj[i][j][a].size() == 1 && !used[j].count(adj[i][j][a][0].b)) { auto &e = adj[i][j][a][0]; accept(c, e.corr, e.dist, {{i, (int)a}, {j, e.b}}); }
        take(c, 2);
    }
    if (A.a) R.ambiguous = true;
    return R;
}
LibMatch::LibMatch(const MatchScene &s, bool) : nc(s.rig.nc), L(s.rig) {
    cpar = make_cpar(s.rig); vpar = make_vpar(s.rig);
    int mx = 1; for (auto &d : s.dets) mx = std::max(mx, (int)d.size());
    frame_init(&frm, nc, mx);
    for (int c = 0; c < nc; c++) {
        std::vector<T2> t; for (auto &d : s.dets[c]) t.push_back(d.t);
        fill_targets(frm.targets[c], t); frm.num_targets[c] = (int)t.size();
        cor[c] = (coord_2d *)sim_malloc(sizeof(coord_2d) * (t.size() ? t.size() : 1));
        for (size_t i = 0; i < t.size(); i++) {
            double x, y; pixel_to_metric(&x, &y, t[i].x, t[i].y, cpar);
            dist_to_flat(x, y, &L.cals[c], &cor[c][i].x, &cor[c][i].y, 1e-8); cor[c][i].pnr = (int)i;
        }
        quicksort_coord2d_x(cor[c], (int)t.size());
    }
}
void LibMatch::drop() {
    for (int c = 0; c < nc; c++) sim_free(cor[c]);
    free_frame(&frm); free_control_par(cpar); sim_free(vpar); L.drop_tables();
}
