// C19: calibration work. Cameras are calibrated step by step from pictures of a known target, by hand-picked points and by
// all points, with good and with useless pictures, by a program that is killed, whose files cannot be read or written, and
// that goes on from what it finds on disk.
#include "scene.h"
#include <algorithm>
#include <memory>
static void gen(u64 seed, int tier, Plan &p) {
    Rng r(seed); p.put("env", r.below(1u << 30), r.below(1u << 30), r.chance(0.3) ? 1 + (int)r.below(300) : 0, (int)r.below(3));
    Rig g = random_rig(r, 1 + (int)r.below(tier ? 3 : 2), r.chance(0.5)); put_rig(p, g);
    p.put("block", r.below(1u << 30), r.chance(0.8) ? 12 + (int)r.below(40) : 4 + (int)r.below(8), r.chance(0.75) ? 0 : 1 + (int)r.below(5));   // points; where: volume, two planes, plane, line, all the same, twins
    bool tilted = !g.air() && r.chance(0.4);
    int inner = 0; if (r.chance(0.5)) for (int j = r.chance(0.7) ? 1 : 3; j > 0; j--) inner |= 1 << r.below(10);
    p.put("guess", r.below(1u << 30), r.chance(0.7) ? r.uni(0, 12) : r.uni(0, 200), tilted ? r.uni(0, 0.05) : 0.0, inner);   // pixels that the first guess is off, radians that the glass is, inner parameters that are
    p.put("grid", 3 + (int)r.below(25));
    int n = 2 + (int)r.below(tier ? 7 : 4);
    for (int k = 0; k < n; k++) {
        int cam = (int)r.below(g.nc);
        if (r.chance(0.25)) p.put("manual", cam, r.below(1u << 30), r.chance(0.7) ? r.uni(0, 0.5) : r.uni(0, 40), r.chance(0.15));   // click error; points in the wrong order
        else {
            int fl = 0; if (r.chance(0.6)) for (int j = r.chance(0.6) ? 1 : 3; j > 0; j--) fl |= 1 << r.below(11);
            if (r.chance(0.6)) fl = inner | (r.chance(0.3) ? fl : 0);
            if (tilted && r.chance(0.5)) fl = (r.chance(0.7) ? 0 : fl) | 1 << 10;
            p.put("fine", cam, fl, r.chance(0.75) ? 0 : 1 + (int)r.below(3), r.below(1u << 30), r.chance(0.2) ? 0.0 : r.uni(0, r.chance(0.8) ? 0.3 : 3), r.chance(0.6) ? 0.0 : r.uni(0, r.chance(0.7) ? 0.3 : 1), r.chance(0.7) ? 0 : (int)r.below(6), r.chance(0.1));   // flags, points used, noise, missing, additional, mixed up
        }
    }
    for (int k = (int)r.below(tier ? 4 : 3); k > 0; k--) p.put("crash", r.chance(0.6) ? 0 : 1, r.below(1000000));
    for (int k = (int)r.below(3); k > 0; k--) p.put("fault", r.below(4), r.below(100), r.below(1000), r.chance(0.5));   // open, write, read or close; file; where
}
namespace {
const double HUGE_W = 1e20; enum { F_INTERFACE = 10 };
Cam cam_of(const Calibration &k) {
    Cam c; c.c = {k.ext_par.x0, k.ext_par.y0, k.ext_par.z0}; c.om = k.ext_par.omega; c.ph = k.ext_par.phi; c.ka = k.ext_par.kappa; c.xh = k.int_par.xh; c.yh = k.int_par.yh; c.cc = k.int_par.cc;
    c.G = {k.glass_par.vec_x, k.glass_par.vec_y, k.glass_par.vec_z}; c.k1 = k.added_par.k1; c.k2 = k.added_par.k2; c.k3 = k.added_par.k3; c.p1 = k.added_par.p1; c.p2 = k.added_par.p2; c.scx = k.added_par.scx; c.she = k.added_par.she; c.setR(); return c;
}
std::vector<double> inner(const Calibration &k) { return {k.int_par.cc, k.int_par.xh, k.int_par.yh, k.added_par.k1, k.added_par.k2, k.added_par.k3, k.added_par.p1, k.added_par.p2, k.added_par.scx, k.added_par.she, k.glass_par.vec_x, k.glass_par.vec_y, k.glass_par.vec_z}; }
bool all_finite(const Calibration &k) {
    for (double d : inner(k)) if (!std::isfinite(d)) return false;
    for (double d : {k.ext_par.x0, k.ext_par.y0, k.ext_par.z0, k.ext_par.omega, k.ext_par.phi, k.ext_par.kappa}) if (!std::isfinite(d)) return false;
    for (auto &r : k.ext_par.dm) for (double d : r) if (!std::isfinite(d)) return false;
    return true;
}
void consistent(const char *what, const Calibration &k) {
    if (!all_finite(k)) fail("not-a-number", "%s: reported success, but the calibration is not of finite numbers", what);
    Cam c = cam_of(k); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (fabs(c.R[i][j] - k.ext_par.dm[i][j]) > 1e-9) fail("rotation", "%s: the rotation matrix %d %d is %.12g, of the angles it is %.12g", what, i, j, k.ext_par.dm[i][j], c.R[i][j]);
}
struct Step { const Line *l; int n; bool manual; int cam; };
struct Work {
    const Plan &p; Rig g; std::vector<V3> block; std::vector<Step> steps; std::vector<Calibration> guess; int eps, where; double amp; std::vector<std::array<int, 4>> picks;
    static std::string ori(int cam, int st, bool copy = false) { return "cal/cam" + std::to_string(cam + 1) + "." + std::to_string(st) + (copy ? ".copy.ori" : ".ori"); }
    static std::string add(int cam, int st, bool copy = false) { return "cal/cam" + std::to_string(cam + 1) + "." + std::to_string(st) + (copy ? ".copy.addpar" : ".addpar"); }
    static std::string fl(int st) { return "parameters/orient" + std::to_string(st) + ".par"; }
    explicit Work(const Plan &pl) : p(pl) {
        const Line *b = p.find("block"), *gu = p.find("guess"); if (!get_rig(p, g) || !b || !gu) fail("invalid", "plan");
        Rng r(mix((u64)b->i(1), 3)); int n = (int)std::max<i64>(4, std::min<i64>(60, b->i(2))); where = (int)b->i(3); eps = (int)std::max<i64>(1, std::min<i64>(60, p.geti("grid", 5)));
        double zl = std::max(g.Zmin[0], g.Zmin[1]), zh = std::min(g.Zmax[0], g.Zmax[1]); V3 one{r.uni(g.X[0], g.X[1]) * 0.7, r.uni(g.X[0], g.X[1]) * 0.7, r.uni(zl, zh)}, two{r.uni(g.X[0], g.X[1]) * 0.7, r.uni(g.X[0], g.X[1]) * 0.7, r.uni(zl, zh)};
        for (int k = 0; k < n; k++) {
            V3 P{r.uni(g.X[0], g.X[1]), r.uni(g.X[0], g.X[1]), r.uni(zl, zh)}; double t = r.uni();
            switch (where) { case 1: P.z = k & 1 ? zl : zh; break; case 2: P.z = 0; break; case 3: P = one + t * (two - one); break; case 4: P = one; break; case 5: if (k & 1) P = block[k - 1] + V3{1e-3, 0, 0}; break; }
            for (double *d : {&P.x, &P.y, &P.z}) *d = round(*d * 1000) / 1000;
            block.push_back(P);
        }
        for (int c = 0; c < g.nc; c++) { std::array<int, 4> q; for (int i = 0; i < 4; i++) { bool dup; do { q[i] = (int)r.below(n); dup = false; for (int j = 0; j < i; j++) dup |= q[i] == q[j]; } while (dup); } picks.push_back(q); }
        for (auto &l : p.lines) if (l.kind() == "manual" || l.kind() == "fine") { if (steps.size() < 12 && l.i(1) >= 0 && l.i(1) < g.nc) { Step s{&l, (int)steps.size() + 1, l.kind() == "manual", (int)l.i(1)}; steps.push_back(s); } }
        amp = fabs(gu->d(2)); Rng q(mix((u64)gu->i(1), 5));
        for (int c = 0; c < g.nc; c++) {   // the guess: some pixels off at the worst point
            Cam k = g.cam[c]; double dist = len(k.c), px = 0, sc = 0.05; V3 d{q.uni(-1, 1), q.uni(-1, 1), q.uni(-1, 1)}; double a = q.uni(-1, 1), bb = q.uni(-1, 1), cc = q.uni(-1, 1);
            for (int it = 0; it < 60; it++, sc *= 0.8) {
                k = g.cam[c]; k.c = k.c + (sc * dist * 0.3) * d; k.om += sc * a; k.ph += sc * bb; k.ka += sc * cc; k.setR(); Rig h = g; h.cam[c] = k; px = 0;
                for (auto &P : block) { double x0, y0, x1, y1; if (!project(g, c, P, x0, y0, true)) fail("invalid", "block"); if (!project(h, c, P, x1, y1, true)) { px = 1e9; break; } px = std::max(px, hypot(x0 - x1, y0 - y1)); }
                if (px <= amp) break;
            }
            if (px > amp) { k = g.cam[c]; }
            V3 G = k.G, u = unit(cross(G, V3{q.uni(-1, 1), q.uni(-1, 1), q.uni(-1, 1)})); if (gu->d(3)) { double t = gu->d(3); k.G = cos(t) * G + (sin(t) * len(G)) * u; }
            double rr = 0.5 * hypot(g.imx * g.px, g.imy * g.py), big[10] = {0.02 * k.cc, 0.1, 0.1, 0.02 / pow(rr, 3), 0.02 / pow(rr, 5), 0.02 / pow(rr, 7), 6e-4 / rr, 6e-4 / rr, 0.02 / rr, 0.02 / rr}, *w[10] = {&k.cc, &k.xh, &k.yh, &k.k1, &k.k2, &k.k3, &k.p1, &k.p2, &k.scx, &k.she};
            for (int i = 0; i < 10; i++) if (gu->i(4) >> i & 1) *w[i] += big[i] * q.uni(-1, 1);
            Calibration f; fill_cal(f, k); guess.push_back(f);
        }
    }
    static orient_par flags_of(const Line &l) {
        orient_par f; memset(&f, 0, sizeof f); i64 b = l.i(2); f.useflag = (unsigned)(l.i(3) & 3); f.ccflag = b & 1; f.xhflag = (b >> 1) & 1; f.yhflag = (b >> 2) & 1; f.k1flag = (b >> 3) & 1; f.k2flag = (b >> 4) & 1; f.k3flag = (b >> 5) & 1; f.p1flag = (b >> 6) & 1; f.p2flag = (b >> 7) & 1; f.scxflag = (b >> 8) & 1; f.sheflag = (b >> 9) & 1; f.interfflag = (b >> 10) & 1; return f;
    }
    void files(Disk &d) const {
        std::string t; for (size_t k = 0; k < block.size(); k++) { t += std::to_string(k + 1); for (int i = 0; i < 3; i++) t += " " + fmt_d(block[k][i]); t += "\n"; } d.files["cal/block.txt"] = t;
        t.clear(); for (auto &q : picks) { for (int i : q) t += std::to_string(i + 1) + " "; t += "\n"; } d.files["parameters/man_ori.par"] = t;
        d.files["parameters/sortgrid.par"] = std::to_string(eps) + "\n";
        for (auto &s : steps) if (!s.manual) { orient_par f = flags_of(*s.l); t.clear(); for (unsigned v : {f.useflag, f.ccflag, f.xhflag, f.yhflag, f.k1flag, f.k2flag, f.k3flag, f.p1flag, f.p2flag, f.scxflag, f.sheflag, f.interfflag}) t += std::to_string(v) + "\n"; d.files[fl(s.n)] = t; }
    }
    // what the picture of a step shows: detections, and for each the point of the block it is of
    void picture(const Step &s, std::vector<target> &det, std::vector<int> &of) const {
        const Line &l = *s.l; Rng r(mix((u64)l.i(4), 9)); double noise = fabs(l.d(5)), miss = l.d(6); det.clear(); of.clear();
        for (size_t k = 0; k < block.size(); k++) { double x, y; bool in = project(g, s.cam, block[k], x, y, true), gone = r.uni() < miss; x += noise * r.uni(-1, 1); y += noise * r.uni(-1, 1); if (!in || gone || x < 0 || y < 0 || x >= g.imx || y >= g.imy) continue; target t; memset(&t, 0, sizeof t); t.x = x; t.y = y; det.push_back(t); of.push_back((int)k); }
        for (int k = (int)std::min<i64>(20, l.i(7)); k > 0; k--) { target t; memset(&t, 0, sizeof t); t.x = r.uni(0, g.imx); t.y = r.uni(0, g.imy); det.push_back(t); of.push_back(-1); }
        for (int k = (int)det.size() - 1; k > 0; k--) { int j = (int)r.below(k + 1); std::swap(det[k], det[j]); std::swap(of[k], of[j]); }
        if (l.i(8)) for (auto &t : det) { t.x = g.imx - t.x; t.y = r.uni(0, g.imy); }   // a useless picture
        for (size_t k = 0; k < det.size(); k++) { det[k].pnr = (int)k; det[k].n = 9; det[k].nx = det[k].ny = 3; det[k].sumg = 300 + (int)k; det[k].tnr = -1; }
    }
    // what an orientation minimises: squared distances on the sensor, and of what is adjusted from its first value
    double cost(int cam, const Calibration &k, const Calibration &from, const orient_par &f, const target *pix, std::vector<std::pair<double, double>> *res = nullptr) const {
        Rig h = g; h.cam[cam] = cam_of(k); double J = 0; if (res) res->clear();
        for (size_t i = 0; i < block.size(); i++) {
            if (pix[i].pnr != (int)i || (f.useflag == 1 && i % 2 == 0) || (f.useflag == 2 && i % 2) || (f.useflag == 3 && i % 3 == 0)) continue;
            double x, y, mx, my, ox, oy; if (!project(h, cam, block[i], x, y, false)) return 1e300; to_metric(g, x, y, mx, my); to_metric(g, pix[i].x, pix[i].y, ox, oy);
            J += (mx - ox) * (mx - ox) + (my - oy) * (my - oy); if (res) res->push_back({mx - ox, my - oy});
        }
        auto a = inner(k), b = inner(from); for (int i = 0; i < 10; i++) J += (a[i] - b[i]) * (a[i] - b[i]);
        return J;
    }
};
struct Bench {   // the program
    Work &w; control_par *cpar = nullptr; std::map<int, Calibration> now; std::vector<Calibration *> own; u64 retried = 0, facts = 0;
    explicit Bench(Work &w) : w(w) {}
    Calibration *load(const std::string &o, const std::string &a) { std::string x = o, y = a; return read_calibration(&x[0], &y[0], NULL); }
    bool busy() { retried++; if (!S->faults_fired()) return false; S->clear_faults(); return true; }   // somebody was told and has repaired it
    bool save(int c, int st, const Calibration &k, bool copy) {
        std::string o = Work::ori(c, st, copy), a = Work::add(c, st, copy); Calibration q = k;
        while (!write_calibration(&q, &o[0], &a[0])) if (!busy()) fail("save", "saving %s failed for no reason", o.c_str());
        return true;
    }
    // the calibration a camera has after a step, if that was finished
    bool done(int c, int st, Calibration &k) {
        if (st == 0) { k = w.guess[c]; return true; }
        for (;;) {
            Calibration *a = load(Work::ori(c, st), Work::add(c, st)), *b = load(Work::ori(c, st, true), Work::add(c, st, true));
            bool there = S->disk.has(Work::add(c, st)) && S->disk.has(Work::add(c, st, true)), same = a && b && there && compare_calib(a, b); if (same) k = *a;
            if (a) sim_free(a); if (b) sim_free(b);
            if (!same && S->faults_fired()) { busy(); continue; }
            if (same) k.mmlut.data = NULL;
            return same;
        }
    }
    void run() {
        cpar = make_cpar(w.g); std::vector<int> last(w.g.nc, 0);
        for (auto &s : w.steps) {
            Calibration k; if (done(s.cam, s.n, k)) { last[s.cam] = s.n; continue; }
            if (!done(s.cam, last[s.cam], k)) fail("lost", "camera %d: the calibration saved by step %d is gone", s.cam, last[s.cam]);
            k.mmlut.data = NULL; rotation_matrix(&k.ext_par);
            Calibration was = k; bool good = s.manual ? manual(s, k) : fine(s, k); if (!good) k = was;
            save(s.cam, s.n, k, false); save(s.cam, s.n, k, true);
            Calibration back; if (!done(s.cam, s.n, back)) fail("lost", "camera %d: the calibration of step %d was saved and cannot be loaded", s.cam, s.n);
            Cam a = cam_of(k), b = cam_of(back); if (len(a.c - b.c) > 1e-7 || fabs(a.om - b.om) > 1e-8 || fabs(a.ph - b.ph) > 1e-8 || fabs(a.ka - b.ka) > 1e-8 || fabs(a.cc - b.cc) > 6e-5 || fabs(a.k1 - b.k1) > 6e-9) fail("lost", "camera %d: the calibration of step %d was saved and another one loaded", s.cam, s.n);
            last[s.cam] = s.n;
        }
        free_control_par(cpar);
    }
    bool manual(const Step &s, Calibration &k) {
        const Line &l = *s.l; Rng r(mix((u64)l.i(2), 7)); vec3d fix[4]; std::string a = "cal/block.txt", b = "parameters/man_ori.par"; int n;
        while ((n = read_man_ori_fix(fix, &a[0], &b[0], s.cam)) != 4) if (!busy()) fail("points", "the four points of camera %d were not found", s.cam);
        std::array<int, 4> q = w.picks[s.cam]; target pix[4]; memset(pix, 0, sizeof pix); double err = fabs(l.d(3)); bool ok = true;
        for (int i = 0; i < 4; i++) {
            for (int j = 0; j < 3; j++) if (fix[i][j] != w.block[q[i]][j]) fail("points", "camera %d: point %d of the block was picked as number %d, coordinate %d is %.6g instead of %.6g", s.cam, q[i] + 1, i, j, fix[i][j], w.block[q[i]][j]);
            double x, y; ok &= project(w.g, s.cam, w.block[q[i]], x, y, true); pix[i].x = x + err * r.uni(-1, 1); pix[i].y = y + err * r.uni(-1, 1); pix[i].pnr = i;
        }
        if (l.i(4)) std::reverse(pix, pix + 4);
        Calibration was = k; int conv = raw_orient(&k, cpar, 4, fix, pix); stats.inc(conv ? "probe.raw_converged" : "probe.raw_failed"); facts++;
        if (!conv) return false;
        consistent("raw orientation", k);
        auto x = inner(was), y = inner(k); for (int i : {0, 1, 2, 10, 11, 12}) if (x[i] != y[i]) fail("changed", "the raw orientation changed a parameter that is not of the outer orientation (%d)", i);
        Cam c = cam_of(k); if (c.k1 || c.k2 || c.k3 || c.p1 || c.p2 || c.scx != 1 || c.she) fail("changed", "the raw orientation is without distortion but left some");
        // it fits the four points about as well as the real place of the camera does, if it started near there
        double d = 0, e = 0, worst = 0, sep = 1e9, far = 0; Rig t = w.g, h = w.g; t.cam[s.cam].k1 = t.cam[s.cam].k2 = t.cam[s.cam].k3 = t.cam[s.cam].p1 = t.cam[s.cam].p2 = t.cam[s.cam].she = 0; t.cam[s.cam].scx = 1; h.cam[s.cam] = c; Rig z = w.g; z.cam[s.cam] = cam_of(was);
        for (int i = 0; i < 4; i++) { double x0, y0, x1, y1, x2, y2; if (!project(t, s.cam, w.block[q[i]], x0, y0, true) || !project(h, s.cam, w.block[q[i]], x1, y1, true) || !project(z, s.cam, w.block[q[i]], x2, y2, true)) return true; e = std::max(e, hypot(x0 - pix[i].x, y0 - pix[i].y)); d = std::max(d, hypot(x1 - pix[i].x, y1 - pix[i].y)); far = std::max(far, hypot(x2 - x0, y2 - y0)); for (int j = 0; j < i; j++) sep = std::min(sep, hypot(pix[i].x - pix[j].x, pix[i].y - pix[j].y)); (void)worst; }
        Cam tc = w.g.cam[s.cam], wc = cam_of(was); double V = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) V = std::max(V, fabs(tc.R[i][j] - wc.R[i][j]));
        if (ok && len(tc.G - wc.G) < 1e-6 * len(tc.G) && fabs(tc.cc - wc.cc) + fabs(tc.xh - wc.xh) + fabs(tc.yh - wc.yh) < 1e-3 && V < 0.1 && len(tc.c - wc.c) < 0.08 * len(tc.c) && far < 25 && sep > 60 && !l.i(4) && err < 2) { stats.inc("probe.raw_compared"); if (d > 2 * e + 2) fail("fit", "raw orientation of camera %d: converged %.2f pixels from the points, the real camera is within %.2f", s.cam, d, e); }
        return true;
    }
    bool fine(const Step &s, Calibration &k) {
        std::string a = "cal/block.txt", b = "parameters/sortgrid.par", o = Work::fl(s.n); int nf = 0, eps; vec3d *fix; orient_par *f;
        while (!(fix = read_calblock(&nf, &a[0]))) if (!busy()) fail("points", "the block cannot be read");
        while ((eps = read_sortgrid_par(&b[0])) == 0) if (!busy()) fail("points", "the search radius cannot be read");
        while (!(f = read_orient_par(&o[0]))) if (!busy()) fail("points", "the settings of the orientation cannot be read");
        orient_par want = Work::flags_of(*s.l); if (memcmp(f, &want, sizeof want)) fail("points", "the settings of the orientation were not read as they are");
        if (nf != (int)w.block.size() || eps != w.eps) fail("points", "the block or the search radius was not read as it is");
        std::vector<target> det; std::vector<int> of; w.picture(s, det, of); std::vector<target> det0 = det;
        target *sp = sortgrid(&k, cpar, nf, fix, (int)det.size(), eps, det.data());
        if (!det.empty() && memcmp(det.data(), det0.data(), det.size() * sizeof(target))) fail("changed", "sorting changed the detections");
        // every point gets the nearest detection around where it is expected
        Rig h = w.g; h.cam[s.cam] = cam_of(k); bool proper = true, sane = true; int got = 0;
        for (auto &P : w.block) { double x0, y0, x1, y1; if (!project(h, s.cam, P, x0, y0, false) || !project(w.g, s.cam, P, x1, y1, true) || !(hypot(x0 - x1, y0 - y1) < 60)) sane = false; }
        { double rm = 0.5 * hypot(w.g.imx * w.g.px, w.g.imy * w.g.py); if (!(fabs(k.added_par.p1) * rm < 1e-3) || !(fabs(k.added_par.p2) * rm < 1e-3)) sane = false; }   // decentering is modelled to first order only
        if (!sane) stats.inc("probe.far_off");
        for (int i = 0; i < nf; i++) {
            double x, y; bool in = project(h, s.cam, w.block[i], x, y, false); if (!in) { proper = false; continue; }
            auto rim = [&](double v) { return fabs(v) < 1e-2; }; bool border = rim(x + eps) || rim(y + eps) || rim(x - w.g.imx - eps) || rim(y - w.g.imy - eps), inside = x > -eps && y > -eps && x < w.g.imx + eps && y < w.g.imy + eps; int best = -1; double d1 = 1e9, d2 = 1e9;
            for (size_t j = 0; j < det.size(); j++) { double dx = fabs(det[j].x - x), dy = fabs(det[j].y - y); if (rim(dx - eps) || rim(dy - eps)) border = true; if (dx < eps && dy < eps) { double d = hypot(dx, dy); if (d < d1) d2 = d1, d1 = d, best = (int)j; else d2 = std::min(d2, d); } }
            if (!inside) best = -1;
            if (!sane) ; else if (border || (best >= 0 && d2 - d1 < 2e-2)) { stats.inc("probe.grid_ambiguous"); }
            else {
                if (best < 0 && sp[i].pnr != -999) fail("grid", "point %d of camera %d is expected at %.2f %.2f where there is no detection, but was assigned one at %.2f %.2f", i, s.cam, x, y, sp[i].x, sp[i].y);
                if (best >= 0 && (sp[i].pnr != i || sp[i].x != det[best].x || sp[i].y != det[best].y || sp[i].sumg != det[best].sumg || sp[i].n != det[best].n)) fail("grid", "point %d of camera %d is expected at %.2f %.2f, the nearest detection is at %.2f %.2f, but %s", i, s.cam, x, y, det[best].x, det[best].y, sp[i].pnr == -999 ? "none was assigned" : "another was assigned");
            }
            if (sp[i].pnr == i) { got++; int j = -1; for (size_t m = 0; m < det.size(); m++) if (det[m].x == sp[i].x && det[m].y == sp[i].y) j = (int)m; if (j < 0 || of[j] != i) proper = false; }
        }
        if (s.l->i(8)) proper = false;
        std::vector<target> sp0(sp, sp + nf); std::vector<double> fix0(&fix[0][0], &fix[0][0] + 3 * nf); Calibration was = k; double sb[20]; for (double &v : sb) v = 7;
        double *res = orient(&k, cpar, nf, fix, sp, f, sb); facts++; stats.inc(res ? "probe.converged" : "probe.not_converged");
        bool same_points = !memcmp(sp0.data(), sp, nf * sizeof(target)) && !memcmp(fix0.data(), fix, nf * sizeof(vec3d));
        int used = 0; for (int i = 0; i < nf; i++) if (sp0[i].pnr == i && !(want.useflag == 1 && i % 2 == 0) && !(want.useflag == 2 && i % 2) && !(want.useflag == 3 && i % 3 == 0)) used++;
        if (!same_points) fail("changed", "the orientation changed the points");
        if (!res && memcmp(&was, &k, sizeof k)) fail("changed", "an orientation that failed changed the calibration");
        if (res) {
            consistent("orientation", k);
            auto x = inner(was), y = inner(k); bool free[13] = {!!want.ccflag, !!want.xhflag, !!want.yhflag, !!want.k1flag, !!want.k2flag, !!want.k3flag, !!want.p1flag, !!want.p2flag, !!want.scxflag, !!want.sheflag, !!want.interfflag, !!want.interfflag, !!want.interfflag};
            for (int i = 0; i < 13; i++) if (!free[i] && !(fabs(x[i] - y[i]) < 1e-9)) fail("changed", "the orientation changed parameter %d, which was to be kept, from %.9g to %.9g", i, x[i], y[i]);
        }
        // a picture that determines the camera
        int nfree = 0; for (int i = 0; i < 11; i++) nfree += (s.l->i(2) >> i) & 1; double noise = fabs(s.l->d(5));
        bool posed = proper && sane && used >= 10 + 4 * nfree && w.where <= 1 && noise < 0.5 && w.amp < 15, air = w.g.air();
        if (posed) {
            double rr = 0.5 * hypot(w.g.imx * w.g.px, w.g.imy * w.g.py), eff[10] = {1, 1, 1, pow(rr, 3), pow(rr, 5), pow(rr, 7), rr * rr, rr * rr, rr, rr};   // mm on the sensor
            Calibration truth; fill_cal(truth, w.g.cam[s.cam]); auto x = inner(was), t = inner(truth); bool reach = true; for (int i = 0; i < 10; i++) if (!((s.l->i(2) >> i) & 1)) reach &= fabs(x[i] - t[i]) * eff[i] < (i < 3 ? 1e-4 : 2e-5); bool tilt = false; for (int i = 10; i < 13; i++) tilt |= x[i] != t[i]; if ((tilt || want.interfflag) && (air || s.l->i(2) != 1 << F_INTERFACE || len(cam_of(was).G - cam_of(truth).G) > 0.06 * len(cam_of(truth).G))) reach = false;
            double J0 = w.cost(s.cam, truth, was, want, sp0.data()), step = 4e-8 * used + (air ? 0 : used * 4e-6);   // (0.0002 mm)²: interior parameters are kept to 0.0001 mm
            if (!res && air && nfree == 0) fail("not-converged", "camera %d: %d points determine the camera, but the orientation failed", s.cam, used);
            if (res) {
                std::vector<std::pair<double, double>> e; double J = w.cost(s.cam, k, was, want, sp0.data(), &e); stats.inc(!reach ? "probe.fit_other" : tilt ? "probe.fit_glass" : "probe.fit_compared");
                if (getenv("C19DBG")) fprintf(stderr, "J %.3g J0 %.3g reach %d flags %lld used %d air %d\n", J, J0, reach, (long long)s.l->i(2), used, air);
                if (reach && J > 1.1 * J0 + step) fail("fit", "camera %d: the orientation converged to a root mean square error of %.5f mm, the real camera has %.5f (%d points)", s.cam, sqrt(J / used), sqrt(J0 / used), used);
                double rm = 0.5 * hypot(w.g.imx * w.g.px, w.g.imy * w.g.py); bool mild = fabs(k.added_par.p1) * rm < 1e-3 && fabs(k.added_par.p2) * rm < 1e-3;
                for (size_t i = 0; i < e.size(); i++) if (air && mild && hypot(res[2 * i] - e[i].first, res[2 * i + 1] - e[i].second) > 1e-4 + 0.02 * hypot(e[i].first, e[i].second)) fail("residuals", "camera %d: residual %zu was reported as %.6f %.6f, the calibration leaves %.6f %.6f", s.cam, i, res[2 * i], res[2 * i + 1], e[i].first, e[i].second);
            }
        }
        bool good = res != NULL; sim_free(res); sim_free(sp); sim_free(f); sim_free(fix);
        return good;
    }
};
void fresh(u64 seed) { S->drop_process(); restore_globals(); S->heap_rng = Rng(mix(S->heap_seed, seed)); g_stack_seed = mix(S->heap_seed, seed + 1); S->crash_at_io = S->crash_at_point = -1; S->clear_faults(); S->clear_alloc_faults(); }
}
static Outcome exec(const Plan &p) {
    return guarded(p, [&](Outcome &o) {
        Work w(p); if (w.steps.empty()) fail("invalid", "steps"); std::unique_ptr<Bench> B;
        w.files(S->disk); u64 io = S->io_ops, pt = S->points; B.reset(new Bench(w));
        if (run_fiber([&] { B->run(); }) != FE_DONE) fail("hang", "the work did not end");
        io = S->io_ops - io; pt = S->points - pt; u64 facts = B->facts; { std::string l = S->leak_report(); if (!l.empty()) fail("leak", "%s", l.c_str()); }
        auto ref = S->disk.files; S->log("reference %016llx", (unsigned long long)S->disk.hash()); stats.inc("facts", facts);
        fresh(1); S->disk.files.clear(); w.files(S->disk); std::vector<const Line *> crashes; bool any = false;
        for (auto &l : p.lines) if (l.kind() == "crash" && crashes.size() < 6) crashes.push_back(&l);
        std::vector<std::string> names; for (auto &f : ref) names.push_back(f.first);
        for (size_t k = 0; k <= crashes.size(); k++) {
            B.reset(new Bench(w));
            if (k == 0) for (auto &l : p.lines) if (l.kind() == "fault") { Fault x; x.kind = l.i(1) == 0 ? F_OPEN : l.i(1) == 1 ? F_WRITE : l.i(1) == 2 ? F_READ : F_CLOSE; x.match = "=" + names[(u64)llabs(l.i(2)) % names.size()]; if (x.kind == F_OPEN && x.match.find(".addpar") != std::string::npos) continue;   // what cannot be opened counts as no distortion
                x.at = x.kind == F_WRITE || x.kind == F_READ ? (i64)(ref[x.match.substr(1)].size() * ((u64)llabs(l.i(3)) % 1000) / 1000) : (i64)((u64)llabs(l.i(3)) % 2); x.sticky = l.i(4); S->faults.push_back(x); any = true; }
            if (k < crashes.size()) { u64 at = (u64)llabs(crashes[k]->i(2)) % 1000000; if (crashes[k]->i(1) == 0) S->crash_at_io = S->io_ops + io * at / 1000000; else S->crash_at_point = S->points + pt * at / 1000000; }
            FiberEnd e = run_fiber([&] { B->run(); });
            if (e == FE_HANG) fail("hang", "the work did not end");
            stats.inc("retries", B->retried);
            if (e == FE_DONE) { B.reset(); fresh(20); break; }
            stats.inc("crashes"); any = true; B.reset(); fresh(10 + k);
        }
        S->log("disturbed %016llx", (unsigned long long)S->disk.hash());
        for (auto &f : ref) { auto i = S->disk.files.find(f.first); if (i == S->disk.files.end()) fail("not-recovered", "%s is missing after the disturbed work", f.first.c_str()); if (i->second != f.second) fail("not-recovered", "%s differs after the disturbed work", f.first.c_str()); }
        for (auto &f : S->disk.files) if (!ref.count(f.first)) fail("not-recovered", "%s is left over after the disturbed work", f.first.c_str());
        o.trivial = !facts && !any;
    });
}
static Reg r19({"C19", gen, exec, 6000, 100000});
