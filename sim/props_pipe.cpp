// C18: a whole measurement, from calibration and camera images to trajectories, done by a processing program that is
// killed, runs out of memory, loses writes and is started again.
#include "trackscene.h"
#include <algorithm>
#include <memory>
typedef std::vector<unsigned char> Img;
static const int MAXT = 400;
static void gen(u64 seed, int tier, Plan &p) {
    Rng r(seed); p.put("env", r.below(1u << 30), r.below(1u << 30), r.chance(0.3) ? 1 + (int)r.below(300) : 0, (int)r.below(3));
    TrackGen g; g.nc = 2 + (int)r.below(3); g.frames = 4 + (int)r.below(tier ? 5 : 3); g.parts = 1 + (int)r.below(r.chance(0.6) ? 2 : 6); g.clear = true; int prep = r.chance(0.7); bool wide = !prep && r.chance(0.4); g.image = wide ? 170 + (int)r.below(80) : 96 + (int)r.below(tier ? 160 : 90); g.quiet = r.chance(0.3);
    gen_track(r, p, g);
    int lp = prep && r.chance(0.4) ? 1 + (int)r.below(2) : 0;
    p.put("image", prep, 6 + (int)r.below(8), lp, (int)r.below(prep ? 60 : 25), (int)r.below(6), r.uni(0.9, 1.4), r.below(1u << 30), r.chance(0.3), 60 + (int)r.below(wide ? 20 : 200), r.chance(0.5));   // high-pass, its span, low-pass, background, noise, blob size; other detector, largest particle, refraction tables
    if (r.chance(0.5)) p.put("calib", r.below(1u << 30), 20 + (int)r.below(25), r.uni(0, 1), r.chance(0.2));
    TrackScene s = build_track(p); int nf = s.last - s.first;
    if (r.chance(0.4)) for (int k = (int)r.below(4); k > 0; k--) p.put("spot", s.first + r.range(0, nf), r.below(g.nc), r.uni(12, s.rig.imx - 12), r.uni(12, s.rig.imy - 12));
    if (!lp && r.chance(0.5)) for (int k = (int)r.below(6); k > 0; k--) p.put("hot", r.below(g.nc), r.below(s.rig.imx), r.below(s.rig.imy));
    if (!prep && (wide || r.chance(0.5))) for (int k = 1 + (int)r.below((wide ? 6 : 2) * g.nc); k > 0; k--) { bool big = r.chance(wide ? 0.8 : 0.4); int w = 22 + (int)r.below(big ? 120 : 12), h = 22 + (int)r.below(big ? 120 : 12); p.put("bright", s.first + r.range(0, nf), r.below(g.nc), (int)r.range(-20, s.rig.imx), (int)r.range(-20, s.rig.imy), w, h, 150 + (int)r.below(105)); }
    if (r.chance(0.2)) for (int k = 1 + (int)r.below(g.nc); k > 0; k--) p.put("twin", s.first + r.range(0, nf), r.below(g.nc), r.uni(12, s.rig.imx - 12), r.uni(12, s.rig.imy - 12), r.uni(2.2, 4.5), r.uni(0, 6.2832));
    if (r.chance(0.8)) for (int k = 1 + (int)r.below(tier ? 4 : 2); k > 0; k--) p.put("crash", r.chance(0.5) ? 0 : 1, r.below(1000000));
    for (int k = (int)r.below(4); k > 0; k--) switch (r.below(2)) {
        case 0: p.put("oom", r.below(1 + g.frames * (g.nc * prep + 1)), r.below(r.chance(0.5) ? 8 : 60), r.chance(0.3)); break;
        case 1: p.put("lostwrite", r.below(2), s.first + r.range(0, nf), r.below(1 + 2 * g.nc), r.below(1000)); break;
    }
    p.put("backward", r.below(2));
}
struct Blob { double x, y, a; int id; };
namespace {
struct Session {
    const Plan &p; TrackScene s; bool prep, back, peak, tables; int lp, span, nnmax, bg, noise; double sig; u64 iseed;
    std::map<std::pair<int, int>, std::vector<Blob>> blobs; std::map<std::pair<int, int>, Img> img; std::map<int, Img> cimg;   // frame, camera
    std::vector<V3> block; const Line *cl; std::map<int, std::vector<int>> hidden; std::map<int, std::vector<Blob>> cblobs;
    std::vector<Calibration> start;
    static std::string ori(int c) { return "cal/cam" + std::to_string(c + 1) + ".ori"; }
    static std::string add(int c) { return "cal/cam" + std::to_string(c + 1) + ".addpar"; }
    Img render(const std::vector<Blob> &b, u64 seed, int cam, bool hot, int frame = -1) {
        const Rig &g = s.rig; Img m(g.imx * g.imy); Rng r(mix(seed, 3));
        std::vector<double> v(m.size()); double gx = r.uni(0.3, 1), gy = r.uni(0.3, 1);
        for (int y = 0; y < g.imy; y++) for (int x = 0; x < g.imx; x++) v[y * g.imx + x] = bg * (gx + (1 - gx) * x / g.imx) * (gy + (1 - gy) * y / g.imy) + (noise ? r.uni(0, noise) : 0);
        for (auto &q : b) for (int y = std::max(0, (int)q.y - 8); y < std::min(g.imy, (int)q.y + 9); y++) for (int x = std::max(0, (int)q.x - 8); x < std::min(g.imx, (int)q.x + 9); x++)
            v[y * g.imx + x] += q.a * exp(-((x + 0.5 - q.x) * (x + 0.5 - q.x) + (y + 0.5 - q.y) * (y + 0.5 - q.y)) / (2 * sig * sig));
        if (hot) for (auto &l : p.lines) if (l.kind() == "hot" && l.i(1) == cam && l.i(2) < g.imx && l.i(3) < g.imy && l.i(2) >= 0 && l.i(3) >= 0) {
            bool near = false; for (auto &q : b) near |= hypot(q.x - l.i(2), q.y - l.i(3)) < 9;
            if (!near) v[l.i(3) * g.imx + l.i(2)] = 220;
        }
        if (hot && !prep) {   // wide reflections: no particles
            std::vector<const Line *> put;
            for (auto &l : p.lines) if (l.kind() == "bright" && l.i(1) == frame && l.i(2) == cam && l.i(5) >= 22 && l.i(6) >= 22 && l.i(5) <= 200 && l.i(6) <= 200) {
                i64 x0 = l.i(3), y0 = l.i(4), x1 = x0 + l.i(5), y1 = y0 + l.i(6); bool free = std::min<i64>(x1, g.imx) - std::max<i64>(x0, 0) > 21 && std::min<i64>(y1, g.imy) - std::max<i64>(y0, 0) > 21;
                for (auto &q : b) if (q.x > x0 - 12 && q.x < x1 + 12 && q.y > y0 - 12 && q.y < y1 + 12) free = false;
                for (auto o : put) if (o->i(3) - 4 < x1 && o->i(3) + o->i(5) + 4 > x0 && o->i(4) - 4 < y1 && o->i(4) + o->i(6) + 4 > y0) free = false;
                for (auto &h : p.lines) if (h.kind() == "hot" && h.i(1) == cam && h.i(2) > x0 - 4 && h.i(2) < x1 + 4 && h.i(3) > y0 - 4 && h.i(3) < y1 + 4) free = false;
                if (!free) continue;
                put.push_back(&l); stats.inc("fault.wide_reflection");
                for (i64 y = std::max<i64>(0, y0); y < std::min<i64>(g.imy, y1); y++) for (i64 x = std::max<i64>(0, x0); x < std::min<i64>(g.imx, x1); x++) v[y * g.imx + x] = std::min(255, std::max(150, (int)l.i(7)));
            }
        }
        for (size_t k = 0; k < m.size(); k++) m[k] = (unsigned char)std::min(255.0, std::max(0.0, v[k]));
        return m;
    }
    explicit Session(const Plan &pl) : p(pl), s(build_track(pl)) {
        const Line *im = p.find("image"); if (!s.ok || !im || s.rig.imx > 300 || s.rig.imy > 300 || s.rig.chf || s.tp.add) fail("invalid", "scene");
        prep = im->i(1); span = (int)im->i(2); lp = (int)std::max<i64>(0, std::min<i64>(2, im->i(3))); bg = (int)im->i(4); noise = (int)im->i(5); sig = im->d(6); iseed = (u64)im->i(7); peak = im->i(8); nnmax = (int)std::min<i64>(400, std::max<i64>(60, im->i(9))); tables = im->i(10) && !s.rig.air(); back = p.geti("backward", 0);
        if (span < 4 || 2 * span + 1 >= std::min(s.rig.imx, s.rig.imy) || sig < 0.7 || sig > 1.6 || noise > 8 || noise < 0 || bg < 0 || bg > 80) fail("invalid", "image");
        for (auto &f : s.frames) for (int c = 0; c < s.rig.nc; c++) {
            auto &b = blobs[{f.first, c}];
            for (auto &t : f.second.targets[c]) b.push_back({t.x, t.y, 90 + 70 * hash_uni(hash3(iseed, t.tnr + 5, 7)), t.tnr});
            for (auto &l : p.lines) if (l.kind() == "twin" && l.i(1) == f.first && l.i(2) == c) for (int k = -1; k < 2; k += 2) b.push_back({l.d(3) + 0.5 * k * l.d(5) * cos(l.d(6)), l.d(4) + 0.5 * k * l.d(5) * sin(l.d(6)), 120., -1});   // two spots grown together
            for (auto &l : p.lines) if (l.kind() == "spot" && l.i(1) == f.first && l.i(2) == c) b.push_back({l.d(3), l.d(4), 120, -1});
        }
        for (int f = s.first; f <= s.last; f++) for (int c = 0; c < s.rig.nc; c++) img[{f, c}] = render(blobs[{f, c}], hash3(iseed, f, c), c, true, f);
        s.st.with_prio = true;
        cl = p.find("calib"); LibRig L(s.rig);
        for (int c = 0; c < s.rig.nc; c++) start.push_back(L.cals[c]);
        if (!s.rig.air()) cl = nullptr;   // the stepwise refraction iteration makes convergence to the criterion a matter of luck
        if (cl) {
            Rng r(mix((u64)cl->i(1), 5)); const Rig &g = s.rig; int n = (int)std::min<i64>(60, cl->i(2)); double e = std::min(1.0, fabs(cl->d(3)));
            for (int k = 0; k < n; k++) block.push_back({r.uni(g.X[0], g.X[1]), r.uni(g.X[0], g.X[1]), r.uni(std::max(g.Zmin[0], g.Zmin[1]), std::min(g.Zmax[0], g.Zmax[1]))});
            for (int c = 0; c < g.nc; c++) {
                std::vector<Blob> &b = cblobs[c];
                for (int k = 0; k < n; k++) {
                    double x, y; bool see = sees(g, c, block[k], 8, &x, &y) && !(k % 7 == 3 && cl->i(4)); for (auto &q : b) if (hypot(q.x - x, q.y - y) < 13) see = false;
                    if (see) b.push_back({x, y, 150, k}); else hidden[c].push_back(k);
                }
                cimg[c] = render(b, hash3(iseed, 777, c), c, false);
                // where the camera is thought to be at first: less than 2 pixels off
                Cam k = g.cam[c]; double dist = len(k.c), px = 1e9; V3 d{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}; double a = r.uni(-1, 1), bb = r.uni(-1, 1), cc = r.uni(-1, 1), sc = e * 0.01;
                for (int it = 0; it < 30; it++, sc *= 0.7) {
                    k = g.cam[c]; k.c = k.c + (sc * dist * 0.3) * d; k.om += sc * a; k.ph += sc * bb; k.ka += sc * cc; k.setR(); Rig h = g; h.cam[c] = k; px = 0;
                    for (auto &P : block) { double x0, y0, x1, y1; if (!project(g, c, P, x0, y0, true) || !project(h, c, P, x1, y1, true)) { px = 1e9; break; } px = std::max(px, hypot(x0 - x1, y0 - y1)); }
                    if (px < 2) break;
                }
                if (px >= 2) fail("invalid", "calibration start");
                if (b.size() >= 12) fill_cal(start[c], k); else hidden.erase(c), cblobs.erase(c), cimg.erase(c);
            }
        }
    }
    bool calibrated(int c) const { return cl && cblobs.count(c); }
};
// The processing program. Everything it has in memory is lost when it dies; it finds its way from what is on disk.
struct Program {
    Session &q; const TrackScene &s; Names nm; control_par *cpar = nullptr; volume_par *vpar = nullptr; target_par *tpar = nullptr; std::vector<Calibration *> cal; u64 calls = 0; std::string died; std::map<u64, std::pair<u64, bool>> oom;   // call -> allocation, and all after it
    target_par tp; u64 retried = 0;
    explicit Program(Session &q) : q(q), s(q.s), nm(s.st) {
        memset(&tp, 0, sizeof tp); for (int &x : tp.gvthres) x = (q.prep ? 10 : q.bg + 10) + q.noise; tp.discont = 200; tp.nnmin = 5; tp.nnmax = q.nnmax; tp.nxmin = tp.nymin = 2; tp.nxmax = tp.nymax = 20; tp.sumg_min = 60; tp.cr_sz = 2;
    }
    // calls that promise to report a lack of memory
    void guard() { auto i = oom.find(calls++); S->allocs_failed = 0; if (i == oom.end()) return; S->start_alloc_faults(); if (i->second.second) { S->fail_all_after = true; S->fail_after = i->second.first; } else S->alloc_fail.insert(i->second.first); }
    bool unguard() { S->clear_alloc_faults(); bool f = S->allocs_failed > 0; S->allocs_failed = 0; return f; }
    // what stands out of the mean around it, and that smoothed
    static constexpr int weights[9] = {1, 2, 1, 3, 4, 1, 1, 2, 1};
    void prepared(const Img &raw, const Img &got) {
        int W = q.s.rig.imx, H = q.s.rig.imy; std::vector<double> sum((W + 1) * (H + 1), 0), v(W * H);
        for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) sum[(y + 1) * (W + 1) + x + 1] = raw[y * W + x] + sum[y * (W + 1) + x + 1] + sum[(y + 1) * (W + 1) + x] - sum[y * (W + 1) + x];
        for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) {
            int a = std::min({x, q.span, W - 1 - x}), b = std::min({y, q.span, H - 1 - y});
            double m = (sum[(y + b + 1) * (W + 1) + x + a + 1] - sum[(y - b) * (W + 1) + x + a + 1] - sum[(y + b + 1) * (W + 1) + x - a] + sum[(y - b) * (W + 1) + x - a]) / ((2 * a + 1) * (2 * b + 1));
            v[y * W + x] = std::max(0.0, raw[y * W + x] - m);
        }
        if (q.lp) for (int k = W + 1; k < W * H - W - 1; k++) { double t = 0; int i = 0; for (int d : {-W - 1, -W, -W + 1, -1, 0, 1, W - 1, W, W + 1}) t += v[k + d] * (q.lp == 1 ? 1 : weights[i++]); v[k] = q.lp == 1 ? t / 9 : std::max(8.0, t / 16); }
        for (int k = 0; k < W * H; k++) if (!(fabs(v[k] - got[k]) < (q.lp ? 5 : 3.5))) fail("preparation", "pixel %d %d of %d by %d is %d after preparation with a window of %d, should be about %.1f", k % W, k / W, W, H, got[k], 2 * q.span + 1, v[k]);
    }
    bool segment(const Img &raw, int c, target *t, int &n) {
        Img hp = raw, src = raw; int tries = 0;
        if (q.prep) for (;;) {
            guard(); bool done = prepare_image(src.data(), hp.data(), q.span, q.lp, (char *)"parameters/filter.par", cpar), lack = unguard();
            if (done && !lack) break;
            if (src != raw) fail("image-changed", "a failed preparation changed the image it was to read");
            if (done) fail("failure-not-reported", "an image preparation that could not get memory was reported done");
            retried++; if (++tries > 3 || !lack) { died = "image preparation failed though memory was there"; return false; }
        }
        if (q.prep) prepared(src, hp);
        n = q.peak ? peak_fit(hp.data(), tpar, 0, s.rig.imx, 0, s.rig.imy, cpar, c, t) : targ_rec(hp.data(), tpar, 0, s.rig.imx, 0, s.rig.imy, cpar, c, t);
        {   // no pixel belongs to two of them
            int thr = tpar->gvthres[c]; u64 px = 0, gr = 0, tn = 0, tg = 0; for (unsigned char v : hp) if (v > thr) px++, gr += v;
            for (int k = 0; k < n; k++) tn += t[k].n, tg += t[k].sumg;
            bool stand_in = n == 1 && t[0].n == 1 && t[0].x == 1 && t[0].y == 1;
            if (!stand_in && (tn > px || tg > gr)) fail("detection", "camera %d: the %d detections have %llu pixels of brightness %llu together, the image has %llu of %llu above the threshold", c, n, (unsigned long long)tn, (unsigned long long)tg, (unsigned long long)px, (unsigned long long)gr);
        }
        quicksort_target_y(t, n); for (int k = 0; k < n; k++) t[k].pnr = k;
        return true;
    }
    bool calibrate(int c) {
        std::string o = Session::ori(c), a = Session::add(c); Calibration *k = read_calibration(&o[0], &a[0], NULL);
        if (k && !S->disk.has(a)) { sim_free(k); k = nullptr; }   // the distortion file is written last
        if (k) { cal[c] = k; return true; }
        k = (Calibration *)sim_malloc(sizeof *k); *k = q.start[c]; k->mmlut.data = NULL;
        if (q.calibrated(c)) {
            std::vector<target> t(MAXT); int n = 0; if (!segment(q.cimg[c], c, t.data(), n)) { sim_free(k); return false; }
            std::vector<double> fix; for (auto &b : q.block) { fix.push_back(b.x); fix.push_back(b.y); fix.push_back(b.z); }
            target *sp = sortgrid(k, cpar, (int)q.block.size(), (vec3d *)fix.data(), n, 5, t.data());
            for (size_t i = 0; i < q.block.size(); i++) {
                bool hid = std::count(q.hidden[c].begin(), q.hidden[c].end(), (int)i); double x, y; bool have = sp[i].pnr != -999, in = project(s.rig, c, q.block[i], x, y, true) && x > -3 && y > -3 && x < s.rig.imx + 3 && y < s.rig.imy + 3; (void)in;
                if (!hid && !have) fail("grid", "calibration point %zu of camera %d is in the picture at %.1f %.1f but was not assigned", i, c, x, y);
                if (have && !hid && hypot(sp[i].x - x, sp[i].y - y) > 0.8) fail("grid", "calibration point %zu of camera %d is at %.2f %.2f but was assigned the detection at %.2f %.2f", i, c, x, y, sp[i].x, sp[i].y);
                if (have && sp[i].pnr != (int)i) fail("grid", "calibration point %zu of camera %d was marked %d", i, c, sp[i].pnr);
                if (hid) sp[i].pnr = -999;   // what else it was given is not its own
            }
            orient_par fl; memset(&fl, 0, sizeof fl); double sb[20];
            double *res = orient(k, cpar, (int)q.block.size(), (vec3d *)fix.data(), sp, &fl, sb);
            sim_free(sp); if (!res) { sim_free(k); fail("calibration", "camera %d: the orientation did not converge", c); }
            sim_free(res);
        }
        while (!write_calibration(k, &o[0], &a[0])) { retried++; if (!S->faults_fired()) { died = "saving a calibration failed"; return false; } S->clear_faults(); }
        sim_free(k); k = read_calibration(&o[0], &a[0], NULL); if (!k) fail("calibration", "a calibration that was saved cannot be loaded");
        cal[c] = k; return true;
    }
    bool frame_of(int f) {
        const Rig &g = s.rig; frame fr; frame_init(&fr, g.nc, MAXT); coord_2d *cor[4]; int mc[4]; bool ok = true;
        if (read_frame(&fr, nm.c(), NULL, NULL, nm.i(), f)) { free_frame(&fr); return true; }   // done before
        free_frame(&fr); frame_init(&fr, g.nc, MAXT);   // a frame that could not be read is not for saving
        for (int c = 0; c < g.nc && ok; c++) {
            int n = 0; if (!segment(q.img[{f, c}], c, fr.targets[c], n)) { ok = false; break; }
            fr.num_targets[c] = n;
        }
        if (!ok) { free_frame(&fr); return false; }
        for (int c = 0; c < g.nc; c++) {
            int n = fr.num_targets[c]; cor[c] = (coord_2d *)sim_malloc(sizeof(coord_2d) * (n ? n : 1));
            for (int i = 0; i < n; i++) { double x, y; pixel_to_metric(&x, &y, fr.targets[c][i].x, fr.targets[c][i].y, cpar); dist_to_flat(x, y, cal[c], &cor[c][i].x, &cor[c][i].y, 1e-6); cor[c][i].pnr = i; }
            quicksort_coord2d_x(cor[c], n);
        }
        n_tupel *con; int tries = 0;
        for (;;) { guard(); con = correspondences(&fr, cor, vpar, cpar, cal.data(), mc); bool lack = unguard(); if (con) break; retried++; if (++tries > 3 || !lack) { died = "matching failed though memory was there"; break; } }
        if (con) {
            for (int c = 0; c < g.nc; c++) for (int i = 0; i < fr.num_targets[c]; i++) fr.targets[c][i].tnr = CORRES_NONE;
            fr.num_parts = mc[3];
            for (int k = 0; k < mc[3]; k++) {
                vec2d t[4]; vec3d x; corres *co = &fr.correspond[k]; co->nr = k + 1;
                for (int c = 0; c < 4; c++) {
                    int i = c < g.nc ? con[k].p[c] : -1; t[c][0] = COORD_UNUSED; t[c][1] = COORD_UNUSED; co->p[c] = CORRES_NONE;
                    if (i >= 0) { t[c][0] = cor[c][i].x; t[c][1] = cor[c][i].y; co->p[c] = cor[c][i].pnr; fr.targets[c][cor[c][i].pnr].tnr = k; }
                }
                point_position(t, g.nc, cpar->mm, cal.data(), x);
                P *pi = &fr.path_info[k]; register_link_candidate(pi, 0, 0); reset_links(pi); pi->inlist = 0; vec_copy(pi->x, x); pi->finaldecis = 1e6; pi->prio = 4;
            }
            sim_free(con);
            while (!write_frame(&fr, nm.c(), nm.l(), nm.p(), nm.i(), f)) { retried++; if (!S->faults_fired()) { died = "saving a frame failed"; ok = false; break; } S->clear_faults(); }
        } else ok = false;
        for (int c = 0; c < g.nc; c++) sim_free(cor[c]);
        free_frame(&fr); return ok;
    }
    // what the user has put down in the settings files
    static std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g\n", d); return b; }
    static void settings(const Session &q, Disk &d) {
        const TrackScene &s = q.s; const Rig &g = s.rig; std::string t = std::to_string(g.nc) + "\n";
        for (int c = 0; c < g.nc; c++) t += "img/cam" + std::to_string(c) + "\ncal/cam" + std::to_string(c) + "\n";
        t += "1\n" + std::to_string(g.allcam) + "\n1\n" + std::to_string(g.imx) + "\n" + std::to_string(g.imy) + "\n" + num(g.px) + num(g.py) + std::to_string(g.chf) + "\n" + num(g.n1) + num(g.n2) + num(g.n3) + num(g.d); d.files["parameters/ptv.par"] = t;
        t.clear(); for (int k = 0; k < 2; k++) t += num(g.X[k]) + num(g.Zmin[k]) + num(g.Zmax[k]); for (double v : {g.cnx, g.cny, g.cn, g.csumg, g.corrmin, g.eps0}) t += num(v); d.files["parameters/criteria.par"] = t;
        t.clear(); for (int i = 0; i < 9; i++) t += std::to_string(weights[i]) + (i % 3 == 2 ? "\n" : " "); d.files["parameters/filter.par"] = t;
        t.clear(); for (auto &b : s.st.img) t += b + "\n"; t += std::to_string(s.first) + "\n" + std::to_string(s.last) + "\n"; d.files["parameters/sequence.par"] = t;
        t.clear(); for (auto &v : s.tp.dv) t += num(v[0]) + num(v[1]); t += num(s.tp.dangle) + num(s.tp.dacc) + std::to_string(s.tp.add) + "\n"; d.files["parameters/track.par"] = t;
    }
    void run() {
        const Rig &g = s.rig; std::string f[5] = {"parameters/ptv.par", "parameters/criteria.par", "parameters/sequence.par", "parameters/track.par", "parameters/targ_rec.par"};
        cpar = read_control_par(&f[0][0]); vpar = read_volume_par(&f[1][0]); if (!cpar || !vpar) fail("settings", "the settings cannot be read"); cal.assign(g.nc, nullptr);
        // the program keeps the detection settings itself
        tpar = read_target_par(&f[4][0]); if (!tpar || tpar->cr_sz != tp.cr_sz) { if (tpar) sim_free(tpar); write_target_par(&tp, &f[4][0]); tpar = read_target_par(&f[4][0]); } if (!tpar || !compare_target_par(tpar, &tp)) fail("settings", "the detection settings that were saved are not those that were loaded");
        for (int c = 0; c < g.nc; c++) if (!calibrate(c)) return;
        if (q.tables) for (int c = 0; c < g.nc; c++) init_mmlut(vpar, cpar, cal[c]);
        for (int f = s.first; f <= s.last; f++) if (!frame_of(f)) return;
        S->clear_faults();   // tracking ignores failing saves
        sequence_par *sq = read_sequence_par(&f[2][0], g.nc); track_par *tq = read_track_par(&f[3][0]); volume_par *vq = read_volume_par(&f[1][0]); control_par *cq = read_control_par(&f[0][0]); if (!sq || !tq || !vq || !cq) fail("settings", "the settings cannot be read");
        tracking_run *tr = tr_new(sq, tq, vq, cq, 4, MAXT, nm.c(), nm.l(), nm.p(), cal.data(), s.tol);
        track_forward_start(tr); for (int f = s.first; f < s.last; f++) trackcorr_c_loop(tr, f); trackcorr_c_finish(tr, s.last);
        if (q.back) trackback_c(tr);
        tr_free(tr); sim_free(tr);
        for (auto k : cal) { sim_free(k->mmlut.data); sim_free(k); }
        free_control_par(cpar); sim_free(vpar); sim_free(tpar);
    }
};
void fresh(u64 seed) { S->drop_process(); restore_globals(); S->heap_rng = Rng(mix(S->heap_seed, seed)); g_stack_seed = mix(S->heap_seed, seed + 1); S->crash_at_io = S->crash_at_point = -1; S->clear_faults(); S->clear_alloc_faults(); S->allocs_failed = 0; }
// What the finished session must have found. Returns the number of facts checked.
int check_truth(Session &q, Program &) {
    const TrackScene &s = q.s; const Rig &g = s.rig; int facts = 0;
    auto loadcal = [&](int c, Cam &k) { std::vector<double> v; for (auto &f : {Session::ori(c), Session::add(c)}) for (auto &t : tokens(S->disk.files[f])) { double d; if (!tok_double(t, d)) fail("calibration", "the calibration of camera %d is damaged", c); v.push_back(d); }
        if (v.size() != 28) fail("calibration", "the calibration of camera %d is damaged", c);
        k.c = {v[0], v[1], v[2]}; k.om = v[3]; k.ph = v[4]; k.ka = v[5]; k.xh = v[15]; k.yh = v[16]; k.cc = v[17]; k.G = {v[18], v[19], v[20]}; k.k1 = v[21]; k.k2 = v[22]; k.k3 = v[23]; k.p1 = v[24]; k.p2 = v[25]; k.scx = v[26]; k.she = v[27]; k.setR(); };
    Rig cg = g;   // as the program knows it
    // how far in pixels the detection at x, y of camera b is from the line of sight of a detection of camera a
    auto off_line = [&](const Rig &r, int a, double xa, double ya, int b, double xb, double yb) {
        double fx, fy, best = 1e9, x0 = 0, y0 = 0; V3 o, u; if (!flatten(r, a, xa, ya, fx, fy)) return 1e9; trace(r, a, fx, fy, o, u);
        double zl = std::min(g.Zmin[0], g.Zmin[1]) - 2, zh = std::max(g.Zmax[0], g.Zmax[1]) + 2;
        for (int k = 0; k <= 40; k++) {
            double z = zl + (zh - zl) * k / 40, x, y; V3 P = o + ((z - o.z) / u.z) * u; if (!project(r, b, P, x, y, true)) return 1e9;
            if (k) { double dx = x - x0, dy = y - y0, l = dx * dx + dy * dy, t = l > 0 ? std::max(0.0, std::min(1.0, ((xb - x0) * dx + (yb - y0) * dy) / l)) : 0; best = std::min(best, hypot(x0 + t * dx - xb, y0 + t * dy - yb)); }
            x0 = x; y0 = y;
        }
        return best;
    };
    for (int c = 0; c < g.nc; c++) {   // the calibration shows points where the real camera sees them
        Rig h = g; loadcal(c, h.cam[c]); cg.cam[c] = h.cam[c];
        for (int k = 0; k < 8; k++) {
            V3 P{(k & 1 ? 0.8 : -0.8) * g.X[1], (k & 2 ? 0.8 : -0.8) * g.X[1], 0.8 * (k & 4 ? g.Zmax[0] : g.Zmin[0])}; double x0, y0, x1, y1;
            if (!project(g, c, P, x0, y0, true) || !project(h, c, P, x1, y1, true)) continue;
            if (!(hypot(x0 - x1, y0 - y1) < (q.calibrated(c) ? 1.5 : 0.05))) fail("calibration", "camera %d shows a point %.2f pixels from where its calibration has it", c, hypot(x0 - x1, y0 - y1));
            facts++;
        }
    }
    std::map<int, std::vector<int>> mine;   // frame -> particle of the truth of each stored particle (-1: none)
    std::map<int, FrameData> fr; std::set<int> clear; double eps = g.eps0 / std::min(g.px, g.py);
    for (int f = s.first; f <= s.last; f++) {
        std::string why; if (!get_frame(S->disk, s.st, f, true, true, fr[f], &why)) fail("not-stored", "frame %d is not complete at the end: %s", f, why.c_str());
        const FrameData &F = fr[f], &T = s.frames.at(f); bool ok = true;
        for (int c = 0; c < g.nc; c++) { auto &b = q.blobs[{f, c}]; for (size_t i = 0; i < b.size(); i++) { if (b[i].x < 7 || b[i].y < 7 || b[i].x > g.imx - 7 || b[i].y > g.imy - 7) ok = false; for (size_t j = 0; j < i; j++) if (hypot(b[i].x - b[j].x, b[i].y - b[j].y) < 11) ok = false; } }
        // the depth limits of a line of sight are those at the place where it enters (see epi_mm, "valid only for one setup")
        for (auto &P : T.parts) for (int c = -1; c < g.nc; c++) {
            double X = P.x[0], fx, fy; V3 o, u; if (c >= 0) { if (P.p[c] < 0) continue; auto &w = T.targets[c][P.p[c]]; if (!flatten(g, c, w.x, w.y, fx, fy)) { ok = false; continue; } trace(g, c, fx, fy, o, u); X = o.x; }
            double t = (X - g.X[0]) / (g.X[1] - g.X[0]), zl = g.Zmin[0] + t * (g.Zmin[1] - g.Zmin[0]), zh = g.Zmax[0] + t * (g.Zmax[1] - g.Zmax[0]), m = std::max(0.0, 0.04 * (zh - zl)); if (P.x[2] < zl + m || P.x[2] > zh - m) ok = false;
        }
        if (!ok) { stats.inc("probe.frame_overlap"); continue; }
        // detections
        for (int c = 0; c < g.nc; c++) {
            auto &b = q.blobs[{f, c}]; const auto &t = F.targets[c]; size_t want = b.size();
            if (!want) { if (t.empty()) continue; if (t.size() != 1 || t[0].x != 1 || t[0].y != 1) fail("detection", "frame %d camera %d: %zu detections in an empty image, one at %.2f %.2f of %d pixels", f, c, t.size(), t.empty() ? 0. : t[0].x, t.empty() ? 0. : t[0].y, t.empty() ? 0 : t[0].n); continue; }
            if (t.size() != want) fail("detection", "frame %d camera %d: %zu detections of %zu blobs", f, c, t.size(), want);
            for (auto &q1 : b) { double d = 1e9; for (auto &d1 : t) d = std::min(d, hypot(d1.x - q1.x, d1.y - q1.y)); if (!(d < (q.peak ? 0.8 : 0.4))) fail("detection", "frame %d camera %d: nothing detected within %.2f pixels of the blob at %.2f %.2f", f, c, d, q1.x, q1.y); facts++; }
        }
        // could anything be matched with something else?
        bool amb = false;
        for (int a = 0; a < g.nc && !amb; a++) for (auto &i : q.blobs[{f, a}]) {
            double fx, fy; V3 o, u; if (!flatten(g, a, i.x, i.y, fx, fy)) { amb = true; break; } trace(g, a, fx, fy, o, u);
            for (int b = 0; b < g.nc && !amb; b++) if (b != a) {
                double zl = std::min(g.Zmin[0], g.Zmin[1]) - 2, zh = std::max(g.Zmax[0], g.Zmax[1]) + 2, x0 = 0, y0 = 0;
                for (int k = 0; k <= 40; k++) {
                    double z = zl + (zh - zl) * k / 40, x, y; V3 P = o + ((z - o.z) / u.z) * u; if (!project(g, b, P, x, y, true)) { amb = true; break; }
                    if (k) for (auto &j : q.blobs[{f, b}]) if (j.id < 0 || j.id != i.id) {   // distance to the piece of the line
                        double dx = x - x0, dy = y - y0, l = dx * dx + dy * dy, t = l > 0 ? std::max(0.0, std::min(1.0, ((j.x - x0) * dx + (j.y - y0) * dy) / l)) : 0;
                        if (hypot(x0 + t * dx - j.x, y0 + t * dy - j.y) < 1.5 * eps + (q.peak ? 2 : 1.5)) amb = true;
                    }
                    x0 = x; y0 = y;
                }
            }
            // the place an empty image is said to show something
            if (amb) break;
        }
        for (int c = 0; c < g.nc; c++) if (q.blobs[{f, c}].empty()) amb = true;   // (its stand-in detection may be matched)
        if (amb) { stats.inc("probe.frame_ambiguous"); continue; }
        clear.insert(f); stats.inc("probe.frame_clear");
        size_t found = 0; bool ghost = false; mine[f].assign(F.parts.size(), -1);
        for (size_t k = 0; k < T.parts.size(); k++) {
            std::vector<int> cams; for (int c = 0; c < g.nc; c++) if (T.parts[k].p[c] >= 0) cams.push_back(c);
            if (cams.size() < 2) continue;
            // do the detections and calibrations, inaccurate as they are, leave it within the tolerance?
            auto beyond = [&] {
                auto det = [&](int c) { const T2 *b = nullptr; double bd = 1e9; auto &w = T.targets[c][T.parts[k].p[c]]; for (auto &d : F.targets[c]) if (hypot(d.x - w.x, d.y - w.y) < bd) bd = hypot(d.x - w.x, d.y - w.y), b = &d; return b; };
                for (int a : cams) for (int b : cams) if (a != b && !(off_line(cg, a, det(a)->x, det(a)->y, b, det(b)->x, det(b)->y) < 0.75 * eps)) { stats.inc("probe.beyond_tolerance"); return true; }
                return false;
            };
            int hit = -1; bool skip = false;
            for (size_t i = 0; i < F.parts.size() && !skip; i++) {
                int same = 0, other = 0;
                for (int c = 0; c < g.nc; c++) { int w = T.parts[k].p[c], h = F.parts[i].p[c]; bool is = false; if (w >= 0 && h >= 0 && h < (int)F.targets[c].size()) is = hypot(F.targets[c][h].x - T.targets[c][w].x, F.targets[c][h].y - T.targets[c][w].y) < 2; if (is) same++; else if (w >= 0 || h >= 0) other++; }
                if (same && other && beyond()) { skip = true; break; }
                if (same && other) fail("match", "frame %d: stored particle %zu uses %d detections of particle %zu and differs in %d", f, i, same, k, other);
                if (same) { if (hit >= 0) fail("match", "frame %d: particle %zu is stored twice", f, k); hit = (int)i; }
            }
            if (skip || (hit < 0 && beyond())) { ghost = true; continue; }
            if (hit < 0) fail("match", "frame %d: particle %zu, seen by %zu cameras, is not among the stored ones", f, k, cams.size());
            mine[f][hit] = (int)k; found++; facts++;
            // where it is: seen from every camera it must be where it was detected
            const P3 &P = F.parts[hit];
            for (int c : cams) {
                double x, y; if (!project(g, c, {P.x[0], P.x[1], P.x[2]}, x, y, true) || !(hypot(x - T.targets[c][T.parts[k].p[c]].x, y - T.targets[c][T.parts[k].p[c]].y) < (q.peak ? 1.6 : 1.2))) fail("position", "frame %d: particle %zu at %.3f %.3f %.3f was placed at %.3f %.3f %.3f, %.2f pixels off in camera %d", f, k, T.parts[k].x[0], T.parts[k].x[1], T.parts[k].x[2], P.x[0], P.x[1], P.x[2], hypot(x - T.targets[c][T.parts[k].p[c]].x, y - T.targets[c][T.parts[k].p[c]].y), c);
            }
        }
        if (ghost) clear.erase(f); else if (found != F.parts.size()) fail("match", "frame %d: %zu particles are stored, %zu are there", f, F.parts.size(), found);
    }
    // trajectories
    MStore in; for (int f = s.first; f <= s.last; f++) { MF &m = in[f]; m.readable = true; m.tg = s.frames.at(f).targets; for (auto &P : s.frames.at(f).parts) { MP n; n.x = {P.x[0], P.x[1], P.x[2]}; memcpy(n.p, P.p, sizeof n.p); m.parts.push_back(n); } for (auto &l : q.p.lines) if (l.kind() == "spot" && l.i(1) == f && l.i(2) >= 0 && l.i(2) < g.nc) { T2 t{}; t.x = l.d(3); t.y = l.d(4); t.tnr = -1; m.tg[l.i(2)].push_back(t); } }
    if (clear_scene(s, in)) {
        double mmpx = (g.X[1] - g.X[0]) / std::min(g.imx, g.imy), e = 1.5 * mmpx;   // how far off a position may be, depth included
        stats.inc("probe.clear_scene");
        auto pos = [&](int f, int i) { const P3 &P = fr[f].parts[i]; return V3{P.x[0], P.x[1], P.x[2]}; }; (void)e;
        auto at = [&](int f, int id) { if (f < s.first || f > s.last || !clear.count(f)) return -1; for (size_t i = 0; i < mine[f].size(); i++) if (mine[f][i] >= 0 && s.id.at(f)[mine[f][i]] == id) return (int)i; return -1; };
        auto inb = [&](V3 d) { for (int i = 0; i < 3; i++) if (!(d[i] > 0.9 * s.tp.dv[i][0] && d[i] < 0.9 * s.tp.dv[i][1])) return false; return true; };
        auto ang = [&](V3 a, V3 b, V3 c, double &acc) { V3 u = b - a, w = c - a; acc = len(u - w); double l = len(u) * len(w); return l < 1e-12 ? 0.0 : 200 / M_PI * acos(std::max(-1.0, std::min(1.0, dot(u, w) / l))); };
        auto fits = [&](double acc, double a) { return acc < 0.9 * s.tp.dacc && a < 0.9 * s.tp.dangle; };
        for (int f = s.first; f + 2 <= s.last; f++) for (size_t i = 0; i < fr[f].parts.size(); i++) {
            if (!clear.count(f) || mine[f][i] < 0) continue;
            int id = s.id.at(f)[mine[f][i]], b = at(f + 1, id), c = at(f + 2, id); if (b < 0 || c < 0) continue;
            V3 x0 = pos(f, i), x1 = pos(f + 1, b), x2 = pos(f + 2, c); double acc, a = ang(x1, x2, x1 + (x1 - x0), acc); if (!inb(x1 - x0) || !inb(x2 - x1) || !fits(acc, a)) continue;
            int prev = fr[f].parts[i].prev;
            if (prev >= 0) {
                if (!clear.count(f - 1) || at(f - 1, id) != prev) continue;
                V3 xm = pos(f - 1, prev), pred = x0 + (x0 - xm); double acc0, a0 = ang(x0, pred, x1, acc0), acc1; V3 x5{0.5 * (5 * x1.x - 4 * x0.x + xm.x), 0.5 * (5 * x1.y - 4 * x0.y + xm.y), 0.5 * (5 * x1.z - 4 * x0.z + xm.z)}; double a1 = ang(x1, x2, x5, acc1);
                if (!fits((acc + acc0 + acc1) / 2, (a + a0 + a1) / 2) || !fits(acc1, a1) || !inb(1.6 * (x1 - pred)) || !inb(1.6 * (x2 - x5))) continue;
            } else if (!inb(1.6 * (x1 - x0)) || !inb(1.6 * (x2 - (x1 + (x1 - x0))))) continue;
            if (fr[f].parts[i].next != b) fail("trajectory", "frame %d: particle %zu belongs to trajectory %d, which goes on as %d, but is linked to %d", f, i, id, b, fr[f].parts[i].next);
            facts++; stats.inc("probe.trajectory_links");
        }
    }
    return facts;
}
}
static Outcome exec(const Plan &p) {
    return guarded(p, [&](Outcome &o) {
        Session q(p); std::unique_ptr<Program> P; const TrackScene &s = q.s;
        // an undisturbed session
        Program::settings(q, S->disk); u64 io = S->io_ops, pt = S->points, al = S->alloc_count; P.reset(new Program(q));
        if (run_fiber([&] { P->run(); }) != FE_DONE) fail("hang", "the session did not end");
        if (!P->died.empty()) fail("gave-up", "%s", P->died.c_str());
        io = S->io_ops - io; pt = S->points - pt; al = S->alloc_count - al;
        { std::string l = S->leak_report(); if (!l.empty()) fail("leak", "%s", l.c_str()); }
        std::map<std::string, std::string> ref = S->disk.files; S->log("reference %016llx", (unsigned long long)S->disk.hash());
        int facts = check_truth(q, *P); stats.inc("facts", facts);
        // the same with the failures of the plan
        fresh(1); S->disk.files.clear(); Program::settings(q, S->disk); std::vector<const Line *> crashes; u64 allocs0 = 0; (void)allocs0; bool any = false;
        for (auto &l : p.lines) if (l.kind() == "crash" && crashes.size() < 6) crashes.push_back(&l);
        auto arm = [&] {
            for (auto &l : p.lines) {
                if (l.kind() == "oom") P->oom[(u64)llabs(l.i(1))] = {(u64)llabs(l.i(2)), l.i(3)};
                else if (l.kind() == "lostwrite") { auto n = s.st.all((int)l.i(2)); if (n.empty()) continue; Fault x; x.kind = l.i(1) ? F_WRITE : F_CLOSE; x.match = "=" + n[(u64)llabs(l.i(3)) % n.size()]; x.sticky = false; x.at = l.i(1) ? (i64)(ref[x.match.substr(1)].size() * ((u64)llabs(l.i(4)) % 1000) / 1000) : 0; S->faults.push_back(x); any = true; }
            }
        };
        for (size_t k = 0; k <= crashes.size(); k++) {
            P.reset(new Program(q)); if (k == 0) arm();
            if (k < crashes.size()) { u64 at = (u64)llabs(crashes[k]->i(2)) % 1000000; if (crashes[k]->i(1) == 0) S->crash_at_io = S->io_ops + io * at / 1000000; else S->crash_at_point = S->points + pt * at / 1000000; }
            // lost writes are noticed only while frames are first saved; tracking ignores them, so they are over by then
            FiberEnd e = run_fiber([&] { P->run(); });
            if (e == FE_HANG) fail("hang", "the session did not end");
            if (!P->died.empty()) fail("gave-up", "%s", P->died.c_str());
            stats.inc("retries", P->retried); for (auto &f : S->faults) if (f.fired) stats.inc("fault.lost_write");
            if (P->retried) any = true;
            if (e == FE_DONE) { if (k < crashes.size()) stats.inc("crash_too_late"); P.reset(); fresh(20); break; }
            stats.inc("crashes"); any = true; P.reset(); fresh(10 + k);
        }
        S->log("disturbed %016llx", (unsigned long long)S->disk.hash());
        for (auto &f : ref) { auto i = S->disk.files.find(f.first); if (i == S->disk.files.end()) fail("not-recovered", "%s is missing after the disturbed session", f.first.c_str()); if (i->second != f.second) fail("not-recovered", "%s differs after the disturbed session", f.first.c_str()); }
        for (auto &f : S->disk.files) if (!ref.count(f.first)) fail("not-recovered", "%s is left over after the disturbed session", f.first.c_str());
        o.trivial = !facts && !any;
    });
}
static Reg r18({"C18", gen, exec, 2000, 30000});
