#include "ops.h"
#include <algorithm>
void Dig::d(const std::string &l, double v) {
    u64 b; if (v != v) v = NAN; if (v == 0) v = 0.0 * 0; memcpy(&b, &v, 8); char s[64]; snprintf(s, sizeof s, "%.17g", v); t += l; t += ' '; t += v != v ? "nan" : s; t += '\n';
}
void Dig::bytes(const std::string &l, const void *p, size_t n) {
    const unsigned char *c = (const unsigned char *)p; t += l;
    for (size_t k = 0; k < n; k++) { if (k % 32 == 0) t += "\n " + std::to_string(k) + ":"; static const char *h = "0123456789abcdef"; t += h[c[k] >> 4]; t += h[c[k] & 15]; }
    t += '\n';
}
std::string first_difference(const std::string &a, const std::string &b) {
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        size_t e = a.find('\n', i), f = b.find('\n', j); if (e == std::string::npos) e = a.size(); if (f == std::string::npos) f = b.size();
        std::string x = a.substr(std::min(i, a.size()), e - std::min(i, a.size())), y = b.substr(std::min(j, b.size()), f - std::min(j, b.size()));
        if (x != y) return "\"" + x.substr(0, 150) + "\" / \"" + y.substr(0, 150) + "\"";
        i = e + 1; j = f + 1;
    }
    return "";
}
void Op::digest_files(const std::string &sub) {
    for (auto &f : S->disk.files) if (f.first.compare(0, sub.size(), sub) == 0) out.s("file " + f.first, f.second);
}
namespace {
void dig_target(Dig &o, const std::string &l, const target &t) {
    o.i(l + ".pnr", t.pnr); o.d(l + ".x", t.x); o.d(l + ".y", t.y); o.i(l + ".n", t.n); o.i(l + ".nx", t.nx); o.i(l + ".ny", t.ny); o.i(l + ".sumg", t.sumg); o.i(l + ".tnr", t.tnr);
}
void dig_frame(Dig &o, const frame *f, bool transient = true) {
    o.i("num_parts", f->num_parts); o.i("num_cams", f->num_cams); o.i("unreadable", f->unreadable);
    for (int k = 0; k < f->num_parts; k++) {
        const P &p = f->path_info[k]; std::string l = "part" + std::to_string(k);
        o.ds(l + ".x", p.x, 3); o.i(l + ".prev", p.prev); o.i(l + ".next", p.next); o.i(l + ".prio", p.prio);
        if (transient) { o.i(l + ".inlist", p.inlist); o.d(l + ".finaldecis", p.finaldecis); for (int j = 0; j < POSI; j++) { o.d(l + ".decis", p.decis[j]); o.i(l + ".linkdecis", p.linkdecis[j]); } }
        for (int c = 0; c < 4; c++) o.i(l + ".p", f->correspond[k].p[c]);
        if (transient) o.i(l + ".nr", f->correspond[k].nr);
    }
    for (int c = 0; c < f->num_cams; c++) { o.i("num_targets", f->num_targets[c]); for (int k = 0; k < f->num_targets[c]; k++) dig_target(o, "targ" + std::to_string(c) + "." + std::to_string(k), f->targets[c][k]); }
}
void dig_cal(Dig &o, const Calibration &c) {
    const Exterior &e = c.ext_par; o.d("x0", e.x0); o.d("y0", e.y0); o.d("z0", e.z0); o.d("omega", e.omega); o.d("phi", e.phi); o.d("kappa", e.kappa); o.ds("dm", &e.dm[0][0], 9);
    o.d("xh", c.int_par.xh); o.d("yh", c.int_par.yh); o.d("cc", c.int_par.cc); o.d("vx", c.glass_par.vec_x); o.d("vy", c.glass_par.vec_y); o.d("vz", c.glass_par.vec_z);
    const ap_52 &a = c.added_par; for (double v : {a.k1, a.k2, a.k3, a.p1, a.p2, a.scx, a.she}) o.d("add", v);
}
void dig_cpar(Dig &o, const control_par *c) {
    o.i("num_cams", c->num_cams); for (int k = 0; k < c->num_cams; k++) { o.s("img", c->img_base_name[k]); o.s("calimg", c->cal_img_base_name[k]); }
    for (int v : {c->hp_flag, c->allCam_flag, c->tiff_flag, c->imx, c->imy, c->chfield}) o.i("c", v);
    o.d("pix_x", c->pix_x); o.d("pix_y", c->pix_y); o.i("nlay", c->mm->nlay); o.d("n1", c->mm->n1); o.d("n2", c->mm->n2[0]); o.d("d", c->mm->d[0]); o.d("n3", c->mm->n3);
}
void garbage(Rng &r, void *p, size_t n) { unsigned char *c = (unsigned char *)p; for (size_t k = 0; k < n; k++) c[k] = (unsigned char)r.next(); }
void dirty_target(Rng &r, target &t) { t.pnr = (int)r.range(-1, 50); t.x = r.uni(0, 1000); t.y = r.uni(0, 1000); t.n = (int)r.below(50); t.nx = (int)r.below(9); t.ny = (int)r.below(9); t.sumg = (int)r.below(9000); t.tnr = (int)r.range(-1, 50); }
void dirty_frame(Rng &r, frame *f, int max_targets) {
    f->num_parts = (int)r.below(max_targets + 1); f->unreadable = (int)r.below(2);
    for (int k = 0; k < max_targets; k++) {
        P &p = f->path_info[k]; for (double &x : p.x) x = r.uni(-50, 50);
        p.prev = (int)r.range(-2, 40); p.next = (int)r.range(-2, 40); p.prio = (int)r.below(5); p.inlist = (int)r.below(POSI); p.finaldecis = r.uni(0, 2);
        for (int j = 0; j < POSI; j++) { p.decis[j] = r.uni(0, 3); p.linkdecis[j] = (int)r.range(-1, 40); }
        f->correspond[k].nr = (int)r.below(50); for (int &q : f->correspond[k].p) q = (int)r.range(-1, 40);
        for (int c = 0; c < f->num_cams; c++) dirty_target(r, f->targets[c][k]);
    }
    for (int c = 0; c < f->num_cams; c++) f->num_targets[c] = (int)r.below(max_targets + 1);
}
// another arrangement of cameras that has most of its values in common with this one
void vary_rig(Rng &r, Rig &g) {
    for (int n = 1 + (int)r.below(2); n > 0; n--) {
        Cam &c = g.cam[r.below(std::max(1, g.nc))]; double q = r.uni(0.5, 1) * (r.chance(0.5) ? 1 : -1);
        switch (r.below(16)) {
        case 0: g.d *= 1 + 0.3 * q; break;
        case 1: g.n2 += 0.05 * fabs(q); break;
        case 2: if (!g.air()) g.n3 += 0.03 * q; break;
        case 3: c.c = (1 + 0.02 * q) * c.c; break;
        case 4: (r.chance(0.5) ? c.om : c.ph) += 0.02 * q; c.setR(); break;
        case 5: c.ka += 0.03 * q; c.setR(); break;
        case 6: c.cc *= 1 + 0.02 * q; break;
        case 7: c.xh += 0.1 * q; c.yh -= 0.05 * q; break;
        case 8: c.G = (1 + 0.02 * q) * c.G; break;
        case 9: c.k1 += 1e-5 * q; break;
        case 10: (r.chance(0.5) ? c.p1 : c.p2) += 1e-6 * q; break;
        case 11: (r.chance(0.5) ? c.scx : c.she) += 0.005 * q; break;
        case 12: (r.chance(0.5) ? g.imx : g.imy) += 1 + (int)r.below(20); break;
        case 13: (r.chance(0.5) ? g.px : g.py) *= 1 + 0.02 * q; break;
        case 14: for (int k = 0; k < 2; k++) { g.X[k] *= 1 - 0.1 * fabs(q); g.Zmin[k] += 0.3 * q; g.Zmax[k] += 0.2 * q; } break;
        case 15: g.eps0 *= 1 + 0.3 * q; g.corrmin *= 1 + 0.3 * q; g.cn *= 1 + 0.2 * q; break;
        }
    }
}
void put_in(const Rig &g, LibRig &L, control_par *c, volume_par *v) {
    for (size_t k = 0; k < L.cals.size(); k++) { auto lut = L.cals[k].mmlut; fill_cal(L.cals[k], g.cam[k]); L.cals[k].mmlut = lut; }
    if (c) { c->mm->n1 = g.n1; c->mm->n2[0] = g.n2; c->mm->n3 = g.n3; c->mm->d[0] = g.d; c->imx = g.imx; c->imy = g.imy; c->pix_x = g.px; c->pix_y = g.py; }
    if (v) for (int i = 0; i < 2; i++) { v->X_lay[i] = g.X[i]; v->Zmin_lay[i] = g.Zmin[i]; v->Zmax_lay[i] = g.Zmax[i]; }
    if (v) { v->eps0 = g.eps0; v->corrmin = g.corrmin; v->cn = g.cn; }
}
// ---------------------------------------------------------------- settings
struct SettingsOp : Op {
    std::string what; int nc, cam; std::vector<std::string> names, texts; bool fallback, raw;
    void *obj = nullptr; int num = 0; vec3d fix[4]; Exterior ex; Interior in; Glass g; ap_52 ap;
    SettingsOp(u64 seed, const std::string &p) {
        pre = p; Rng r(seed); static const char *K[] = {"sequence", "track", "volume", "control", "target", "orient", "sortgrid", "calblock", "manori", "cal"};
        what = K[r.below(10)]; nc = 1 + (int)r.below(4); cam = (int)r.below(nc); make_files(what, seed, nc, names, texts); for (auto &n : names) n = pre + n;
        fallback = r.chance(0.5); raw = r.chance(0.5); memset(fix, 0, sizeof fix); memset(&ex, 0, sizeof ex); memset(&in, 0, sizeof in); memset(&g, 0, sizeof g); memset(&ap, 0, sizeof ap);
        if (what == "cal" && fallback && r.chance(0.5)) { texts[1] = ""; }
    }
    void files(Disk &d) override { for (size_t k = 0; k < names.size(); k++) if (!(what == "cal" && k == 1 && texts[1].empty())) d.files[names[k]] = texts[k]; }
    void vary(Rng &r) override { std::vector<std::string> n, t; make_files(what, r.next(), nc, n, t); for (size_t k = 0; k < texts.size() && k < t.size(); k++) if (!texts[k].empty()) texts[k] = t[k]; }
    void dirty(Rng &r) override { for (auto &v : fix) for (double &x : v) x = r.uni(-9, 9); ex.x0 = ex.dm[1][1] = r.uni(1, 2); ap.k1 = in.cc = g.vec_z = r.uni(1, 2); num = 77; }
    void call() override {
        char *f = &names[0][0];
        if (what == "sequence") obj = read_sequence_par(f, nc); else if (what == "track") obj = read_track_par(f); else if (what == "volume") obj = read_volume_par(f);
        else if (what == "control") obj = read_control_par(f); else if (what == "target") obj = read_target_par(f); else if (what == "orient") obj = read_orient_par(f);
        else if (what == "calblock") obj = read_calblock(&num, f); else if (what == "sortgrid") num = read_sortgrid_par(f);
        else if (what == "manori") num = read_man_ori_fix(fix, &names[1][0], f, cam);
        else if (raw) num = read_ori(&ex, &in, &g, f, &ap, &names[1][0], fallback ? &names[2][0] : NULL);
        else obj = read_calibration(f, &names[1][0], fallback ? &names[2][0] : NULL);
        bool byobj = !(what == "sortgrid" || what == "manori" || (what == "cal" && raw)); failed = byobj ? !obj : !num;
    }
    void digest() override {
        out.i("failed", failed); if (failed) return;
        if (what == "sequence") { auto q = (sequence_par *)obj; out.i("n", q->num_cams); for (int k = 0; k < q->num_cams; k++) out.s("img", q->img_base_name[k]); out.i("first", q->first); out.i("last", q->last); }
        else if (what == "track") { auto q = (track_par *)obj; for (double v : {q->dacc, q->dangle, q->dvxmax, q->dvxmin, q->dvymax, q->dvymin, q->dvzmax, q->dvzmin}) out.d("t", v); for (int v : {q->dsumg, q->dn, q->dnx, q->dny, q->add}) out.i("t", v); }
        else if (what == "volume") { auto q = (volume_par *)obj; for (int k = 0; k < 2; k++) { out.d("v", q->X_lay[k]); out.d("v", q->Zmin_lay[k]); out.d("v", q->Zmax_lay[k]); } for (double v : {q->cn, q->cnx, q->cny, q->csumg, q->eps0, q->corrmin}) out.d("v", v); }
        else if (what == "control") dig_cpar(out, (control_par *)obj);
        else if (what == "target") { auto q = (target_par *)obj; for (int v : {q->discont, q->gvthres[0], q->gvthres[1], q->gvthres[2], q->gvthres[3], q->nnmin, q->nnmax, q->nxmin, q->nxmax, q->nymin, q->nymax, q->sumg_min, q->cr_sz}) out.i("t", v); }
        else if (what == "orient") { auto q = (orient_par *)obj; for (unsigned v : {q->useflag, q->ccflag, q->xhflag, q->yhflag, q->k1flag, q->k2flag, q->k3flag, q->p1flag, q->p2flag, q->scxflag, q->sheflag, q->interfflag}) out.i("o", v); }
        else if (what == "calblock") { out.i("n", num); for (int k = 0; k < num; k++) out.ds("p", ((vec3d *)obj)[k], 3); }
        else if (what == "sortgrid") out.i("eps", num);
        else if (what == "manori") { out.i("n", num); for (auto &v : fix) out.ds("p", v, 3); }
        else if (raw) { Calibration c; memset(&c, 0, sizeof c); c.ext_par = ex; c.int_par = in; c.glass_par = g; c.added_par = ap; dig_cal(out, c); }
        else { auto c = (Calibration *)obj; dig_cal(out, *c); out.i("table", c->mmlut.data != NULL); }
    }
    void release() override { if (!obj) return; if (what == "sequence") free_sequence_par((sequence_par *)obj); else if (what == "control") free_control_par((control_par *)obj); else sim_free(obj); obj = nullptr; }
};
// saving detection settings and calibrations
struct SaveOp : Op {
    bool cal; Calibration c; target_par t; bool raw, add; std::string ori, ap, tf; int ok = 0;
    SaveOp(u64 seed, const std::string &p) {
        pre = p; Rng r(seed); cal = r.chance(0.6); raw = r.chance(0.3); add = !raw || r.chance(0.7); Rig g = random_rig(r, 1, true); fill_cal(c, g.cam[0]); ori = pre + "c.ori"; ap = pre + "c.addpar"; tf = pre + "t.par";
        int *q = (int *)&t; memset(&t, 0, sizeof t); for (size_t k = 0; k < sizeof t / sizeof(int); k++) q[k] = (int)r.below(30000);
    }
    void vary(Rng &r) override { Rig g = random_rig(r, 1, true); fill_cal(c, g.cam[0]); for (int &x : t.gvthres) x = (int)r.below(30000); }
    void call() override {
        if (!cal) write_target_par(&t, &tf[0]);
        else if (raw) { ok = write_ori(c.ext_par, c.int_par, c.glass_par, c.added_par, &ori[0], add ? &ap[0] : NULL); failed = !ok; }
        else { ok = write_calibration(&c, &ori[0], &ap[0]); failed = !ok; }
    }
    void digest() override { out.i("ok", ok); digest_files(pre); }
    void inputs(Dig &o) override { dig_cal(o, c); }
};
// ---------------------------------------------------------------- frames
struct FrameOp : Op {
    Store st; std::map<int, FrameData> fr; int nc, mx = 1, first; frame f; std::unique_ptr<Names> nm; bool links; int mode; std::vector<int> res;
    FrameOp(u64 seed, int size, const std::string &p) {
        pre = p; Rng r(seed); nc = 1 + (int)r.below(4); st = random_store(r, 0, nc, true); st.corres = pre + "rt"; st.linkage = pre + "ptv"; st.prio = pre + "added"; for (int c = 0; c < nc; c++) st.img[c] = pre + "c" + std::to_string(c) + ".%d_";
        for (int c = 0; c < nc; c++) st.img[c] = pre + "img" + std::to_string(c) + ".";
        first = (int)r.range(1, 12000); links = r.chance(0.6); int n = 1 + (int)r.below(3);
        for (int k = 0; k < n; k++) { int np = r.chance(0.2) ? 0 : (int)r.below(size ? 60 : 12), nt = r.chance(0.2) ? 0 : (int)r.below(size ? 60 : 12); fr[first + k] = random_frame(mix(seed, k), np, nt, nc, 0); mx = std::max(mx, std::max(np, nt)); for (auto &t : fr[first + k].targets) mx = std::max(mx, (int)t.size()); }
        nm.reset(new Names(st));
    }
    void files(Disk &d) override { for (auto &x : fr) put_frame(d, st, x.first, x.second, true, true); }
    void vary(Rng &r) override { for (auto &x : fr) if (r.chance(0.7)) { x.second = random_frame(r.next(), (int)r.below(mx + 1), (int)r.below(mx + 1), nc, 0); for (auto &t : x.second.targets) if ((int)t.size() > mx) t.resize(mx); } }
    void setup() override { frame_init(&f, nc, mx + 3); }
    void dirty(Rng &r) override { dirty_frame(r, &f, mx); }
    void call() override {
        for (auto &x : fr) {
            int ok = read_frame(&f, nm->c(), links ? nm->l() : NULL, links ? nm->p() : NULL, nm->i(), x.first); res.push_back(ok); out.i("read", ok); if (ok) dig_frame(out, &f); else { failed = true; continue; }
            char cb[200], lb[200], pb[200]; snprintf(cb, sizeof cb, "%s", (pre + "out/rt").c_str()); snprintf(lb, sizeof lb, "%s", (pre + "out/ptv").c_str()); snprintf(pb, sizeof pb, "%s", (pre + "out/added").c_str());
            std::vector<std::string> ib; std::vector<char *> ip; for (int c = 0; c < nc; c++) ib.push_back(pre + "out/i" + std::to_string(c) + "."); for (auto &s : ib) ip.push_back(&s[0]);
            ok = write_frame(&f, cb, lb, pb, ip.data(), x.first); out.i("write", ok); if (!ok) failed = true;
        }
    }
    void digest() override { digest_files(pre + "out/"); }
    void release() override { free_frame(&f); }
};
// the window of frames
struct WindowOp : Op {
    Store st; std::map<int, FrameData> fr; int nc, mx = 1, first, len; framebuf fb; std::unique_ptr<Names> nm; std::vector<std::pair<int, int>> steps;
    WindowOp(u64 seed, int size, const std::string &p) {
        pre = p; Rng r(seed); nc = 1 + (int)r.below(4); st = random_store(r, 0, nc, true); st.corres = pre + "rt"; st.linkage = pre + "ptv"; st.prio = pre + "added";
        for (int c = 0; c < nc; c++) st.img[c] = pre + "img" + std::to_string(c) + ".";
        first = (int)r.range(1, 500); int n = 3 + (int)r.below(4); len = 2 + (int)r.below(4);
        for (int k = 0; k < n; k++) { int np = r.chance(0.2) ? 0 : (int)r.below(size ? 40 : 9), nt = (int)r.below(size ? 40 : 9); fr[first + k] = random_frame(mix(seed, k), np, nt, nc, 0); mx = std::max(mx, std::max(np, nt)); for (auto &t : fr[first + k].targets) mx = std::max(mx, (int)t.size()); }
        int m = 4 + (int)r.below(8); for (int k = 0; k < m; k++) steps.push_back({(int)r.below(5), first + (int)r.below(n)});
        nm.reset(new Names(st));
    }
    void files(Disk &d) override { for (auto &x : fr) put_frame(d, st, x.first, x.second, true, true); }
    void setup() override { fb_init(&fb, len, nc, mx + 2, nm->c(), nm->l(), nm->p(), nm->i()); for (int k = 0; k < len; k++) { frame *f = fb.base.buf[k]; f->num_parts = 0; for (int c = 0; c < nc; c++) f->num_targets[c] = 0; } }
    void call() override {
        for (auto &s : steps) switch (s.first) {
            case 0: case 1: { int ok = fb_read_frame_at_end(&fb.base, s.second, s.first); out.i("read", ok); frame *f = fb.base.buf[len - 1]; if (ok) dig_frame(out, f); else { failed = true; f->num_parts = 0; for (int c = 0; c < nc; c++) f->num_targets[c] = 0; } break; }
            case 2: fb_next(&fb.base); break;
            case 3: fb_prev(&fb.base); break;
            case 4: { int ok = fb_write_frame_from_start(&fb.base, s.second); out.i("write", ok); if (!ok) failed = true; break; }
        }
    }
    void digest() override { for (int k = 0; k < len; k++) dig_frame(out, fb.base.buf[k]); digest_files(pre); }
    void release() override { fb_free(&fb.base); }
};
// ---------------------------------------------------------------- matching
struct MatchOp : Op {
    MatchScene s; std::unique_ptr<LibMatch> m; n_tupel *con = nullptr; int counts[4];
    MatchOp(u64 seed, int size, const std::string &p) {
pre = p;
        for (u64 t = 0; !s.ok && t < 50; t++) {
            Plan pl; Rng r(mix(seed, t)); Rig g; int nc = 2 + (int)r.below(4); if (nc > 4) nc = 4; gen_match_rig(r, pl, g, nc);
            int n = 1 + (int)r.below(size ? 16 : 5); for (int k = 0; k < n; k++) pl.put("part", k, r.uni(g.X[0], g.X[1]), r.uni(g.X[0], g.X[1]) * 0.6, r.uni(g.Zmin[0], g.Zmax[0]));
            if (r.chance(0.5)) for (int k = 0; k < 6; k++) pl.put("spur", (int)r.below(nc), r.uni(0, g.imx), r.uni(0, g.imy), (int)r.below(1 << 20));
            s = build_match(pl, seed);
        }
        if (!s.ok) fail("invalid", "scene");
    }
    void vary(Rng &r) override { vary_rig(r, s.rig); for (auto &c : s.dets) for (auto &d : c) if (r.chance(0.2)) d.t.sumg += 1 + (int)r.below(50); }
    void setup() override { m.reset(new LibMatch(s)); for (int &c : counts) c = -5; }
    void dirty(Rng &r) override { for (int &c : counts) c = (int)r.below(100); }
    void call() override { con = correspondences(&m->frm, m->cor, m->vpar, m->cpar, m->L.cal(), counts); failed = !con; if (!con && (counts[0] || counts[1] || counts[2] || counts[3])) fail("counts", "no correspondences were returned, but %d were counted", counts[3]); }
    void digest() override {
        out.i("failed", failed); for (int k = 0; k < 4; k++) if (k != 0 || m->nc >= 0) out.i("count", counts[k]);
        if (con) for (int k = 0; k < counts[3]; k++) { for (int c = 0; c < m->nc; c++) out.i("p", con[k].p[c]); out.d("corr", con[k].corr); }
        for (int c = 0; c < m->nc; c++) for (int k = 0; k < m->frm.num_targets[c]; k++) dig_target(out, "t" + std::to_string(c) + "." + std::to_string(k), m->frm.targets[c][k]);
    }
    void inputs(Dig &o) override {
        for (int c = 0; c < m->nc; c++) { o.i("n", m->frm.num_targets[c]); for (int k = 0; k < m->frm.num_targets[c]; k++) { target t = m->frm.targets[c][k]; t.tnr = 0; dig_target(o, "t", t); o.d("x", m->cor[c][k].x); o.d("y", m->cor[c][k].y); o.i("pnr", m->cor[c][k].pnr); } dig_cal(o, m->L.cals[c]); }
        dig_cpar(o, m->cpar); o.bytes("vpar", m->vpar, sizeof *m->vpar);
    }
    void release() override { sim_free(con); con = nullptr; m->drop(); m.reset(); }
};
struct PositionOp : Op {
    Rig g; std::unique_ptr<LibRig> L; control_par *c = nullptr; std::vector<std::vector<std::pair<double, double>>> t; int dbl; double w;
    PositionOp(u64 seed, int, const std::string &p) {
        pre = p; Rng r(seed); g = random_rig(r, 2 + (int)r.below(3), r.chance(0.3)); L.reset(new LibRig(g)); int n = 2 * (1 + (int)r.below(3)); dbl = 5 + (int)r.below(20); w = r.uni(0, 2);
        for (int k = 0; k < n; k++) { t.push_back({}); V3 P{r.uni(g.X[0], g.X[1]), r.uni(g.X[0], g.X[1]), r.uni(g.Zmin[0], g.Zmax[0])}; for (int j = 0; j < g.nc; j++) { double x = 0, y = 0; project_flat(g, j, P, x, y, true); if (r.chance(0.1)) x = COORD_UNUSED; t.back().push_back({x + r.uni(-0.01, 0.01), y}); if (x == COORD_UNUSED) t.back().back() = {COORD_UNUSED, COORD_UNUSED}; } }
    }
    void vary(Rng &r) override { vary_rig(r, g); L.reset(new LibRig(g)); }
    void setup() override { c = make_cpar(g); }
    void dirty(Rng &r) override { Rig h = g; vary_rig(r, h); put_in(h, *L, c, nullptr); Dig o = out; call(); out = o; put_in(g, *L, c, nullptr); }
    void call() override {
        std::vector<std::vector<double>> v; std::vector<vec2d *> tp; bool all = true;
        for (auto &q : t) { v.push_back({}); for (auto &a : q) { v.back().push_back(a.first); v.back().push_back(a.second); all &= a.first != COORD_UNUSED; } }
        for (auto &q : v) tp.push_back((vec2d *)q.data());
        for (auto q : tp) { int used = 0; for (int j = 0; j < g.nc; j++) used += q[j][0] != COORD_UNUSED; if (used < 2) continue; vec3d res; double d = point_position(q, g.nc, c->mm, L->cal(), res); out.d("dist", d); out.ds("pos", res, 3); }
        if (all) out.d("db", weighted_dumbbell_precision(tp.data(), (int)t.size(), g.nc, c->mm, L->cal(), dbl, w));
    }
    void release() override { free_control_par(c); }
};
// ---------------------------------------------------------------- images
typedef std::vector<unsigned char> Img;
Img random_image(Rng &r, int w, int h, int style) {
    Img m(w * h); int bg = (int)r.below(20), noise = style == 2 ? 250 : 1 + (int)r.below(6);
    for (auto &x : m) x = (unsigned char)std::min(255, bg + (int)r.below(noise));
    if (style != 2) for (int k = 0, n = (int)r.below(8); k < n; k++) {
        double cx = r.uni(0, w), cy = r.uni(0, h), s = r.uni(0.6, 2.5), a = r.uni(60, 300);
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { double v = m[y * w + x] + a * exp(-((x - cx) * (x - cx) + (y - cy) * (y - cy)) / (2 * s * s)); m[y * w + x] = (unsigned char)std::min(255.0, v); }
    }
    if (style != 2 && r.chance(0.25)) for (int k = 1 + (int)r.below(3); k > 0; k--) {   // wide bright areas
        int x0 = (int)r.below(w), y0 = (int)r.below(h), x1 = std::min<int>(w, x0 + 1 + (int)r.below(w)), y1 = std::min<int>(h, y0 + 1 + (int)r.below(h)), v = 60 + (int)r.below(190), ramp = (int)r.below(3);
        for (int y = y0; y < y1; y++) for (int x = x0; x < x1; x++) m[y * w + x] = (unsigned char)std::min(255, v + ramp * (x - x0));
    }
    return m;
}
struct ImageOp : Op {
    int w, h, what, span, hp, half; Rig g; control_par *c = nullptr; Img a, b, dst; std::string ff; filter_t filt; std::string ftext; int ok = 1;
    ImageOp(u64 seed, int size, const std::string &p, bool prep) {
        pre = p; Rng r(seed); w = 5 + (int)r.below(size ? 40 : 12); h = 5 + (int)r.below(size ? 40 : 12); a = random_image(r, w, h, (int)r.below(3)); b = random_image(r, w, h, (int)r.below(3)); dst.assign(w * h, 0);
        what = prep ? 0 : 1 + (int)r.below(7); int m = std::min(w, h); span = (int)r.below((m - 1) / 2 + 1); hp = (int)r.below(3); half = (int)r.below(3); ff = pre + "filter.par";
        for (auto &row : filt) for (double &x : row) x = r.chance(0.3) ? 0 : r.uni(0, 8); filt[1][1] = r.uni(0.5, 8);
        for (auto &row : filt) { for (double &x : row) ftext += fmt_d(x) + " "; ftext += "\n"; }
        g.nc = 1; g.imx = w; g.imy = h; g.chf = prep && r.chance(0.4) ? 1 + (int)r.below(2) : 0;
    }
    void files(Disk &d) override { d.files[ff] = ftext; }
    void vary(Rng &r) override { for (int k = 0; k < 6; k++) a[r.below(a.size())] ^= (unsigned char)(1 + r.below(255)); if (r.chance(0.5)) hp = (int)r.below(3); if (r.chance(0.3)) span = (int)r.below(span + 1); }
    void setup() override { c = make_cpar(g); }
    void dirty(Rng &r) override { garbage(r, dst.data(), dst.size()); }
    void call() override {
        switch (what) {
        case 0: ok = prepare_image(a.data(), dst.data(), span, hp, &ff[0], c); failed = !ok; break;
        case 1: ok = filter_3(a.data(), dst.data(), filt, c); break;
        case 2: lowpass_3(a.data(), dst.data(), c); break;
        case 3: ok = fast_box_blur(span, a.data(), dst.data(), c); failed = !ok; break;
        case 4: split(a.data(), half, c); dst = a; break;
        case 5: subtract_img(a.data(), b.data(), dst.data(), c); break;
        case 6: subtract_mask(a.data(), b.data(), dst.data(), c); break;
        case 7: copy_images(a.data(), dst.data(), c); break;
        }
    }
    void digest() override {
        out.i("ok", ok); if (!ok) return; Img d = dst;
        if (what == 1 || what == 2) for (int k = 0; k < w * h; k++) if (k <= w || k >= w * h - w - 1) d[k] = 0;   // not part of the result
        for (int y = 0; y < h; y++) out.bytes("row" + std::to_string(y), &d[y * w], w);
    }
    void inputs(Dig &o) override { if (what != 4) o.bytes("a", a.data(), a.size()); o.bytes("b", b.data(), b.size()); dig_cpar(o, c); }
    void release() override { free_control_par(c); }
};
struct SegmentOp : Op {
    int w, h, cam, n = 0; bool peakfit; Rig g; control_par *c = nullptr; target_par t; Img a; std::vector<target> pix; int x0, x1, y0, y1;
    SegmentOp(u64 seed, int size, const std::string &p) {
        pre = p; Rng r(seed); w = 8 + (int)r.below(size ? 60 : 16); h = 8 + (int)r.below(size ? 60 : 16); a = random_image(r, w, h, (int)r.below(3)); peakfit = r.chance(0.5); cam = (int)r.below(4); pix.resize(w * h + 2);
        memset(&t, 0, sizeof t); memset(pix.data(), 0, pix.size() * sizeof(target)); t.discont = (int)r.below(120); for (int &x : t.gvthres) x = (int)r.below(80); t.nnmin = (int)r.below(5); t.nnmax = 500; t.nxmin = (int)r.below(3); t.nxmax = 50; t.nymin = (int)r.below(3); t.nymax = 50; t.sumg_min = (int)r.below(200); if (r.chance(0.5)) { t.nnmax = 1 + (int)r.below(r.chance(0.5) ? 40 : 4000); t.nxmax = 1 + (int)r.below(60); t.nymax = 1 + (int)r.below(60); }
        x0 = y0 = 0; x1 = w; y1 = h; if (r.chance(0.4)) { x0 = (int)r.below(w / 2); x1 = w - (int)r.below(w / 3); y0 = (int)r.below(h / 2); y1 = h - (int)r.below(h / 3); }
        if (size && r.chance(0.02)) {   // a very busy image
            w = 120 + (int)r.below(50); h = 120 + (int)r.below(50); x0 = y0 = 0; x1 = w; y1 = h; a.assign(w * h, 0); pix.assign(w * h + 2, target()); for (int y = (int)r.below(2); y < h; y += 2) for (int x = (int)r.below(2); x < w; x += 2) a[y * w + x] = 100 + r.below(100);
        }
        g.nc = 1; g.imx = w; g.imy = h;
    }
    void vary(Rng &r) override { for (int k = 0; k < 6; k++) a[r.below(a.size())] ^= (unsigned char)(1 + r.below(255)); if (r.chance(0.5)) t.gvthres[r.below(4)] = (int)r.below(80); if (r.chance(0.3)) t.discont = (int)r.below(120); }
    void setup() override { c = make_cpar(g); }
    void dirty(Rng &r) override { for (auto &x : pix) dirty_target(r, x); }
    void call() override { n = peakfit ? peak_fit(a.data(), &t, x0, x1, y0, y1, c, cam, pix.data()) : targ_rec(a.data(), &t, x0, x1, y0, y1, c, cam, pix.data()); }
    void digest() override { out.i("n", n); for (int k = 0; k < n && k < (int)pix.size(); k++) dig_target(out, std::to_string(k), pix[k]); }
    void inputs(Dig &o) override { o.bytes("a", a.data(), a.size()); o.bytes("t", &t, sizeof t); }
    void release() override { free_control_par(c); }
};
// ---------------------------------------------------------------- calibration
struct OrientOp : Op {
    Rig g; Calibration k; control_par *c = nullptr; std::vector<target> pix; std::vector<double> fix; int nf, what; orient_par fl; double sb[20], *res = nullptr; int conv = 0; target *sorted = nullptr; int eps; std::vector<target> det;
    OrientOp(u64 seed, int size, const std::string &p) {
        pre = p; Rng r(seed); g = random_rig(r, 1, false); what = (int)r.below(3); nf = what == 1 ? 4 : 6 + (int)r.below(size ? 30 : 6); eps = 3 + (int)r.below(20);
        fix.resize(3 * nf); pix.resize(nf); memset(pix.data(), 0, nf * sizeof(target)); memset(sb, 0, sizeof sb); memset(&fl, 0, sizeof fl);
        for (int i = 0; i < nf; i++) {
            V3 P{r.uni(g.X[0], g.X[1]) * 0.8, r.uni(g.X[0], g.X[1]) * 0.5, r.uni(g.Zmin[0], g.Zmax[0])}; fix[3 * i] = P.x; fix[3 * i + 1] = P.y; fix[3 * i + 2] = P.z; double x = 0, y = 0; project(g, 0, P, x, y, true);
            pix[i].pnr = i; pix[i].x = x + r.uni(-0.1, 0.1); pix[i].y = y + r.uni(-0.1, 0.1); pix[i].n = 9; pix[i].nx = pix[i].ny = 3; pix[i].sumg = 500 + i; pix[i].tnr = -1; if (what == 0 && i > 5 && r.chance(0.1)) pix[i].pnr = -999;
        }
        det = pix; for (int i = nf - 1; i > 0; i--) std::swap(det[i], det[r.below(i + 1)]); if (r.chance(0.5)) det.pop_back();
        fl.ccflag = r.chance(0.3); fl.xhflag = fl.yhflag = r.chance(0.2); fl.k1flag = r.chance(0.2); fl.scxflag = r.chance(0.1); fl.sheflag = r.chance(0.1); if (!g.air()) fl.interfflag = r.chance(0.2); if (r.chance(0.2)) fl.useflag = (int)r.below(4);
        fill_cal(k, g.cam[0]); k.ext_par.x0 += r.uni(-1, 1); k.ext_par.y0 += r.uni(-1, 1); k.ext_par.z0 += r.uni(-1, 1); k.ext_par.omega += r.uni(-0.01, 0.01); k.ext_par.phi += r.uni(-0.01, 0.01); k.ext_par.kappa += r.uni(-0.01, 0.01);
    }
    void vary(Rng &r) override { vary_rig(r, g); k.ext_par.x0 += r.uni(-0.3, 0.3); k.int_par.cc = g.cam[0].cc; if (r.chance(0.5)) fix[r.below(fix.size())] += r.uni(-0.1, 0.1); }
    void setup() override { c = make_cpar(g); }
    void dirty(Rng &r) override { for (double &x : sb) x = r.uni(0, 9); }
    void call() override {
        vec3d *f = (vec3d *)fix.data();
        if (what == 0) { rotation_matrix(&k.ext_par); res = orient(&k, c, nf, f, pix.data(), &fl, sb); failed = !res; }
        else if (what == 1) { conv = raw_orient(&k, c, nf, f, pix.data()); }
        else { rotation_matrix(&k.ext_par); sorted = sortgrid(&k, c, nf, f, (int)det.size(), eps, det.data()); }
    }
    void digest() override {
        if (what == 0) { out.i("res", res != NULL); if (res) { out.ds("r", res, 2 * nf); out.ds("sb", sb, 19); } dig_cal(out, k); }
        else if (what == 1) { out.i("conv", conv); dig_cal(out, k); }
        else for (int i = 0; i < nf; i++) { out.i("pnr", sorted[i].pnr); if (sorted[i].pnr != -999) dig_target(out, "s" + std::to_string(i), sorted[i]); }
    }
    void inputs(Dig &o) override { for (auto &t : what == 2 ? det : pix) dig_target(o, "t", t); o.ds("fix", fix.data(), 3 * nf); }
    void release() override { sim_free(res); sim_free(sorted); res = nullptr; sorted = nullptr; free_control_par(c); }
};
// projection, look-up tables, epipolar lines, conversions
struct OpticsOp : Op {
    Rig g; std::unique_ptr<LibRig> L; control_par *c = nullptr; volume_par *v = nullptr; bool lut; u64 ps;
    OpticsOp(u64 seed, int size, const std::string &p) { pre = p; Rng r(seed); g = random_rig(r, 2 + (int)r.below(2), r.chance(0.5)); lut = size > 0 && r.chance(0.5); L.reset(new LibRig(g)); ps = r.next(); if (lut) { double m = 3; g.X[0] = -m; g.X[1] = m; g.Zmin[0] = g.Zmin[1] = -m; g.Zmax[0] = g.Zmax[1] = m; } }
    void setup() override { c = make_cpar(g); v = make_vpar(g); }
    void vary(Rng &r) override { vary_rig(r, g); L.reset(new LibRig(g)); }
    void dirty(Rng &r) override { Rig h = g; vary_rig(r, h); put_in(h, *L, c, v); Dig o = out; call(); out = o; put_in(g, *L, c, v); if (lut) { volume_par w = *v; double m = r.uni(1, 4); for (int k = 0; k < 2; k++) { w.X_lay[k] = k ? m : -m; w.Zmin_lay[k] = -m; w.Zmax_lay[k] = m; } init_mmlut(&w, c, &L->cals[0]); } }
    void call() override {
        Rng r(ps); if (lut) init_mmlut(v, c, &L->cals[0]);
        double e[6] = {1e9, -1e9, 0, 0, 1e9, -1e9}; e[0] = v->X_lay[1]; e[1] = v->X_lay[0]; e[4] = v->Zmax_lay[1]; e[5] = v->Zmin_lay[0]; volumedimension(&e[0], &e[1], &e[2], &e[3], &e[4], &e[5], v, c, L->cal()); out.ds("vol", e, 6);
        for (int k = 0; k < 4; k++) {
            vec3d q = {r.uni(g.X[0], g.X[1]), r.uni(g.X[0], g.X[1]) * 0.5, r.uni(g.Zmin[0], g.Zmax[0])}; double x, y, X, Y; img_coord(q, L->cal()[0], c->mm, &x, &y); out.d("ix", x); out.d("iy", y);
            multimed_nlay(L->cal()[0], c->mm, q, &X, &Y); out.d("X", X); out.d("Y", Y);
            metric_to_pixel(&X, &Y, x, y, c); out.d("px", X); out.d("py", Y); if (k == 3) { x = L->cals[0].int_par.xh; y = L->cals[0].int_par.yh; }
            double fx, fy; dist_to_flat(x, y, L->cal()[0], &fx, &fy, 1e-8); out.d("fx", fx); out.d("fy", fy); double dx, dy; flat_to_dist(fx, fy, L->cal()[0], &dx, &dy); out.d("dx", dx); out.d("dy", dy);
            vec3d o, a; ray_tracing(fx, fy, L->cal()[0], *c->mm, o, a); out.ds("o", o, 3); out.ds("a", a, 3);
            double b[4]; epi_mm(fx, fy, L->cal()[0], L->cal()[1], c->mm, v, &b[0], &b[1], &b[2], &b[3]); out.ds("epi", b, 4); epi_mm_2D(fx, fy, L->cal()[0], c->mm, v, o); out.ds("e2", o, 3);
            vec2d px; point_to_pixel(px, q, L->cal()[1], c); out.ds("pp", px, 2);
        }
        if (lut) { out.i("nr", L->cals[0].mmlut.nr); out.i("nz", L->cals[0].mmlut.nz); out.ds("lut", L->cals[0].mmlut.data, L->cals[0].mmlut.nr * L->cals[0].mmlut.nz); }
    }
    void release() override { free_control_par(c); sim_free(v); L->drop_tables(); }
};
// ---------------------------------------------------------------- tracking
struct TrackOp : Op {
    TrackScene s; std::unique_ptr<LibTrack> T; bool back, legacy = false, twice = false; Plan pl;
    TrackOp(u64 seed, int size, const std::string &p) {
        pre = p; Rng r(seed); TrackGen g = random_track_gen(r, 0); g.frames = 2 + (int)r.below(5); g.parts = 1 + (int)r.below(size ? 7 : 3); if (g.nc > 2 && r.chance(size ? 0.3 : 0.8)) g.nc = 2; g.outside = 0; gen_track(r, pl, g); s = build_track(pl); if (!s.ok) fail("invalid", "scene"); back = r.chance(0.5);
        s.st.corres = pre + s.st.corres; s.st.linkage = pre + s.st.linkage; s.st.prio = pre + s.st.prio; for (auto &i : s.st.img) i = pre + i;
    }
    void files(Disk &d) override { for (auto i = d.files.lower_bound(pre); i != d.files.end() && i->first.compare(0, pre.size(), pre) == 0;) i = d.files.erase(i); s.put(d); }
    void vary(Rng &r) override { vary_rig(r, s.rig); if (r.chance(0.3)) s.tp.dacc *= 1.2; for (auto &f : s.frames) if (r.chance(0.3) && !f.second.targets.empty()) for (auto &t : f.second.targets[0]) t.x += 0.25; }
    void setup() override { T.reset(new LibTrack(s)); }
    // the same run object has tracked before, the same frames or others
    void dirty(Rng &r) override {
        if (r.chance(0.6)) {
            TrackScene other = s; std::vector<int> no; for (auto &f : s.frames) no.push_back(f.first);
            for (auto &f : other.frames) { int from = r.chance(0.2) ? f.first : no[r.below(no.size())]; f.second = s.frames[from]; }
            int gone = r.chance(0.3) ? (int)r.below(no.size()) : -1;
            files(S->disk); other.put(S->disk); if (gone >= 0) S->disk.files.erase(s.st.corres + "." + std::to_string(no[gone]));
        }
        T->forward(); if (back || r.chance(0.3)) T->backward(); files(S->disk);
    }
    void call() override { T->forward(); out.i("npart", T->tr->npart); out.i("nlinks", T->tr->nlinks); if (back) out.d("back", T->backward_result()); }
    void digest() override { digest_files(pre); }
    void release() override { T->drop(); T.reset(); }
};
// a tracking run made from settings files
struct LegacyOp : Op {
    Rig g; std::vector<std::string> names, texts; std::unique_ptr<LibRig> L; tracking_run *tr = nullptr;
    LegacyOp(u64 seed, const std::string &p) {
        pre = p; Rng r(seed); g = random_rig(r, 1 + (int)r.below(2), false); L.reset(new LibRig(g)); auto num = [&](double d) { return fmt_d(d) + "\n"; };
        std::string seq, tp, vol, cp; for (int c = 0; c < g.nc; c++) seq += pre + "img" + std::to_string(c) + "\n"; seq += "1\n9\n"; for (int k = 0; k < 3; k++) tp += num(-1) + num(1); tp += num(100) + num(1) + "0\n";
        for (int k = 0; k < 2; k++) vol += num(g.X[k]) + num(g.Zmin[k]) + num(g.Zmax[k]); for (int k = 0; k < 6; k++) vol += num(0.1);
        cp = std::to_string(g.nc) + "\n"; for (int c = 0; c < g.nc; c++) cp += "img\ncal\n"; cp += "1\n0\n1\n" + std::to_string(g.imx) + "\n" + std::to_string(g.imy) + "\n" + num(g.px) + num(g.py) + "0\n" + num(g.n1) + num(g.n2) + num(g.n3) + num(g.d);
        names = {pre + "seq.par", pre + "track.par", pre + "vol.par", pre + "control.par"}; texts = {seq, tp, vol, cp};
    }
    void files(Disk &d) override { for (int k = 0; k < 4; k++) d.files[names[k]] = texts[k]; }
    void call() override { tr = tr_new_legacy(&names[0][0], &names[1][0], &names[2][0], &names[3][0], L->cal()); failed = !tr; }
    void digest() override { out.i("failed", failed); if (!tr) return; out.d("lmax", tr->lmax); out.d("ymin", tr->ymin); out.d("ymax", tr->ymax); dig_cpar(out, tr->cpar); out.i("first", tr->seq_par->first); out.i("npart", tr->npart); }
    void release() override { if (tr) { tr_free(tr); sim_free(tr); tr = nullptr; } L->drop_tables(); }
};
}
std::unique_ptr<Op> make_op(const std::string &k, u64 seed, int size, const std::string &pre) {
    Op *o = nullptr;
    if (k == "settings") o = new SettingsOp(seed, pre); else if (k == "save") o = new SaveOp(seed, pre); else if (k == "frame") o = new FrameOp(seed, size, pre); else if (k == "window") o = new WindowOp(seed, size, pre);
    else if (k == "match") o = new MatchOp(seed, size, pre); else if (k == "position") o = new PositionOp(seed, size, pre); else if (k == "prepare") o = new ImageOp(seed, size, pre, true); else if (k == "image") o = new ImageOp(seed, size, pre, false);
    else if (k == "segment") o = new SegmentOp(seed, size, pre); else if (k == "orient") o = new OrientOp(seed, size, pre); else if (k == "optics") o = new OpticsOp(seed, size, pre); else if (k == "track") o = new TrackOp(seed, size, pre); else if (k == "legacy") o = new LegacyOp(seed, pre);
    else fail("invalid", "operation %s", k.c_str());
    o->kind = k; return std::unique_ptr<Op>(o);
}
const std::vector<std::string> &op_kinds() { static const std::vector<std::string> v = {"settings", "save", "frame", "window", "match", "position", "prepare", "image", "segment", "orient", "optics", "track"}; return v; }
bool op_has_io(const std::string &k) { return k == "settings" || k == "save" || k == "frame" || k == "window" || k == "prepare" || k == "track" || k == "legacy"; }
bool op_survives_oom(const std::string &k) { return k == "match" || k == "prepare" || k == "image"; }
