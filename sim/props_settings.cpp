// C04 settings are loaded whole or not at all, C05 saved calibrations and detection settings load back.
#include "lib.h"
#include "world.h"
#include <cerrno>
#include <memory>

static void put_env(Plan &p, Rng &r) {
    int chunk = r.chance(0.4) ? 0 : (int)r.range(1, r.chance(0.5) ? 7 : 300);
    p.put("env", (i64)(r.next() % 1000000), (i64)(r.next() % 1000000), chunk, (int)r.below(3));
}
// ---------------------------------------------------------------- kinds of settings
// A kind says what the file holds (i: integer, d: real, w: word) and reads it with the library.
struct Val { char type; double d; std::string w; };
typedef std::vector<Val> Vals;
static Val I(int v) { return {'i', (double)v, ""}; }
static Val D(double v) { return {'d', v, ""}; }
static Val W(const std::string &w) { return {'w', 0, w}; }
static std::string num(Rng &r, double v) {
    char b[80]; const char *f[] = {"%.3f", "%.8f", "%g", "%.17g", "%10.4f", "%e"};
    snprintf(b, sizeof b, f[r.below(6)], v); std::string s = b; size_t k = s.find_first_not_of(' '); return s.substr(k);
}
static const char *KINDS[] = {"sequence", "track", "volume", "control", "target", "orient", "sortgrid", "calblock", "manori", "cal"};
static std::string word(Rng &r) {
    std::string s = "img/"; int n = (int)r.range(1, r.chance(0.05) ? 200 : 30);
    for (int k = 0; k < n; k++) s += "abcdefghijklmnop%d_.0123456789"[r.below(30)];
    return s;
}
static std::string spaced(Rng &r, const std::vector<std::string> &t, bool perline) {
    std::string s; int style = (int)r.below(4);
    for (size_t k = 0; k < t.size(); k++) {
        if (style == 1) s += std::string(r.below(4), ' ');
        s += t[k];
        bool last = k + 1 == t.size();
        if (last && style == 2) break;    // no newline at the end
        s += perline || r.chance(0.3) || last ? (style == 3 ? "\r\n" : "\n") : " ";
    }
    return s;
}
// files[0] is the main one
void make_files(const std::string &kind, u64 seed, int ncams, std::vector<std::string> &names, std::vector<std::string> &texts) {
    Rng r(mix(seed, 21)); std::vector<std::string> t;
    auto in = [&](i64 a, i64 b) { t.push_back(std::to_string(r.range(a, b))); };
    auto re = [&](double a, double b) { double z = r.uni(); t.push_back(num(r, z < 0.06 ? 0 : z < 0.09 ? 1 : r.uni(a, b))); };
    names = {"par/" + kind + ".par"}; bool perline = true;
    if (kind == "sequence") { for (int c = 0; c < ncams; c++) t.push_back(word(r)); in(1, 20000); in(20000, 40000); }
    else if (kind == "track") { for (int k = 0; k < 8; k++) re(-100, 100); in(0, 1); }
    else if (kind == "volume") { for (int k = 0; k < 12; k++) re(-100, 100); }
    else if (kind == "control") {
        t.push_back(std::to_string(ncams)); for (int c = 0; c < 2 * ncams; c++) t.push_back(word(r));
        in(0, 1); in(0, 1); in(0, 1); in(10, 5000); in(10, 5000); re(0.001, 0.1); re(0.001, 0.1); in(0, 2); re(1, 2); re(1, 2); re(1, 2); re(0, 20);
    } else if (kind == "target") { for (int k = 0; k < 13; k++) in(0, 30000); }
    else if (kind == "orient") { for (int k = 0; k < 12; k++) in(0, 1); }
    else if (kind == "sortgrid") { in(1, 3000); }
    else if (kind == "calblock") { perline = false; int n = (int)r.range(1, 40); for (int k = 0; k < n; k++) { t.push_back(std::to_string(k + 1)); for (int j = 0; j < 3; j++) re(-200, 200); } }
    else if (kind == "manori") {
        int np = (int)r.range(4, 30); std::vector<std::string> b;
        for (int k = 0; k < np; k++) { b.push_back(std::to_string(k + 1)); for (int j = 0; j < 3; j++) b.push_back(num(r, r.uni(-200, 200))); }
        for (int c = 0; c < ncams; c++) { std::vector<int> q; while (q.size() < 4) { int x = (int)r.range(1, np); bool dup = false; for (int y : q) dup |= x == y; if (!dup) q.push_back(x); } for (int x : q) t.push_back(std::to_string(x)); }
        names.push_back("par/calblock.txt"); texts = {spaced(r, t, false), spaced(r, b, false)}; return;
    } else if (kind == "cal") {
        for (int k = 0; k < 6; k++) re(-100, 100); for (int k = 0; k < 9; k++) re(-1, 1); re(-1, 1); re(-1, 1); re(10, 200); for (int k = 0; k < 3; k++) re(-50, 50);
        std::vector<std::string> a, f; for (int k = 0; k < 7; k++) { a.push_back(num(r, r.uni(-0.1, 0.1))); f.push_back(num(r, r.uni(-0.1, 0.1))); }
        names = {"cal/c.ori", "cal/c.addpar", "cal/fallback.addpar"};
        texts = {spaced(r, t, false), spaced(r, a, false), spaced(r, f, false)}; return;
    }
    texts = {spaced(r, t, perline)};
}
// needed number and types of the values of one file; variable: any positive multiple of the pattern
static std::string types_of(const std::string &kind, int file, int ncams, int cam) {
    auto rep = [](const std::string &s, int n) { std::string r; while (n-- > 0) r += s; return r; };
    if (file >= 1) return kind == "cal" ? rep("d", 7) : "iddd*";
    if (kind == "sequence") return rep("w", ncams) + "ii";
    if (kind == "track") return rep("d", 8) + "i";
    if (kind == "volume") return rep("d", 12);
    if (kind == "control") return "i" + rep("w", 2 * ncams) + "iiiiiddidddd";
    if (kind == "target") return rep("i", 13);
    if (kind == "orient") return rep("i", 12);
    if (kind == "sortgrid") return "i";
    if (kind == "calblock") return "iddd*";
    if (kind == "manori") return rep("iiii", cam + 1);
    return rep("d", 21);   // cal
}
// Do the tokens hold all the values?
// A cut inside the very last value ("-1.5e") may leave something that still reads as a number.
static bool complete(const std::string &text, const std::string &types, Vals &out) {
    auto t = tokens(text); out.clear(); bool var = types.back() == '*'; std::string ty = types;
    if (var) { ty.pop_back(); if (t.empty() || t.size() % ty.size()) return false; std::string one = ty; ty.clear(); for (size_t k = 0; k < t.size() / one.size(); k++) ty += one; }
    if (t.size() < ty.size()) return false;
    for (size_t k = 0; k < ty.size(); k++) {
        int i; double d;
        if (ty[k] == 'i') { if (!tok_int(t[k], i)) return false; out.push_back(I(i)); }
        else if (ty[k] == 'd') {
            if (!tok_double(t[k], d)) { char *e; strtod(t[k].c_str(), &e); if (k + 1 != t.size() || e == t[k].c_str()) return false; d = NAN; }
            out.push_back(D(d));
        }
        else out.push_back(W(t[k]));
    }
    return true;
}
struct Loaded { bool ok = false; Vals v; std::function<void()> release = [] {}; bool defaults = false; std::string extra; std::function<int(const Loaded &)> same; void *obj = 0; };
static Loaded load(const std::string &kind, std::vector<std::string> &names, int ncams, int cam, bool fallback, bool raw) {
    Loaded L; char *f = &names[0][0];
    if (kind == "sequence") {
        sequence_par *q = 0; lib([&] { q = read_sequence_par(f, ncams); });
        if (q) { L.ok = true; if (q->num_cams != ncams) L.extra = "number of cameras"; for (int c = 0; c < ncams; c++) L.v.push_back(W(q->img_base_name[c])); L.v.push_back(I(q->first)); L.v.push_back(I(q->last)); L.obj = q; L.same = [q](const Loaded &b) { int e = 0; lib([&] { e = compare_sequence_par(q, (sequence_par *)b.obj); }); return e; }; L.release = [q] { lib([&] { free_sequence_par(q); }); }; }
    } else if (kind == "track") {
        track_par *q = 0; lib([&] { q = read_track_par(f); });
        if (q) { L.ok = true; for (double d : {q->dvxmin, q->dvxmax, q->dvymin, q->dvymax, q->dvzmin, q->dvzmax, q->dangle, q->dacc}) L.v.push_back(D(d)); L.v.push_back(I(q->add));
            if (q->dsumg || q->dn || q->dnx || q->dny) L.extra = "settings that are not stored are not zero"; L.obj = q; L.same = [q](const Loaded &b) { int e = 0; lib([&] { e = compare_track_par(q, (track_par *)b.obj); }); return e; }; L.release = [q] { sim_free(q); }; }
    } else if (kind == "volume") {
        volume_par *q = 0; lib([&] { q = read_volume_par(f); });
        if (q) { L.ok = true; for (double d : {q->X_lay[0], q->Zmin_lay[0], q->Zmax_lay[0], q->X_lay[1], q->Zmin_lay[1], q->Zmax_lay[1], q->cnx, q->cny, q->cn, q->csumg, q->corrmin, q->eps0}) L.v.push_back(D(d)); L.obj = q; L.same = [q](const Loaded &b) { int e = 0; lib([&] { e = compare_volume_par(q, (volume_par *)b.obj); }); return e; }; L.release = [q] { sim_free(q); }; }
    } else if (kind == "control") {
        control_par *q = 0; lib([&] { q = read_control_par(f); });
        if (q) {
            L.ok = true; L.v.push_back(I(q->num_cams)); for (int c = 0; c < q->num_cams; c++) { L.v.push_back(W(q->img_base_name[c])); L.v.push_back(W(q->cal_img_base_name[c])); }
            for (int i : {q->hp_flag, q->allCam_flag, q->tiff_flag, q->imx, q->imy}) L.v.push_back(I(i)); L.v.push_back(D(q->pix_x)); L.v.push_back(D(q->pix_y)); L.v.push_back(I(q->chfield));
            for (double d : {q->mm->n1, q->mm->n2[0], q->mm->n3, q->mm->d[0]}) L.v.push_back(D(d)); if (q->mm->nlay != 1) L.extra = "number of layers"; L.obj = q; L.same = [q](const Loaded &b) { int e = 0; lib([&] { e = compare_control_par(q, (control_par *)b.obj); }); return e; }; L.release = [q] { lib([&] { free_control_par(q); }); };
        }
    } else if (kind == "target") {
        target_par *q = 0; lib([&] { q = read_target_par(f); });
        if (q) { L.ok = true; for (int i : {q->gvthres[0], q->gvthres[1], q->gvthres[2], q->gvthres[3], q->discont, q->nnmin, q->nnmax, q->nxmin, q->nxmax, q->nymin, q->nymax, q->sumg_min, q->cr_sz}) L.v.push_back(I(i)); L.obj = q; L.same = [q](const Loaded &b) { int e = 0; lib([&] { e = compare_target_par(q, (target_par *)b.obj); }); return e; }; L.release = [q] { sim_free(q); }; }
    } else if (kind == "orient") {
        orient_par *q = 0; lib([&] { q = read_orient_par(f); });
        if (q) { L.ok = true; for (unsigned i : {q->useflag, q->ccflag, q->xhflag, q->yhflag, q->k1flag, q->k2flag, q->k3flag, q->p1flag, q->p2flag, q->scxflag, q->sheflag, q->interfflag}) L.v.push_back(I((int)i)); L.release = [q] { sim_free(q); }; }
    } else if (kind == "sortgrid") {
        int e = 0; lib([&] { e = read_sortgrid_par(f); }); if (e) { L.ok = true; L.v.push_back(I(e)); }
    } else if (kind == "calblock") {
        vec3d *q = 0; int n = -7; lib([&] { q = read_calblock(&n, f); });
        if (q) { L.ok = true; for (int k = 0; k < n; k++) { L.v.push_back(I(0)); for (int j = 0; j < 3; j++) L.v.push_back(D(q[k][j])); } L.release = [q] { sim_free(q); }; }
        else if (n != 0) L.extra = "number of points of a block that was not read";
    } else if (kind == "manori") {
        vec3d fix[4]; int n = 0; memset(fix, 0x5a, sizeof fix); lib([&] { n = read_man_ori_fix(fix, &names[1][0], f, cam); });
        if (n == 4) { L.ok = true; for (auto &x : fix) for (double d : x) L.v.push_back(D(d)); }
    } else {
        if (raw) {
            Exterior ex; Interior in; Glass g; ap_52 ap; int ok = 0; memset(&ex, 0x5a, sizeof ex); memset(&ap, 0x5a, sizeof ap); memset(&g, 0x5a, sizeof g); memset(&in, 0x5a, sizeof in);
            lib([&] { ok = read_ori(&ex, &in, &g, f, &ap, &names[1][0], fallback ? &names[2][0] : NULL); });
            if (ok) { L.ok = true; for (double d : {ex.x0, ex.y0, ex.z0, ex.omega, ex.phi, ex.kappa}) L.v.push_back(D(d)); for (auto &row : ex.dm) for (double d : row) L.v.push_back(D(d)); for (double d : {in.xh, in.yh, in.cc, g.vec_x, g.vec_y, g.vec_z, ap.k1, ap.k2, ap.k3, ap.p1, ap.p2, ap.scx, ap.she}) L.v.push_back(D(d)); }
        } else {
            Calibration *q = 0; lib([&] { q = read_calibration(f, &names[1][0], fallback ? &names[2][0] : NULL); });
            if (q) {
                L.ok = true; Exterior &ex = q->ext_par; for (double d : {ex.x0, ex.y0, ex.z0, ex.omega, ex.phi, ex.kappa}) L.v.push_back(D(d));
                for (int k = 0; k < 9; k++) L.v.push_back(D(NAN));   // computed, see C05
                for (double d : {q->int_par.xh, q->int_par.yh, q->int_par.cc, q->glass_par.vec_x, q->glass_par.vec_y, q->glass_par.vec_z, q->added_par.k1, q->added_par.k2, q->added_par.k3, q->added_par.p1, q->added_par.p2, q->added_par.scx, q->added_par.she}) L.v.push_back(D(d));
                if (q->mmlut.data) L.extra = "the look-up table is not empty"; L.obj = q; L.same = [q](const Loaded &b) { int e = 0; lib([&] { e = compare_calib(q, (Calibration *)b.obj); }); return e; }; L.release = [q] { sim_free(q); };
            }
        }
    }
    return L;
}
static void compare(const std::string &kind, const Vals &want, const Loaded &L) {
    if (!L.extra.empty()) fail("wrong-value", "%s settings: %s", kind.c_str(), L.extra.c_str());
    if (want.size() != L.v.size()) fail("wrong-value", "%s settings: %zu values instead of %zu", kind.c_str(), L.v.size(), want.size());
    for (size_t k = 0; k < want.size(); k++) {
        const Val &a = want[k], &b = L.v[k];
        if (kind == "calblock" && k % 4 == 0) continue;   // the point's number is not kept
        if (b.type == 'd' && (std::isnan(b.d) || std::isnan(a.d))) continue;
        if (a.type == 'w' ? a.w != b.w : !(a.d == b.d)) fail("wrong-value", "%s settings: value %zu is %s%.17g instead of %s%.17g", kind.c_str(), k + 1, b.w.c_str(), b.d, a.w.c_str(), a.d);
    }
}
// A second object, loaded from the same files after one of their values changed: equal exactly when all values are.
static void vary(const Line &l, const std::string &kind, std::vector<std::string> &names, int ncams, int cam, bool fallback, bool raw, const Loaded &L) {
    auto before = S->disk.files; bool add = kind == "cal" && l.i(1) % 3 == 0 && S->disk.has(names[1]);
    std::string &t = S->disk.files[names[add]]; auto tok = tokens(t); bool control = kind == "control";
    if (l.i(2) && !(control && l.i(1) % tok.size() == 0)) {
        std::string &x = tok[l.i(1) % tok.size()]; int i; double d;
        if (tok_int(x, i)) x = std::to_string(i + 1); else if (tok_double(x, d)) { char b[40]; snprintf(b, sizeof b, "%.17g", l.i(2) == 1 ? -d : l.i(2) == 2 ? nextafter(d, 1e9) : d + 0.001); x = b; } else if (l.i(2) == 1) x += "0"; else x[x.size() - 1] ^= 1;
        t.clear(); for (auto &y : tok) t += y + "\n";
    }
    Loaded M = load(kind, names, ncams, cam, fallback, raw);
    if (M.ok && M.obj) {
        bool eq = L.v.size() == M.v.size(); size_t at = 0;
        for (size_t k = 0; eq && k < L.v.size(); k++) { const Val &a = L.v[k], &b = M.v[k]; if (a.type == 'w' ? a.w != b.w : !(a.d == b.d) && !(std::isnan(a.d) && std::isnan(b.d))) { eq = false; at = k; } }
        int got = L.same(M), back = M.same(L);
        if (!!got != eq || !!back != eq) { M.release(); fail("comparison", "%s settings: two objects that %s compare as %s", kind.c_str(), eq ? "hold the same values" : ("differ in value " + std::to_string(at + 1)).c_str(), got ? "equal" : "different"); }
    }
    M.release(); S->disk.files = before;
}
static void gen_c04(u64 seed, int tier, Plan &p) {
    Rng r(seed); put_env(p, r); int nt = (int)r.range(4, tier ? 40 : 24);
    for (int k = 0; k < nt; k++) {
        if (k && r.chance(0.5)) p.put("vary", (i64)r.below(100), (int)r.below(4));
        p.put("trial", std::string(KINDS[r.below(10)]), (i64)(r.next() % 10000000), (int)r.range(1, 4), (int)r.below(4), r.chance(0.6), r.chance(0.5), (i64)(r.next() % 1000000));
        int nd = r.chance(0.1) ? 0 : r.chance(0.9) ? 1 : 2;
        for (int q = 0; q < nd; q++) {
            double u = r.uni(); int file = r.chance(0.6) ? 0 : (int)r.below(3); int pm = r.chance(0.25) ? 1000 - (int)r.below(30) : (int)r.below(1000);
            if (u < 0.1) p.put("missing", file);
            else if (u < 0.5) p.put("cut", file, pm, (int)r.below(30));
            else if (u < 0.6) p.put("cuttok", file, (int)r.range(1, 3));
            else if (u < 0.68) p.put("bad", file, pm);
            else if (u < 0.75) p.put("fault", std::string("open"), file, 0, r.chance(0.7), EIO);
            else p.put("fault", std::string("read"), file, pm, r.chance(0.7), EIO);
        }
    }
}
static Outcome exec_c04(const Plan &p) {
    return guarded(p, [&](Outcome &o) {
        int damaged = 0;
        for (size_t li = 0; li < p.lines.size(); li++) {
            const Line &l = p.lines[li]; if (l.kind() != "trial") continue;
            std::string kind = l.s(1); int ncams = (int)std::max<i64>(1, std::min<i64>(4, l.i(3))), cam = (int)(l.i(4) % ncams); bool fallback = l.i(5), raw = l.i(6);
            bool known = false; for (auto k : KINDS) known |= kind == k; if (!known) continue;
            std::vector<std::string> names, texts; make_files(kind, l.i(2), ncams, names, texts);
            S->disk.files.clear(); for (size_t k = 0; k < names.size(); k++) S->disk.files[names[k]] = texts[k];
            S->clear_faults(); S->heap_rng = Rng(mix(S->heap_seed, l.i(7)));
            bool dmg = false, hit = false;
            for (size_t q = li + 1; q < p.lines.size() && p.lines[q].kind() != "trial"; q++) {
                const Line &g = p.lines[q];
                if (g.kind() == "fault") {
                    Fault ft; ft.kind = g.s(1) == "open" ? F_OPEN : F_READ; ft.match = names[g.i(2) % names.size()]; i64 size = S->disk.has(ft.match) ? S->disk.files[ft.match].size() : 0;
                    ft.at = ft.kind == F_READ ? g.i(3) * size / 1000 : 0; ft.sticky = g.i(4); ft.err = EIO; S->faults.push_back(ft); dmg = true; continue;
                }
                std::string fn = names[g.i(1) % names.size()]; if (!S->disk.has(fn)) continue;
                std::string &t = S->disk.files[fn]; dmg = true;
                if (g.kind() == "missing") S->disk.files.erase(fn);
                else if (g.kind() == "cut") { i64 at = g.i(2) >= 970 ? (i64)t.size() - g.i(3) : g.i(2) * (i64)t.size() / 1000; t.resize(std::max<i64>(0, std::min<i64>(at, t.size()))); }
                else if (g.kind() == "cuttok") { for (i64 z = 0; z < g.i(2); z++) { while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back(); while (!t.empty() && !isspace((unsigned char)t.back())) t.pop_back(); } }
                else if (g.kind() == "bad") {   // a value that is no number
                    size_t at = g.i(2) * t.size() / 1000; while (at < t.size() && isspace((unsigned char)t[at])) at++;
                    while (at > 0 && !isspace((unsigned char)t[at - 1])) at--;
                    size_t e = at; while (e < t.size() && !isspace((unsigned char)t[e])) e++;
                    if (at < e && kind != "sequence" && kind != "control") t.replace(at, e - at, "x");
                }
            }
            // what the files hold now
            Vals want; bool comp = true; std::string why; bool optional_missing = false;
            auto text = [&](int k, std::string &t) { if (!S->disk.has(names[k])) return false; t = S->disk.files[names[k]]; return true; };
            std::string t;
            if (!text(0, t)) { comp = false; why = names[0] + " is missing"; }
            else if (!complete(t, types_of(kind, 0, ncams, cam), want)) { comp = false; why = names[0] + " is incomplete"; }
            else if (kind == "control") { Vals v; if (want.empty() || want[0].d != ncams) { comp = want[0].d > 0 && complete(t, types_of(kind, 0, (int)want[0].d, cam), v); if (comp) want = v; why = names[0] + " is incomplete"; } }
            if (comp && kind == "manori") {
                Vals b; if (!text(1, t) || !complete(t, types_of(kind, 1, ncams, cam), b)) { comp = false; why = names[1] + " is missing or incomplete"; }
                else {
                    Vals nr(want.end() - 4, want.end()), w2; int np = (int)b.size() / 4;
                    for (auto &x : nr) { int q = (int)x.d; if (q < 1 || q > np) { comp = false; why = "a selected point is not in the calibration block"; break; } for (int j = 1; j < 4; j++) w2.push_back(b[(q - 1) * 4 + j]); }
                    std::set<int> dis; for (auto &x : nr) dis.insert((int)x.d);
                    if (dis.size() < 4) { comp = false; why = "the selected points are incomplete"; hit = true; }   // a cut last value may repeat another one
                    want = w2;
                }
            }
            auto openfail = [&](int k) { for (auto &f : S->faults) if (f.kind == F_OPEN && f.match == names[k]) return true; return false; };
            bool use_fb = false;
            if (comp && kind == "cal") {
                int k = -1; if (S->disk.has(names[1]) && !openfail(1)) k = 1; else if (fallback && S->disk.has(names[2]) && !openfail(2)) { k = 2; use_fb = true; }
                if (k < 0) { for (int j = 0; j < 7; j++) want.push_back(D(j == 5 ? 1 : 0)); optional_missing = true; }
                else { Vals a; if (!complete(S->disk.files[names[k]], types_of(kind, 1, 1, 0), a)) { comp = false; why = names[k] + " is incomplete"; } else want.insert(want.end(), a.begin(), a.end()); }
            }
            (void)use_fb; (void)optional_missing;
            if (dmg) damaged++;
            u64 blocks = S->live.size();
            Loaded L = load(kind, names, ncams, cam, fallback, raw);
            u64 rd = 0; for (auto &f : S->faults) if (f.fired && (f.kind == F_READ || (f.kind == F_OPEN && !(kind == "cal" && f.match != names[0])))) rd++;
            S->clear_faults();
            S->log("%s %d %d", kind.c_str(), (int)L.ok, (int)comp);
            if (L.ok) {
                if (rd) fail("read-error-ignored", "%s settings: loading reported success although a file could not be read", kind.c_str());
                if (!comp && !hit) fail("incomplete-accepted", "%s settings: loading reported success, but %s", kind.c_str(), why.c_str());
                if (comp) compare(kind, want, L);
                for (size_t q = li + 1; q < p.lines.size() && p.lines[q].kind() != "trial"; q++) if (p.lines[q].kind() == "vary" && L.same) vary(p.lines[q], kind, names, ncams, cam, fallback, raw, L);
            } else if (!dmg) fail("load-failed", "%s settings: an intact file cannot be loaded", kind.c_str());
            L.release(); (void)blocks;
            // the intact files load again
            if (!L.ok) {
                for (size_t k = 0; k < names.size(); k++) S->disk.files[names[k]] = texts[k];
                L = load(kind, names, ncams, cam, fallback, raw);
                if (!L.ok) fail("load-failed", "%s settings: an intact file cannot be loaded after a failed load", kind.c_str());
                L.release();
            }
        }
        o.trivial = !damaged;
    });
}
static Reg r04({"C04", gen_c04, exec_c04, 16000, 200000});

// ================================================================ C05
static void gen_c05(u64 seed, int tier, Plan &p) {
    Rng r(seed); put_env(p, r); int n = (int)r.range(12, tier ? 70 : 40);
    for (int k = 0; k < 3; k++) if (r.chance(0.8)) { p.put("new", k, (i64)(r.next() % 10000000), (int)r.below(4)); if (r.chance(0.5)) p.put("save", k, k, r.chance(0.75)); if (r.chance(0.3)) { p.put("newt", k, (i64)(r.next() % 10000000)); p.put("savet", k, k); } }
    for (int k = 0; k < n; k++) {
        double u = r.uni(); int slot = (int)r.below(3), file = (int)r.below(3);
        if (u < 0.25) p.put("new", slot, (i64)(r.next() % 10000000), (int)r.below(4));
        else if (u < 0.5) p.put("save", slot, file, r.chance(0.75));
        else if (u < 0.8) p.put("load", slot, file, (int)r.below(4));
        else if (u < 0.86) p.put("newt", slot, (i64)(r.next() % 10000000));
        else if (u < 0.93) p.put("savet", slot, file); else p.put("loadt", slot, file);
    }
}
static void rot(const double *a, double dm[3][3]) {   // the documented convention: R = Rx(omega) Ry(phi) Rz(kappa)
    double co = cos(a[0]), so = sin(a[0]), cp = cos(a[1]), sp = sin(a[1]), ck = cos(a[2]), sk = sin(a[2]);
    double X[3][3] = {{1, 0, 0}, {0, co, -so}, {0, so, co}}, Y[3][3] = {{cp, 0, sp}, {0, 1, 0}, {-sp, 0, cp}}, Z[3][3] = {{ck, -sk, 0}, {sk, ck, 0}, {0, 0, 1}}, T[3][3];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { T[i][j] = 0; for (int k = 0; k < 3; k++) T[i][j] += X[i][k] * Y[k][j]; }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { dm[i][j] = 0; for (int k = 0; k < 3; k++) dm[i][j] += T[i][k] * Z[k][j]; }
}
struct CalV { double v[19]; };   // position, angles, xh yh cc, glass, distortion
static const char *CN[19] = {"x0", "y0", "z0", "omega", "phi", "kappa", "xh", "yh", "cc", "vec_x", "vec_y", "vec_z", "k1", "k2", "k3", "p1", "p2", "scx", "she"};
static const double CU[19] = {1e-8, 1e-8, 1e-8, 1e-8, 1e-8, 1e-8, 1e-4, 1e-4, 1e-4, 1e-15, 1e-15, 1e-15, 1e-8, 1e-8, 1e-8, 1e-8, 1e-8, 1e-8, 1e-8};
static CalV from_lib(const Calibration &c) {
    return {{c.ext_par.x0, c.ext_par.y0, c.ext_par.z0, c.ext_par.omega, c.ext_par.phi, c.ext_par.kappa, c.int_par.xh, c.int_par.yh, c.int_par.cc, c.glass_par.vec_x, c.glass_par.vec_y, c.glass_par.vec_z,
             c.added_par.k1, c.added_par.k2, c.added_par.k3, c.added_par.p1, c.added_par.p2, c.added_par.scx, c.added_par.she}};
}
static Outcome exec_c05(const Plan &p) {
    return guarded(p, [&](Outcome &o) {
        // slots: calibration objects of the caller; canon: came out of a file unchanged
        struct Slot { Calibration *c = 0; bool canon = false; CalV v; }; Slot sl[3];
        struct File { bool have = false, canon = false; CalV v; }; File ori[3]; struct Add { bool have = false, canon = false; double v[7]; }; Add add[3];
        struct TP { bool have = false; int v[13]; }; TP ts[3], tf[3]; int checked = 0;
        auto fname = [](int k) { return "cal/cam" + std::to_string(k) + ".tif.ori"; }; auto aname = [](int k) { return "cal/cam" + std::to_string(k) + ".tif.addpar"; }; auto tname = [](int k) { return "par/targ" + std::to_string(k); };
        for (auto &l : p.lines) {
            int s = (int)(l.i(1) % 3), f = (int)(l.i(2) % 3);
            if (l.kind() == "new") {
                Rng r(mix(l.i(2), 31)); int st = (int)l.i(3); Calibration *c = (Calibration *)sim_malloc(sizeof(Calibration)); c->mmlut.data = NULL;
                double big = st == 1 ? 10000 : st == 2 ? 1 : 300; double *e = &c->ext_par.x0;
                for (int k = 0; k < 3; k++) e[k] = r.uni(-big, big); for (int k = 3; k < 6; k++) e[k] = st == 3 ? r.uni(-0.001, 0.001) : r.uni(-6.3, 6.3);
                double dm[3][3]; rot(&c->ext_par.omega, dm); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c->ext_par.dm[i][j] = dm[i][j];
                double off = r.chance(0.2) ? 5000 : r.chance(0.3) ? 150 : 2; c->int_par.xh = r.uni(-off, off); c->int_par.yh = r.uni(-off, off); c->int_par.cc = r.uni(5, st == 1 ? 3000 : 200);
                c->glass_par.vec_x = st == 3 ? 0.0001 : r.uni(-big, big); c->glass_par.vec_y = r.uni(-big, big); c->glass_par.vec_z = r.uni(-big, big);
                double *a = &c->added_par.k1; bool nod = r.chance(0.3); double wide = r.chance(0.15) ? 1e5 : 1; for (int k = 0; k < 7; k++) a[k] = nod || r.chance(0.1) ? 0 : r.uni(-1, 1) * (k < 3 ? 0.01 : 0.001) * wide * (r.chance(0.25) ? pow(10, -r.uni(1, 12)) : 1); c->added_par.scx = nod ? 1 : r.uni(0.9, 1.1);
                if (r.chance(0.1)) for (int k = 0; k < 3; k++) e[k] *= 100;   // wide numbers must not run together
                if (sl[s].c) sim_free(sl[s].c);
                sl[s].c = c; sl[s].canon = false; sl[s].v = from_lib(*c);
            } else if (l.kind() == "save") {
                if (!sl[s].c) continue;
                bool wadd = l.i(3); int ok = 0; std::string a = fname(f), b = aname(f); Calibration before = *sl[s].c;
                lib([&] { ok = write_calibration(sl[s].c, &a[0], wadd ? &b[0] : NULL); });
                if (!ok) fail("save-failed", "saving a calibration reported failure");
                if (memcmp(&before, sl[s].c, sizeof before)) fail("save-modifies", "saving a calibration changed it");
                ori[f].have = true; ori[f].v = sl[s].v; ori[f].canon = sl[s].canon;
                if (wadd) { add[f].have = true; add[f].canon = sl[s].canon; memcpy(add[f].v, sl[s].v.v + 12, sizeof add[f].v); }
            } else if (l.kind() == "load") {
                std::string a = fname(f), b = aname(f), fb = aname((f + 1) % 3); bool usefb = l.i(3) & 1; Calibration *c = 0;
                lib([&] { c = read_calibration(&a[0], &b[0], usefb ? &fb[0] : NULL); });
                if (!ori[f].have) { if (c) fail("read-of-nothing", "a calibration that was never saved was loaded"); continue; }
                if (!c) fail("load-failed", "a saved calibration cannot be loaded");
                CalV w = ori[f].v, g = from_lib(*c); bool canon = ori[f].canon, acanon = true; const Add *ad = add[f].have ? &add[f] : usefb && add[(f + 1) % 3].have ? &add[(f + 1) % 3] : 0;
                if (ad) { memcpy(w.v + 12, ad->v, sizeof ad->v); acanon = ad->canon; } else for (int k = 12; k < 19; k++) w.v[k] = k == 17 ? 1 : 0;
                for (int k = 0; k < 19; k++) {
                    bool exact = k < 12 ? canon : acanon;
                    if (exact ? g.v[k] != w.v[k] : !near_prec(g.v[k], w.v[k], k < 12 ? CU[k] : fabs(w.v[k]) * 1e-8)) fail("calibration-differs", "%s is %.17g after loading, saved was %.17g%s", CN[k], g.v[k], w.v[k], exact ? " (a value that came from a file)" : "");
                }
                double dm[3][3]; rot(&c->ext_par.omega, dm);
                for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (!(fabs(dm[i][j] - c->ext_par.dm[i][j]) < 1e-11)) fail("rotation-matrix", "element %d %d of the rotation matrix is %.12g, its angles give %.12g", i, j, c->ext_par.dm[i][j], dm[i][j]);
                if (c->mmlut.data) fail("calibration-differs", "the look-up table of a loaded calibration is not empty");
                if (sl[s].c) sim_free(sl[s].c);
                sl[s].c = c; sl[s].canon = true; sl[s].v = g; checked++;
                // what was read is what the files hold from now on
                ori[f].v = g; ori[f].canon = true; if (ad) { Add *m = const_cast<Add *>(ad); memcpy(m->v, g.v + 12, sizeof m->v); m->canon = true; }
            } else if (l.kind() == "newt") {
                Rng r(mix(l.i(2), 32)); ts[s].have = true; for (int &x : ts[s].v) x = (int)(r.chance(0.2) ? r.range(-1, 1) : r.range(0, r.chance(0.1) ? 2000000000 : 5000));
            } else if (l.kind() == "savet" || l.kind() == "loadt") {
                target_par t, *q = 0; std::string n = tname(f);
                if (l.kind() == "savet") {
                    if (!ts[s].have) continue;
                    int *v = ts[s].v; for (int k = 0; k < 4; k++) t.gvthres[k] = v[k]; t.discont = v[4]; t.nnmin = v[5]; t.nnmax = v[6]; t.nxmin = v[7]; t.nxmax = v[8]; t.nymin = v[9]; t.nymax = v[10]; t.sumg_min = v[11]; t.cr_sz = v[12];
                    lib([&] { write_target_par(&t, &n[0]); }); tf[f] = ts[s];
                } else {
                    lib([&] { q = read_target_par(&n[0]); });
                    if (!tf[f].have) { if (q) fail("read-of-nothing", "detection settings that were never saved were loaded"); continue; }
                    if (!q) fail("load-failed", "saved detection settings cannot be loaded");
                    int g[13] = {q->gvthres[0], q->gvthres[1], q->gvthres[2], q->gvthres[3], q->discont, q->nnmin, q->nnmax, q->nxmin, q->nxmax, q->nymin, q->nymax, q->sumg_min, q->cr_sz};
                    for (int k = 0; k < 13; k++) if (g[k] != tf[f].v[k]) fail("detection-differs", "detection setting %d is %d, saved was %d", k, g[k], tf[f].v[k]);
                    sim_free(q); ts[s] = tf[f]; checked++;
                }
            }
        }
        for (auto &x : sl) if (x.c) sim_free(x.c);
        o.trivial = !checked;
    });
}
static Reg r05({"C05", gen_c05, exec_c05, 20000, 300000});
