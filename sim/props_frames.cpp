// C01 round trip, C02 reported success means stored, C03 damaged files are noticed, C08 frame window.
#include "libframe.h"
#include <cerrno>
#include <memory>

static int pick_count(Rng &r) {
    double u = r.uni();
    if (u < 0.15) return 0;
    if (u < 0.25) return 1;
    if (u < 0.8) return (int)r.range(2, 14);
    if (u < 0.97) return (int)r.range(15, 120);
    return (int)r.range(121, 700);
}
static int pick_framenum(Rng &r) {
    double u = r.uni();
    if (u < 0.6) return (int)r.range(1, 6);
    if (u < 0.7) return 0;
    if (u < 0.75) return -(int)r.range(1, 3);
    if (u < 0.9) return (int)r.range(9990, 10010);
    return (int)r.range(100000, 123456789);
}
static void put_env(Plan &p, Rng &r) {
    int chunk = r.chance(0.4) ? 0 : (int)r.range(1, r.chance(0.5) ? 7 : 600);
    p.put("env", (i64)(r.next() % 1000000), (i64)(r.next() % 1000000), chunk, (int)r.below(3));
}
struct LibFrame {   // a library frame object owned by the harness
    frame f; bool made = false; int cap = 0;
    void make(int ncams, int maxt) { lib([&] { frame_init(&f, ncams, maxt); }); made = true; cap = maxt; }
    void drop() { if (made) lib([&] { free_frame(&f); }); made = false; }
};
static std::map<std::string, std::string> others(const Disk &d, const std::set<std::string> &mine) {
    std::map<std::string, std::string> r;
    for (auto &f : d.files) if (!mine.count(f.first)) r.insert(f);
    return r;
}
static void check_others(const char *cls, const std::map<std::string, std::string> &before, const Disk &d, const std::set<std::string> &mine) {
    auto after = others(d, mine);
    for (auto &f : before) { auto i = after.find(f.first); if (i == after.end()) fail(cls, "file %s disappeared", f.first.c_str()); if (i->second != f.second) fail(cls, "file %s, which does not belong to what was saved, changed", f.first.c_str()); }
    for (auto &f : after) if (!before.count(f.first)) fail(cls, "unexpected file %s appeared", f.first.c_str());
}

// ================================================================ C01
static void gen_c01(u64 seed, int tier, Plan &p) {
    Rng r(seed); put_env(p, r);
    int ns = r.chance(0.6) ? 1 : 2;
    std::vector<int> nc;
    for (int k = 0; k < ns; k++) { nc.push_back((int)r.range(1, 4)); put_store(p, k, random_store(r, k, nc[k], r.chance(0.4))); }
    std::vector<int> nums; for (int k = 0; k < 4; k++) nums.push_back(pick_framenum(r));
    int nops = (int)r.range(4, tier ? 40 : 24);
    int ls = -1, ln = 0;
    for (int k = 0; k < nops; k++) {
        int s = (int)r.below(ns), n = r.pick(nums); u64 sd = r.next() % 100000000;
        double u = r.uni();
        if (ls >= 0 && r.chance(0.4)) { p.put("rf", ls, ln, r.chance(0.7), r.chance(0.3), r.chance(0.7)); ls = -1; continue; }
        if (u < 0.28) { ls = s; ln = n; }
        if (u < 0.28) p.put("wf", s, n, (i64)sd, pick_count(r), pick_count(r), r.chance(0.3));
        else if (u < 0.36) p.put("wt", s, n, (i64)sd, (int)r.below(nc[s]), pick_count(r), r.chance(0.3));
        else if (u < 0.42) p.put("wp", s, n, (i64)sd, pick_count(r), r.chance(0.5), r.chance(0.3));
        else if (u < 0.76) p.put("rf", s, n, r.chance(0.6), r.chance(0.3), r.chance(0.7));
        else if (u < 0.88) p.put("rt", s, n, (int)r.below(nc[s]));
        else p.put("rp", s, n, r.chance(0.6), r.chance(0.3));
    }
}
static Outcome exec_c01(const Plan &p) {
    return guarded(p, [&](Outcome &o) {
        std::map<int, Store> st; std::map<int, std::unique_ptr<Names>> nm; std::map<int, LibFrame> reuse;
        // the model: contents of every file that was saved
        std::map<std::string, std::vector<T2>> mt; std::map<std::string, std::vector<P3>> mc, ml, mp;
        const int CAP = 760; int checked = 0;
        for (auto &l : p.lines) {
            if (l.kind() == "store") { Store s; if (get_store(l, s)) { st[(int)l.i(1)] = s; nm[(int)l.i(1)].reset(new Names(s)); } continue; }
            if (l.kind() == "env") continue;
            int k = (int)l.i(1), n = (int)l.i(2);
            if (!st.count(k)) continue;
            Store &s = st[k]; Names &N = *nm[k]; std::string what = l.kind() + " of store " + std::to_string(k) + " frame " + std::to_string(n);
            if (l.kind() == "wf" || l.kind() == "wp") {
                bool full = l.kind() == "wf"; bool prio = full ? s.with_prio : l.i(5) && s.with_prio;
                int np = (int)std::min<i64>(l.i(4), CAP), nt = full ? (int)std::min<i64>(l.i(5), CAP) : 0;
                FrameData d = random_frame(l.i(3), np, nt, s.ncams(), (int)l.i(6));
                std::set<std::string> mine = {s.f_corres(n), s.f_linkage(n)}; if (prio) mine.insert(s.f_prio(n));
                if (full) for (int c = 0; c < s.ncams(); c++) mine.insert(s.f_targets(c, n));
                auto before = others(S->disk, mine);
                int ok = 0; LibFrame f; int cap = np; for (auto &t : d.targets) cap = std::max(cap, (int)t.size());
                f.make(s.ncams(), std::max(cap, 1)); fill_frame(&f.f, d);
                lib([&] {
                    ok = full ? write_frame(&f.f, N.c(), N.l(), prio ? N.p() : NULL, N.i(), n)
                              : write_path_frame(f.f.correspond, f.f.path_info, np, N.c(), N.l(), prio ? N.p() : NULL, n);
                });
                f.drop();
                if (!ok) fail("save-failed", "%s: a save to a healthy disk reported failure", what.c_str());
                check_others("other-data-changed", before, S->disk, mine);
                mc[s.f_corres(n)] = d.parts; ml[s.f_linkage(n)] = d.parts; if (prio) mp[s.f_prio(n)] = d.parts;
                if (full) for (int c = 0; c < s.ncams(); c++) mt[s.f_targets(c, n)] = d.targets[c];
            } else if (l.kind() == "wt") {
                int c = (int)(l.i(4) % s.ncams()), nt = (int)std::min<i64>(l.i(5), CAP);
                auto t = random_targets(l.i(3), nt, (int)l.i(6));
                std::set<std::string> mine = {s.f_targets(c, n)}; auto before = others(S->disk, mine);
                std::vector<target> b(nt + 1); fill_targets(b.data(), t); int ok = 0;
                lib([&] { ok = write_targets(b.data(), nt, N.i()[c], n); });
                if (!ok) fail("save-failed", "%s: a save to a healthy disk reported failure", what.c_str());
                check_others("other-data-changed", before, S->disk, mine);
                mt[s.f_targets(c, n)] = t;
            } else if (l.kind() == "rt") {
                int c = (int)(l.i(3) % s.ncams()); auto i = mt.find(s.f_targets(c, n)); int got = 0;
                int want = i == mt.end() ? -1 : (int)i->second.size();
                std::unique_ptr<target[]> b(new target[want > 0 ? want : 1]); memset(b.get(), 0x5a, sizeof(target) * (want > 0 ? want : 1));
                lib([&] { got = read_targets(b.get(), N.i()[c], n); });
                if (want < 0) { if (got != -1) fail("read-of-nothing", "%s: targets that were never saved were read", what.c_str()); }
                else { if (got < 0) fail("load-failed", "%s: saved targets cannot be read", what.c_str()); check_targets("targets-differ", what, b.get(), got, i->second); checked++; }
            } else if (l.kind() == "rp" || l.kind() == "rf") {
                bool links = l.i(3), prio = l.i(4) && s.with_prio, full = l.kind() == "rf";
                bool have = mc.count(s.f_corres(n)) != 0; FrameData w; bool differ = false;
                if (have) w.parts = mc[s.f_corres(n)];
                auto take = [&](std::map<std::string, std::vector<P3>> &m, const std::string &f, bool lk) {
                    if (!m.count(f)) { have = false; return; }
                    auto &v = m[f];
                    if (v.size() != w.parts.size()) { have = false; differ = true; return; }
                    for (size_t q = 0; q < v.size(); q++) { if (lk) { w.parts[q].prev = v[q].prev; w.parts[q].next = v[q].next; } else w.parts[q].prio = v[q].prio; }
                };
                w = with_defaults(w, false, false);
                if (have && links) take(ml, s.f_linkage(n), true);
                if (have && prio) take(mp, s.f_prio(n), false);
                if (full) for (int c = 0; c < s.ncams(); c++) { if (mt.count(s.f_targets(c, n))) w.targets.push_back(mt[s.f_targets(c, n)]); else have = false; }
                (void)differ;
                if (full) {
                    LibFrame one; LibFrame *f = &one;
                    if (l.i(5)) { f = &reuse[k]; if (!f->made) f->make(s.ncams(), CAP); }
                    else { int cap = (int)w.parts.size(); for (auto &t : w.targets) cap = std::max(cap, (int)t.size()); if (!have) cap = CAP; one.make(s.ncams(), std::max(cap, 1)); }
                    int ok = 0;
                    lib([&] { ok = read_frame(&f->f, N.c(), links ? N.l() : NULL, prio ? N.p() : NULL, N.i(), n); });
                    if (!have) { if (ok) fail("read-of-nothing", "%s: a frame that was never saved like this was read", what.c_str()); }
                    else { if (!ok) fail("load-failed", "%s: a saved frame cannot be read (%zu particles)", what.c_str(), w.parts.size()); check_frame("frame-differs", what, &f->f, w); checked++; }
                    if (f == &one) one.drop();
                } else {
                    std::unique_ptr<P[]> pi(new P[CAP + 1]); std::unique_ptr<corres[]> c(new corres[CAP + 1]); int got = 0;
                    memset((void *)pi.get(), 0x5a, sizeof(P) * CAP); memset((void *)c.get(), 0x5a, sizeof(corres) * CAP);
                    lib([&] { got = read_path_frame(c.get(), pi.get(), N.c(), links ? N.l() : NULL, prio ? N.p() : NULL, n); });
                    if (!have) { if (got != -1) fail("read-of-nothing", "%s: a frame that was never saved like this was read", what.c_str()); }
                    else { if (got < 0) fail("load-failed", "%s: a saved frame cannot be read (%zu particles)", what.c_str(), w.parts.size()); check_parts("frame-differs", what, pi.get(), c.get(), got, w.parts); checked++; }
                }
            }
        }
        for (auto &f : reuse) f.second.drop();
        o.trivial = !checked;
    });
}
static Reg r01({"C01", gen_c01, exec_c01, 6000, 60000});

// ================================================================ C02 and C03 share the kinds of saved things
static const char *fk_names[] = {"open", "read", "write", "close"};
static FaultKind fk(const std::string &s) { for (int k = 0; k < 4; k++) if (s == fk_names[k]) return (FaultKind)k; return F_OPEN; }

static void put_cal(Calibration &c, u64 seed) {
    Rng r(mix(seed, 4)); memset(&c, 0, sizeof c);
    double *e = &c.ext_par.x0; for (int k = 0; k < 3; k++) e[k] = r.uni(-500, 500); for (int k = 3; k < 6; k++) e[k] = r.uni(-3.2, 3.2);
    for (auto &row : c.ext_par.dm) for (double &x : row) x = r.uni(-1, 1);
    c.int_par.xh = r.uni(-1, 1); c.int_par.yh = r.uni(-1, 1); c.int_par.cc = r.uni(20, 200);
    c.glass_par.vec_x = r.uni(-50, 50); c.glass_par.vec_y = r.uni(-50, 50); c.glass_par.vec_z = r.uni(1, 200);
    double *a = &c.added_par.k1; for (int k = 0; k < 7; k++) a[k] = r.uni(-0.01, 0.01); c.added_par.scx = 1;
}
static void gen_c02(u64 seed, int tier, Plan &p) {
    Rng r(seed); put_env(p, r);
    int nc = (int)r.range(1, 4); Store s = random_store(r, 0, nc, r.chance(0.5)); put_store(p, 0, s);
    int nt = (int)r.range(2, tier ? 14 : 8);
    for (int k = 0; k < nt; k++) {
        const char *kinds[] = {"frame", "frame", "path", "targets", "cal", "cal"};
        std::string kind = kinds[r.below(6)];
        p.put("trial", kind, (int)r.range(1, 3), (i64)(r.next() % 1000000), pick_count(r), pick_count(r), (int)r.below(nc), r.chance(0.3));
        int nf = r.chance(0.15) ? 0 : r.chance(0.8) ? 1 : 2;
        for (int q = 0; q < nf; q++) {
            double u = r.uni();
            p.put("fault", std::string(u < 0.25 ? "open" : u < 0.75 ? "write" : "close"), (int)r.below(12), r.chance(0.15) ? 1000 : r.chance(0.1) ? 0 : (int)r.below(1000), r.chance(0.7), r.chance(0.5) ? ENOSPC : EIO);
        }
    }
}
static Outcome exec_c02(const Plan &p) {
    return guarded(p, [&](Outcome &o) {
        Store s; std::unique_ptr<Names> N; bool have = false; u64 fired_total = 0;
        for (size_t li = 0; li < p.lines.size(); li++) {
            const Line &l = p.lines[li];
            if (l.kind() == "store") { have = get_store(l, s); N.reset(new Names(s)); }
            if (l.kind() != "trial" || !have) continue;
            std::string kind = l.s(1); int n = (int)l.i(2), np = (int)std::min<i64>(l.i(4), 760), nt = (int)std::min<i64>(l.i(5), 760), cam = (int)(l.i(6) % s.ncams());
            FrameData d = random_frame(l.i(3), np, nt, s.ncams(), (int)l.i(7));
            bool prio = s.with_prio; Calibration cal; put_cal(cal, l.i(3)); bool addf = l.i(3) % 4 != 0;
            std::string cal1 = "cal/cam" + std::to_string(cam) + ".ori", cal2 = "cal/cam" + std::to_string(cam) + ".addpar";
            std::vector<std::string> mine;
            if (kind == "frame" || kind == "path") { mine = {s.f_corres(n), s.f_linkage(n)}; if (prio) mine.push_back(s.f_prio(n)); }
            if (kind == "frame") for (int c = 0; c < s.ncams(); c++) mine.push_back(s.f_targets(c, n));
            if (kind == "targets") mine.push_back(s.f_targets(cam, n));
            if (kind == "cal") { mine.push_back(cal1); if (addf) mine.push_back(cal2); }
            LibFrame f; int cap = np; for (auto &t : d.targets) cap = std::max(cap, (int)t.size());
            f.make(s.ncams(), std::max(cap, 1)); fill_frame(&f.f, d);
            auto save = [&] {
                int ok = 0;
                lib([&] {
                    if (kind == "frame") ok = write_frame(&f.f, N->c(), N->l(), prio ? N->p() : NULL, N->i(), n);
                    else if (kind == "path") ok = write_path_frame(f.f.correspond, f.f.path_info, np, N->c(), N->l(), prio ? N->p() : NULL, n);
                    else if (kind == "targets") ok = write_targets(f.f.targets[cam], f.f.num_targets[cam], N->i()[cam], n);
                    else ok = write_calibration(&cal, &cal1[0], addf ? &cal2[0] : NULL);
                });
                return ok;
            };
            // what a complete save leaves behind, on an empty disk
            Disk keep = S->disk; S->disk.files.clear();
            if (!save()) fail("save-failed", "save of %s to a healthy disk reported failure", kind.c_str());
            Disk full = S->disk; S->disk = keep;
            std::vector<std::string> names; for (auto &q : full.files) names.push_back(q.first);
            for (auto &m : mine) if (!full.has(m)) fail("file-missing", "save of %s reported success without writing %s", kind.c_str(), m.c_str());
            auto before = others(S->disk, std::set<std::string>(mine.begin(), mine.end()));
            S->clear_faults();
            for (size_t q = li + 1; q < p.lines.size() && p.lines[q].kind() == "fault"; q++) {
                const Line &g = p.lines[q]; Fault ft; ft.kind = fk(g.s(1)); ft.match = names[g.i(2) % names.size()];
                i64 size = full.files[ft.match].size();
                ft.at = ft.kind == F_WRITE ? std::min(size - 1, g.i(3) * size / 1000) : 0; ft.sticky = g.i(4); ft.err = (int)g.i(5);
                S->faults.push_back(ft);
            }
            int ok = save();
            u64 fired = 0; std::string which; for (auto &q : S->faults) if (q.fired) { fired += q.fired; which = std::string(fk_names[q.kind]) + " of " + q.match + " at " + std::to_string(q.at); }
            fired_total += fired; S->clear_faults();
            if (ok && fired) fail("failure-not-reported", "save of %s reported success although %s failed", kind.c_str(), which.c_str());
            if (!ok && !fired) fail("spurious-failure", "save of %s reported failure although nothing failed", kind.c_str());
            if (ok) for (auto &q : full.files) if (S->disk.files[q.first] != q.second) fail("incomplete", "save of %s reported success but %s is not complete", kind.c_str(), q.first.c_str());
            check_others("other-data-changed", before, S->disk, std::set<std::string>(mine.begin(), mine.end()));
            if (!ok) {   // faults over: the same save must work
                if (!save()) fail("no-recovery", "save of %s fails although the disk works again", kind.c_str());
                for (auto &q : full.files) if (S->disk.files[q.first] != q.second) fail("incomplete", "repeated save of %s reported success but %s is not complete", kind.c_str(), q.first.c_str());
            }
            S->log("trial %s %d fired %d", kind.c_str(), ok, (int)fired);
            f.drop();
        }
        o.trivial = !fired_total;
    });
}
static Reg r02({"C02", gen_c02, exec_c02, 8000, 80000});

// ================================================================ C03
static void gen_c03(u64 seed, int tier, Plan &p) {
    Rng r(seed); put_env(p, r);
    int nc = (int)r.range(1, 4); put_store(p, 0, random_store(r, 0, nc, r.chance(0.5)));
    int nt = (int)r.range(3, tier ? 30 : 16);
    for (int k = 0; k < nt; k++) {
        // frame to be damaged; the frame object was used before for another one; how it is loaded
        p.put("trial", (int)r.range(1, 3), (i64)(r.next() % 1000000), pick_count(r), pick_count(r), r.chance(0.2), r.chance(0.7), r.chance(0.5), (int)r.below(4));
        int nd = r.chance(0.05) ? 0 : r.chance(0.85) ? 1 : 2;
        for (int q = 0; q < nd; q++) {
            double u = r.uni(); int file = (int)r.below(12);
            int pm = r.chance(0.1) ? 0 : r.chance(0.15) ? 1000 - (int)r.below(30) : (int)r.below(1000);
            if (u < 0.12) p.put("missing", file);
            else if (u < 0.42) p.put("cut", file, pm, (int)r.below(40));
            else if (u < 0.50) p.put("cutlines", file, (int)r.range(1, 3));
            else if (u < 0.60) p.put("count", file, r.chance(0.5) ? (int)r.range(1, 20) : -(int)r.range(1, 5));
            else if (u < 0.66) p.put("empty", file);
            else if (u < 0.74) p.put("fault", std::string("open"), file, 0, r.chance(0.7), EIO);
            else if (u < 0.90) p.put("fault", std::string("read"), file, pm, r.chance(0.7), EIO);
            else p.put("crash", (int)r.below(40));
        }
    }
}
static Outcome exec_c03(const Plan &p) {
    return guarded(p, [&](Outcome &o) {
        Store s; std::unique_ptr<Names> N; bool have = false; int damaged = 0; LibFrame reuse; const int CAP = 1500;
        for (size_t li = 0; li < p.lines.size(); li++) {
            const Line &l = p.lines[li];
            if (l.kind() == "store") { have = get_store(l, s); N.reset(new Names(s)); }
            if (l.kind() != "trial" || !have) continue;
            int n = (int)l.i(1), np = (int)std::min<i64>(l.i(3), 700), nt = (int)std::min<i64>(l.i(4), 700), style = (int)l.i(5);
            bool links = l.i(6), prio = l.i(7) && s.with_prio; int how = (int)l.i(8) % 4;   // 0,1: frame, 2: path, 3: targets
            int cam = (int)(l.i(2) % s.ncams());
            FrameData d = random_frame(l.i(2), np, nt, s.ncams(), style);
            if (!reuse.made) reuse.make(s.ncams(), CAP);
            Disk old = S->disk;
            put_frame(S->disk, s, n, d, true, s.with_prio);
            auto names = s.all(n);
            std::set<std::string> touched; bool dmg = false; S->clear_faults();
            for (size_t q = li + 1; q < p.lines.size() && p.lines[q].kind() != "trial"; q++) {
                const Line &g = p.lines[q]; dmg = true;
                if (g.kind() == "crash") {   // a writer of the library dies
                    S->disk = old; for (auto &f : names) S->disk.files.erase(f);
                    LibFrame f; int cap = np; for (auto &t : d.targets) cap = std::max(cap, (int)t.size());
                    f.make(s.ncams(), std::max(cap, 1)); fill_frame(&f.f, d);
                    auto fs = S->faults; S->clear_faults(); S->crash_at_io = S->io_ops + g.i(1);
                    FiberEnd e = run_fiber([&] { write_frame(&f.f, N->c(), N->l(), s.with_prio ? N->p() : NULL, N->i(), n); });
                    S->crash_at_io = -1; S->faults = fs;
                    if (e == FE_CRASH) { S->drop_process(); reuse.made = false; reuse.make(s.ncams(), CAP); } else f.drop();
                    continue;
                }
                if (g.kind() == "fault") {
                    Fault ft; ft.kind = fk(g.s(1)); ft.match = names[g.i(2) % names.size()];
                    i64 size = S->disk.has(ft.match) ? S->disk.files[ft.match].size() : 0;
                    ft.at = ft.kind == F_READ ? g.i(3) * size / 1000 : 0; ft.sticky = g.i(4); ft.err = (int)g.i(5); S->faults.push_back(ft);
                    continue;
                }
                std::string fn = names[g.i(1) % names.size()]; if (!S->disk.has(fn)) continue;
                std::string &t = S->disk.files[fn];
                if (g.kind() == "missing") S->disk.files.erase(fn);
                else if (g.kind() == "empty") t.clear();
                else if (g.kind() == "cut") { i64 at = g.i(2) >= 970 ? (i64)t.size() - g.i(3) : g.i(2) * (i64)t.size() / 1000; t.resize(std::max<i64>(0, std::min<i64>(at, t.size()))); }
                else if (g.kind() == "cutlines") { for (i64 z = 0; z < g.i(2) && !t.empty(); z++) { t.pop_back(); size_t e = t.rfind('\n'); t.resize(e == std::string::npos ? 0 : e + 1); } }
                else if (g.kind() == "count") {
                    size_t e = t.find('\n'); if (e == std::string::npos) continue;
                    int c = atoi(t.c_str()); c += (int)g.i(2); if (c < 0) c = 0;
                    bool tg = fn.find("_targets") != std::string::npos; if (tg && g.i(2) < 0) continue;   // more records than announced: not covered
                    t = std::to_string(c) + t.substr(e);
                }
            }
            for (auto &f : names) if (S->disk.has(f) && f.find("_targets") == std::string::npos) {
                // path files with more records than announced are not covered either
                std::vector<P3> v; int c; bool okk = f == s.f_corres(n) ? parse_corres(S->disk.files[f], v, c) : f == s.f_linkage(n) ? parse_linkage(S->disk.files[f], v, c) : parse_prio(S->disk.files[f], v, c);
                (void)okk;
            }
            // what is really on the disk
            FrameData w; bool complete; int got = 0; std::string why; std::vector<std::string> need;
            if (how <= 1) { complete = get_frame(S->disk, s, n, links, prio, w, &why); need = {s.f_corres(n)}; if (links) need.push_back(s.f_linkage(n)); if (prio) need.push_back(s.f_prio(n)); for (int c = 0; c < s.ncams(); c++) need.push_back(s.f_targets(c, n)); }
            else if (how == 2) { Store t = s; t.img.clear(); complete = get_frame(S->disk, t, n, links, prio, w, &why); need = {s.f_corres(n)}; if (links) need.push_back(s.f_linkage(n)); if (prio) need.push_back(s.f_prio(n)); }
            else { std::string fn = s.f_targets(cam, n); w.targets.resize(s.ncams()); complete = S->disk.has(fn) && parse_targets(S->disk.files[fn], w.targets[cam]); why = "incomplete " + fn; need = {fn}; }
            w = with_defaults(w, links, prio);
            std::string what = how <= 1 ? "frame" : how == 2 ? "path files" : "target file";
            std::unique_ptr<P[]> pi; std::unique_ptr<corres[]> co; std::unique_ptr<target[]> tb;
            auto load = [&] {
                lib([&] {
                    if (how <= 1) got = read_frame(&reuse.f, N->c(), links ? N->l() : NULL, prio ? N->p() : NULL, N->i(), n) ? 0 : -1;
                    else if (how == 2) { if (!pi) { pi.reset(new P[CAP]); co.reset(new corres[CAP]); } got = read_path_frame(co.get(), pi.get(), N->c(), links ? N->l() : NULL, prio ? N->p() : NULL, n); }
                    else { if (!tb) tb.reset(new target[CAP]); got = read_targets(tb.get(), N->i()[cam], n); }
                });
            };
            auto compare = [&](const FrameData &w) {
                if (how <= 1) check_frame("wrong-content", what, &reuse.f, w);
                else if (how == 2) check_parts("wrong-content", what, pi.get(), co.get(), got, w.parts);
                else check_targets("wrong-content", what, tb.get(), got, w.targets[cam]);
            };
            load();
            u64 fired = 0; for (auto &q : S->faults) fired += q.fired;
            S->clear_faults();
            if (dmg) damaged++;
            S->log("trial how %d complete %d fired %d got %d", how, (int)complete, (int)fired, got);
            if (got >= 0) {
                if (fired) fail("read-error-ignored", "%s of frame %d: loading reported success although a file could not be read", what.c_str(), n);
                if (!complete) fail("damage-ignored", "%s of frame %d: loading reported success, but the files are damaged: %s", what.c_str(), n, why.c_str());
                compare(w);
            } else if (!dmg) fail("load-failed", "%s of frame %d: intact files cannot be loaded", what.c_str(), n);
            // repaired files load again, into the same memory
            put_frame(S->disk, s, n, d, true, s.with_prio);
            load();
            if (got < 0) fail("load-failed", "%s of frame %d: intact files cannot be loaded after a failed load", what.c_str(), n);
            FrameData w2 = with_defaults(rounded(d), links, prio); compare(w2);
        }
        reuse.drop();
        o.trivial = !damaged;
    });
}
static Reg r03({"C03", gen_c03, exec_c03, 8000, 80000});

// ================================================================ C08
static void gen_c08(u64 seed, int tier, Plan &p) {
    Rng r(seed); put_env(p, r);
    int nc = (int)r.range(1, 4); put_store(p, 0, random_store(r, 0, nc, r.chance(0.5)));
    p.put("win", r.chance(0.5) ? 4 : (int)r.range(1, 7), r.chance(0.5) ? 60 : (int)r.range(1, 60));
    int nf = (int)r.range(2, 7);
    for (int k = 0; k < nf; k++) p.put("have", k + 1, (i64)(r.next() % 1000000), (int)std::min(60, pick_count(r)), (int)std::min(60, pick_count(r)), r.chance(0.2));
    int nd = (int)r.below(3);
    for (int k = 0; k < nd; k++) p.put("damage", (int)r.range(1, nf), (int)r.below(9));
    int n = (int)r.range(5, tier ? 80 : 40);
    for (int k = 0; k < n; k++) {
        double u = r.uni();
        if (u < 0.33) p.put("next"); else if (u < 0.48) p.put("prev");
        else if (u < 0.82) p.put("load", (int)r.range(1, nf + 1), r.chance(0.6), r.chance(0.08) ? (int)r.range(1, 9) : 0);
        else p.put("save", (int)r.range(1, nf + 2));
    }
}
static Outcome exec_c08(const Plan &p) {
    return guarded(p, [&](Outcome &o) {
        Store s; const Line *sl = p.find("store"); if (!sl || !get_store(*sl, s)) fail("invalid", "no store");
        const Line *wl = p.find("win"); if (!wl) fail("invalid", "no window");
        int len = (int)std::max<i64>(1, std::min<i64>(wl->i(1), 9)), cap = (int)std::max<i64>(1, std::min<i64>(wl->i(2), 200));
        Names N(s); framebuf fb; framebuf_base *b = &fb.base; int ops = 0;
        lib([&] { fb_init(&fb, len, s.ncams(), cap, N.c(), N.l(), s.with_prio ? N.p() : NULL, N.i()); });
        struct Slot { FrameData d; bool unreadable = false; bool loaded = false; };
        std::vector<Slot> ring(len); size_t start = 0;
        for (auto &x : ring) x.d.targets.resize(s.ncams());
        auto at = [&](int k) -> Slot & { return ring[(start + k) % len]; };
        auto check = [&](const std::string &after) {
            for (int k = 0; k < len; k++) {
                frame *f = b->buf[k]; Slot &x = at(k);
                std::string what = "position " + std::to_string(k) + " after " + after;
                int np = f->num_parts < 0 ? 0 : f->num_parts;
                check_parts("window", what, f->path_info, f->correspond, np, x.d.parts, 1e-9, x.loaded);
                for (int c = 0; c < s.ncams(); c++) check_targets("window", what + " camera " + std::to_string(c), f->targets[c], f->num_targets[c], x.d.targets[c], 1e-9);
            }
        };
        for (auto &l : p.lines) {
            if (l.kind() == "have") {
                FrameData d = random_frame(l.i(2), (int)std::min<i64>(l.i(3), cap), (int)std::min<i64>(l.i(4), cap), s.ncams(), (int)l.i(5));
                put_frame(S->disk, s, (int)l.i(1), d, true, s.with_prio);
            } else if (l.kind() == "damage") {
                auto names = s.all((int)l.i(1)); std::string fn = names[l.i(2) % names.size()];
                if (S->disk.has(fn)) { std::string &t = S->disk.files[fn]; if (l.i(2) % 2) t.resize(t.size() / 3); else S->disk.files.erase(fn); }
            } else if (l.kind() == "next") { lib([&] { fb_next(b); }); start = (start + 1) % len; check("advance"); ops++; }
            else if (l.kind() == "prev") { lib([&] { fb_prev(b); }); start = (start + len - 1) % len; check("step back"); ops++; }
            else if (l.kind() == "load") {
                int n = (int)l.i(1); bool links = l.i(2); int ok = 0; S->clear_faults();
                if (l.i(3)) { auto names = s.all(n); Fault f; f.kind = l.i(3) % 2 ? F_READ : F_OPEN; f.match = names[l.i(3) % names.size()]; f.at = 0; S->faults.push_back(f); }
                FrameData w; bool have = get_frame(S->disk, s, n, links, links && s.with_prio, w);
                lib([&] { ok = fb_read_frame_at_end(b, n, links); });
                u64 fired = 0; for (auto &f : S->faults) fired += f.fired;
                S->clear_faults(); if (fired) have = false;
                if (have && !ok) fail("load-failed", "frame %d cannot be loaded", n);
                if (!have && ok) fail("load-of-nothing", "loading frame %d reported success", n);
                Slot &x = at(len - 1); x.loaded = true; x.unreadable = !have;
                if (have) x.d = with_defaults(w, links, links && s.with_prio);
                else { x.d = FrameData(); x.d.targets.resize(s.ncams()); }
                check("load"); ops++;
            } else if (l.kind() == "save") {
                int n = (int)l.i(1), ok = 0; Slot &x = at(0); Disk before = S->disk;
                lib([&] { ok = fb_write_frame_from_start(b, n); });
                std::set<std::string> mine; for (auto &f : s.all(n)) mine.insert(f);
                check_others("other-data-changed", others(before, mine), S->disk, mine);
                if (x.unreadable) {
                    if (S->disk.files != before.files) fail("unreadable-saved", "a frame that could not be read was saved over frame %d", n);
                } else {
                    if (!ok) fail("save-failed", "saving to frame %d reported failure", n);
                    FrameData g; std::string why;
                    if (!get_frame(S->disk, s, n, true, s.with_prio, g, &why)) fail("save-incomplete", "frame %d is not complete after saving: %s", n, why.c_str());
                    FrameData want = rounded(x.d); if (!s.with_prio) for (auto &q : want.parts) q.prio = 4;
                    std::vector<P> pi(g.parts.size() + 1); std::vector<corres> co(g.parts.size() + 1);
                    fill_parts(pi.data(), co.data(), g.parts);
                    check_parts("save-differs", "saved frame " + std::to_string(n), pi.data(), co.data(), (int)g.parts.size(), want.parts, 1e-9, false);
                    for (int c = 0; c < s.ncams(); c++) { std::vector<target> t(g.targets[c].size() + 1); fill_targets(t.data(), g.targets[c]); check_targets("save-differs", "saved targets", t.data(), (int)g.targets[c].size(), want.targets[c], 1e-9); }
                }
                check("save"); ops++;
            }
        }
        lib([&] { fb_free(b); });
        std::string leak = S->leak_report(); if (!leak.empty()) fail("window-leak", "releasing the window: %s", leak.c_str());
        o.trivial = ops < 3;
    });
}
static Reg r08({"C08", gen_c08, exec_c08, 6000, 60000});
