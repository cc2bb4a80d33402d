// C09-C12, C17: tracking over simulated sequences with lost and spurious detections and unreadable frames.
#include "trackscene.h"
#include <algorithm>
// ---------------------------------------------------------------- frames that cannot be read
// bad FRAME FILE HOW AT STICKY PHASE: FILE 0 positions, 1.. targets of a camera, then links, priorities (phase 1);
// HOW 0 gone, 1 torn, 2 not to be opened, 3 fails part way, 4 empty, 5 overwritten with junk; PHASE 0 forward, 1 backward
static void gen_bad(Rng &r, Plan &p, int nc, int first, int last, int phase = 0) {
    int n = 1 + (int)r.below(3); bool run = r.chance(0.3); int f0 = (int)r.range(first, last);
    for (int k = 0; k < n; k++) p.put("bad", run ? std::min(last, f0 + k) : r.range(first, last), r.below(nc + 1 + 2 * phase), r.below(6), r.below(1000), r.below(2), phase);
}
static std::string bad_path(const TrackScene &s, const Line &l) { int f = (int)l.i(1), k = (int)l.i(2), n = s.st.ncams(); return k <= 0 ? s.st.f_corres(f) : k <= n ? s.st.f_targets(k - 1, f) : k == n + 1 ? s.st.f_linkage(f) : s.st.f_prio(f); }
struct BadFrames { std::set<int> all, lasting; };
static BadFrames apply_bad(const Plan &p, const TrackScene &s, int phase = 0) {
    BadFrames b;
    for (auto &l : p.lines) if (l.kind() == "bad" && l.i(6) == phase) {
        int f = (int)l.i(1); if (f < s.first || f > s.last) continue;
        std::string path = bad_path(s, l); auto it = S->disk.files.find(path); if (it == S->disk.files.end()) continue;
        std::string &t = it->second; i64 at = std::max<i64>(0, l.i(4)) % 1000; Fault ft; ft.match = "=" + path; ft.err = 5; ft.sticky = l.i(5);
        switch (l.i(3)) {
        case 0: S->disk.files.erase(it); stats.inc("fault.file_gone"); break;
        case 1: t.resize(t.size() * at / 1000); stats.inc("fault.file_torn"); break;
        case 2: ft.kind = F_OPEN; ft.err = at % 2 ? 5 : 24; S->faults.push_back(ft); b.all.insert(f); if (ft.sticky) b.lasting.insert(f); stats.inc(ft.sticky ? "fault.open" : "fault.open_once"); continue;
        case 3: ft.kind = F_READ; ft.at = (i64)t.size() * at / 1000; if (ft.at >= (i64)t.size() - 1) continue;
            S->faults.push_back(ft); b.all.insert(f); if (ft.sticky) b.lasting.insert(f); stats.inc(ft.sticky ? "fault.read" : "fault.read_once"); continue;
        case 4: t.clear(); stats.inc("fault.file_emptied"); break;
        default: t = at % 2 ? "7\nx y z" : std::string(200, '\0'); stats.inc("fault.file_junk");
        }
        FrameData F; if (!get_frame(S->disk, s.st, f, phase == 1, phase == 1, F)) { b.all.insert(f); b.lasting.insert(f); }
    }
    return b;
}
static MStore model_input(const TrackScene &s, const std::set<int> &bad, bool links) {
    MStore m = read_store(S->disk, s, s.first, s.last, links);
    for (int f : bad) { m[f].readable = false; m[f].parts.clear(); m[f].tg.assign(s.rig.nc, {}); }
    return m;
}
struct NMeas { std::map<int, size_t> n; };
static std::map<int, size_t> measured(const MStore &m) { std::map<int, size_t> n; for (auto &f : m) n[f.first] = f.second.parts.size(); return n; }
// ---------------------------------------------------------------- what must hold of any stored result
static FrameData load(const TrackScene &s, int f, const char *cls) { FrameData F; std::string w; if (!get_frame(S->disk, s.st, f, true, true, F, &w)) fail(cls, "frame %d is not readable after tracking: %s", f, w.c_str()); return F; }
// links of frames f, f+1 answer each other; parts: what is stored
static void check_links(const TrackScene &s, int f, const FrameData *a, const FrameData *b) {
    if (a) for (size_t k = 0; k < a->parts.size(); k++) {
        int n = a->parts[k].next; if (n == -2) continue;
        if (!b) fail("link-out", "particle %zu of frame %d goes on to %d, in a frame there is not", k, f, n);
        if (n < 0 || n >= (int)b->parts.size()) fail("link-range", "particle %zu of frame %d goes on to %d of %zu in frame %d", k, f, n, b->parts.size(), f + 1);
        if (b->parts[n].prev != (int)k) fail("link-unanswered", "particle %zu of frame %d goes on to %d of frame %d, which comes from %d", k, f, n, f + 1, b->parts[n].prev);
    }
    if (b) for (size_t k = 0; k < b->parts.size(); k++) {
        int q = b->parts[k].prev; if (q == -1) continue;
        if (!a) fail("link-out", "particle %zu of frame %d comes from %d, in a frame there is not", k, f + 1, q);
        if (q < 0 || q >= (int)a->parts.size()) fail("link-range", "particle %zu of frame %d comes from %d of %zu in frame %d", k, f + 1, q, a->parts.size(), f);
        if (a->parts[q].next != (int)k) fail("link-unanswered", "particle %zu of frame %d comes from %d of frame %d, which goes on to %d", k, f + 1, q, f, a->parts[q].next);
    }
}
static void check_all_links(const TrackScene &s, const std::set<int> &bad) {
    std::map<int, FrameData> fr; for (int f = s.first; f <= s.last; f++) if (!bad.count(f)) fr[f] = load(s, f, "unreadable");
    for (int f = s.first - 1; f <= s.last; f++) check_links(s, f, fr.count(f) ? &fr[f] : nullptr, fr.count(f + 1) ? &fr[f + 1] : nullptr);
}
static u64 disk_of(const TrackScene &s) { u64 h = 0; for (auto &f : S->disk.files) h = mix(mix(h, hash_str(f.first)), hash_str(f.second)); return h; }
static void env(Rng &r, Plan &p) { p.put("env", r.below(1u << 30), r.below(1u << 30), r.chance(0.3) ? 1 + (int)r.below(300) : 0, r.chance(0.2) ? 1 + (int)r.below(2) : 0); }
static void scene_stats(const Plan &p) {
    for (auto &l : p.lines) { const std::string &k = l.kind(); if (k == "lose") stats.inc("fault.lost_detection"); else if (k == "unmatched") stats.inc("fault.unmatched_particle"); else if (k == "absent") stats.inc("fault.absent_particle"); else if (k == "clutter") stats.inc("fault.spurious_detections"); else if (k == "outage") stats.inc("fault.camera_outage"); else if (k == "emptyf") stats.inc("fault.empty_frame"); else if (k == "hloss") stats.inc("fault.random_losses"); }
}
struct Run {   // a scene on the simulated disk
    TrackScene s; BadFrames bad; std::map<std::string, std::string> before; MStore in; std::map<int, size_t> nm;
    explicit Run(const Plan &p) {
        s = build_track(p); if (!s.ok) fail("invalid", "scene");
        s.put(S->disk); scene_stats(p); bad = apply_bad(p, s); before = S->disk.files; in = model_input(s, bad.all, false); nm = measured(in);
    }
    void forward(const std::function<void(int)> &after = {}) { lib([&] { LibTrack T(s); T.forward(after); T.drop(); }); std::string lk = S->leak_report(); if (!lk.empty()) fail("leak", "%s", lk.c_str()); }
    // the state a backward pass starts from; faults of phase 0 that were transient are over
    BadFrames bad2; std::map<std::string, std::string> before2; MStore in2; int first0, last0;
    void between(const Plan &p) {
        std::vector<Fault> keep; for (auto &f : S->faults) if (f.sticky) keep.push_back(f); S->faults = keep;
        if (p.find("heal")) { S->clear_faults(); bad.lasting.clear(); }
        if (auto l = p.find("cut")) cut(l->d(1), (u64)l->i(2));
        first0 = s.first; last0 = s.last; if (auto l = p.find("sub")) { int a = s.first + (int)l->i(1), b = s.last - (int)l->i(2); if (b - a >= 3 && a >= s.first && b <= s.last) { s.first = a; s.last = b; } }
        bad2 = apply_bad(p, s, 1); for (int f : bad.lasting) bad2.all.insert(f);
        before2 = S->disk.files; in2 = model_input(s, bad2.all, true);
    }
    void cut(double prob, u64 seed) {   // an earlier tracking that linked less
        std::map<int, FrameData> fr; for (int f = s.first; f <= s.last; f++) { FrameData F; if (get_frame(S->disk, s.st, f, true, true, F)) fr[f] = F; }
        int n = 0; for (auto &f : fr) for (size_t k = 0; k < f.second.parts.size(); k++) { auto &q = f.second.parts[k]; if (q.next < 0 || !fr.count(f.first + 1) || hash_uni(hash3(seed, f.first, k)) >= prob) continue; auto &g = fr[f.first + 1].parts; if (q.next < (int)g.size()) { g[q.next].prev = -1; q.next = -2; n++; } }
        for (auto &f : fr) put_frame(S->disk, s.st, f.first, f.second, true, true);
        stats.inc("links_cut", n);
    }
    void backward() { lib([&] { LibTrack T(s); T.backward(); T.drop(); }); std::string lk = S->leak_report(); if (!lk.empty()) fail("leak", "%s", lk.c_str()); }
    // Expected result of a forward pass. known: the result is that of the finding "stale"
    // returns false if the scene has no determined result
    bool model(MStore &right, MStore &quirk, TrackModel &A, TrackModel &B) { right = in; quirk = in; A.forward(right, false); B.forward(quirk, true); return !A.ambiguous && !B.ambiguous; }
    // the files of frames that could not be read, and everything outside the sequence
    void check_untouched(const char *cls, const std::set<int> &readable) {
        std::set<std::string> mine; for (int f : readable) for (auto &n : s.st.all(f)) mine.insert(n);
        for (auto &f : before) if (!mine.count(f.first)) { auto i = S->disk.files.find(f.first); if (i == S->disk.files.end()) fail(cls, "%s is gone", f.first.c_str()); if (i->second != f.second) fail(cls, "%s was changed", f.first.c_str()); }
        for (auto &f : S->disk.files) if (!mine.count(f.first) && !before.count(f.first)) fail(cls, "%s was created", f.first.c_str());
    }
    std::set<int> readable() const { std::set<int> r; for (auto &m : in) if (m.second.readable) r.insert(m.first); return r; }
};
static const char *STALE = "forward-stale-window";
// compares with both variants; returns true if it is the finding
static bool judge(Run &R, const MStore &right, const MStore &quirk, const char *cls, Outcome &o) {
    std::string w, w2; bool same = true, q = true;
    for (auto &m : right) if (m.second.readable && !same_tracked(S->disk, R.s, m.first, m.second, R.nm[m.first], &w)) { same = false; break; }
    if (same) return false;
    for (auto &m : quirk) if (m.second.readable && !same_tracked(S->disk, R.s, m.first, m.second, R.nm[m.first], &w2)) { q = false; break; }
    if (!q) fail(cls, "%s", w.c_str());
    o.known.push_back({STALE, w}); return true;
}
// ---------------------------------------------------------------- C11
static void gen11(u64 seed, int tier, Plan &p) { Rng r(seed); env(r, p); gen_track(r, p, random_track_gen(r, tier)); if (r.chance(0.15)) { TrackScene s = build_track(p); gen_bad(r, p, s.rig.nc, s.first, s.last); } }
// links of the true trajectories where the scene leaves no doubt; returns how many
static int check_truth(Run &R, const char *cls) {
    const TrackScene &s = R.s; TrackModel M(s); int n = 0; Vol v = traced_volume(s.rig); (void)v;
    if (!clear_scene(s, R.in)) return 0;
    std::map<int, FrameData> fr; for (int f = s.first; f <= s.last; f++) if (!R.bad.all.count(f)) fr[f] = load(s, f, cls);
    auto find = [&](int f, int id) { if (!R.in.count(f) || !R.in[f].readable || !s.id.count(f)) return -1; for (size_t k = 0; k < R.in[f].parts.size(); k++) if (s.id.at(f)[k] == id) return (int)k; return -1; };
    // free of doubt: nothing anywhere unmatched in reach (clear_scene), motion well within the limits
    auto ok_bounds = [&](V3 d) { for (int i = 0; i < 3; i++) if (!(d[i] > 0.9 * s.tp.dv[i][0] && d[i] < 0.9 * s.tp.dv[i][1])) return false; return true; };
    auto ang = [&](V3 a, V3 b, V3 c, double &acc) { V3 u = b - a, w = c - a; acc = len(u - w); double l = len(u) * len(w); return l < 1e-12 ? 0.0 : 200 / M_PI * acos(std::max(-1.0, std::min(1.0, dot(u, w) / l))); };
    auto fits = [&](double acc, double a) { return acc < 0.9 * s.tp.dacc && a < 0.9 * s.tp.dangle; };
    for (int f = s.first; f + 2 <= s.last; f++) {
        if (!s.id.count(f)) continue;
        for (size_t k = 0; k < R.in[f].parts.size(); k++) {
            int id = s.id.at(f)[k], b = find(f + 1, id), c = find(f + 2, id); if (b < 0 || c < 0) continue;
            V3 x0 = R.in[f].parts[k].x, x1 = R.in[f + 1].parts[b].x, x2 = R.in[f + 2].parts[c].x;
            if (!ok_bounds(x1 - x0) || !ok_bounds(x2 - x1)) continue;
            double acc, a = ang(x1, x2, x1 + (x1 - x0), acc); if (!fits(acc, a)) continue;
            // seen where it is expected: enough detections near its place in both frames, all in reach
            auto seen = [&](int g, int i) { int n = 0; for (int q = 0; q < s.rig.nc; q++) n += R.in[g].parts[i].p[q] >= 0; return n; };
            if (seen(f + 1, b) < 2 || seen(f + 2, c) < 2) continue;
            int prev = fr[f].parts[k].prev;
            if (prev >= 0) {   // came from somewhere: then the prediction uses it
                int pid = R.in[f - 1].parts.size() > (size_t)prev ? s.id.at(f - 1)[prev] : -1; if (pid != id) continue;
                V3 xm = R.in[f - 1].parts[prev].x, pred = x0 + (x0 - xm); double acc0, a0 = ang(x0, pred, x1, acc0);
                V3 x5{0.5 * (5 * x1.x - 4 * x0.x + xm.x), 0.5 * (5 * x1.y - 4 * x0.y + xm.y), 0.5 * (5 * x1.z - 4 * x0.z + xm.z)}; double acc1, a1 = ang(x1, x2, x5, acc1);
                if (!fits((acc + acc0 + acc1) / 2, (a + a0 + a1) / 2) || !fits(acc1, a1)) continue;
                // inside the search boxes around the predictions
                if (!ok_bounds(1.6 * (x1 - pred)) || !ok_bounds(1.6 * (x2 - x5))) continue;
            } else {
                if (!ok_bounds(1.6 * (x1 - x0)) || !ok_bounds(1.6 * (x2 - (x1 + (x1 - x0))))) continue;
            }
            int got = fr[f].parts[k].next;
            if (got != b) {
                fail(cls, "particle %zu of frame %d is trajectory %d, which goes on as %d, but is linked to %d", k, f, id, b, got);
            }
            n++;
        }
    }
    return n;
}
static Outcome exec11(const Plan &p) {
    return guarded(p, [&](Outcome &o) {
        Run R(p); MStore a, b; TrackModel A(R.s), B(R.s); bool det = R.model(a, b, A, B);
        R.forward(); S->log("disk %016llx", (unsigned long long)disk_of(R.s));
        stats.inc("links", A.links); stats.inc("contested", A.stolen); stats.inc("added", A.added); stats.inc("candidates", A.cands);
        if (!det) { stats.inc("probe.undetermined"); stats.inc("probe.undetermined: " + (A.ambiguous ? A.why : B.why)); o.trivial = true; return; }
        o.trivial = A.links == 0;
        if (judge(R, a, b, "wrong-link", o)) stats.inc("probe.stale_window");
        int n = check_truth(R, "lost-trajectory"); stats.inc("true_links_checked", n);
        if (n) stats.inc("probe.ground_truth");
    });
}
static Reg r11({"C11", gen11, exec11, 24000, 200000});

// ---------------------------------------------------------------- C09
static void gen09(u64 seed, int tier, Plan &p) {
    Rng r(seed); env(r, p); TrackGen g = random_track_gen(r, tier); if (r.chance(0.5)) { g.dense = true; g.clear = false; g.parts = 6 + (int)r.below(24); } gen_track(r, p, g);
    if (r.chance(0.5)) { TrackScene s = build_track(p); gen_bad(r, p, s.rig.nc, s.first, s.last); }
}
static Outcome exec09(const Plan &p) {
    return guarded(p, [&](Outcome &o) {
        Run R(p); auto get = [&](int f, FrameData &F) { return f >= R.s.first && f <= R.s.last && !R.bad.all.count(f) && get_frame(S->disk, R.s.st, f, true, true, F); };
        R.forward([&](int step) {   // as the pass proceeds: what is stored already answers
            FrameData a, b; if (!get(step, b)) { if (!R.bad.all.count(step)) fail("not-stored", "frame %d was not stored in its step", step); return; }
            bool h = get(step - 1, a); check_links(R.s, step - 1, h ? &a : nullptr, nullptr == &b ? nullptr : &b);
            stats.inc("steps");
        });
        S->log("disk %016llx", (unsigned long long)disk_of(R.s));
        check_all_links(R.s, R.bad.all);
        u64 n = 0; for (int f : R.readable()) for (auto &q : load(R.s, f, "unreadable").parts) n += q.next >= 0;
        stats.inc("links", n); o.trivial = !n;
    });
}
static Reg r09({"C09", gen09, exec09, 24000, 200000});
// ---------------------------------------------------------------- C10
static void gen10(u64 seed, int tier, Plan &p) {
    Rng r(seed); env(r, p); TrackGen g = random_track_gen(r, tier); g.add = r.chance(0.6); if (g.frames < 4 && r.chance(0.7)) g.frames = 4; gen_track(r, p, g);
    TrackScene s = build_track(p); if (r.chance(0.4)) gen_bad(r, p, s.rig.nc, s.first, s.last); if (r.chance(0.3)) gen_bad(r, p, s.rig.nc, s.first, s.last, 1);
    if (r.chance(0.3)) p.put("heal"); if (r.chance(0.5)) p.put("cut", r.uni(0, 0.5), r.below(1u << 30)); if (r.chance(0.3)) p.put("sub", r.below(4), r.below(4));
    if (g.frames >= 4 && r.chance(0.7)) p.put("back");
}
// after: what a pass may do to frame f
static void check_data(const TrackScene &s, int f, const MF &was, size_t nm, bool add) {
    FrameData F = load(s, f, "lost-frame"); int n0 = (int)was.parts.size();
    if ((int)F.parts.size() < n0) fail("lost-particle", "frame %d has %zu particles, there were %d", f, F.parts.size(), n0);
    if ((int)F.parts.size() > n0 && !add) fail("invented-particle", "frame %d has %zu particles, there were %d and none are to be added", f, F.parts.size(), n0);
    for (int k = 0; k < n0; k++) {
        for (int i = 0; i < 3; i++) if (fabs(F.parts[k].x[i] - was.parts[k].x[i]) > 1e-9) fail("moved", "particle %d of frame %d is at %s, it was at (%.3f %.3f %.3f)", k, f, show(F.parts[k]).c_str(), was.parts[k].x.x, was.parts[k].x.y, was.parts[k].x.z);
        for (int i = 0; i < 4; i++) if (F.parts[k].p[i] != was.parts[k].p[i]) fail("correspondence", "particle %d of frame %d has target %d in camera %d, it had %d", k, f, F.parts[k].p[i], i, was.parts[k].p[i]);
    }
    for (size_t c = 0; c < was.tg.size(); c++) {
        auto &a = F.targets[c]; auto &b = was.tg[c]; if (a.size() != b.size()) fail("lost-target", "frame %d has %zu targets in camera %zu, there were %zu", f, a.size(), c, b.size());
        for (size_t k = 0; k < a.size(); k++) {
            const T2 &g = a[k], &m = b[k];
            if (g.pnr != m.pnr || fabs(g.x - m.x) > 1e-9 || fabs(g.y - m.y) > 1e-9 || g.n != m.n || g.nx != m.nx || g.ny != m.ny || g.sumg != m.sumg) fail("target", "target %zu of camera %zu of frame %d is %s, it was %s", k, c, f, show(g).c_str(), show(m).c_str());
            if (g.tnr == m.tnr) continue;
            if (!add || m.tnr != -1 || g.tnr < n0 || g.tnr >= (int)F.parts.size()) fail("target-mark", "target %zu of camera %zu of frame %d belongs to particle %d, it belonged to %d", k, c, f, g.tnr, m.tnr);
        }
    }
    for (int k = n0; k < (int)F.parts.size(); k++) {   // added particles: which targets they use, and where they are
        int n = 0; std::vector<std::pair<int, std::pair<double, double>>> fl; stats.inc("added");
        for (int c = 0; c < 4; c++) {
            int t = F.parts[k].p[c]; if (t == -1) continue; if (c >= s.rig.nc || t < 0 || t >= (int)F.targets[c].size()) fail("added-range", "added particle %d of frame %d uses target %d of camera %d", k, f, t, c);
            if (F.targets[c][t].tnr != k) fail("added-mark", "added particle %d of frame %d uses target %d of camera %d, which belongs to %d", k, f, t, c, F.targets[c][t].tnr);
            n++; double x, y; if (flatten(s.rig, c, F.targets[c][t].x, F.targets[c][t].y, x, y)) fl.push_back({c, {x, y}});
        }
        if (n < 2) fail("added-unseen", "added particle %d of frame %d is seen by %d cameras", k, f, n);
        // pixels come out up to 0.1 off in flattening with a coarse tolerance
        V3 m = intersect(s.rig, fl); double lim = s.tol > 1 ? 5 : 0.1; if ((int)fl.size() == n && !(len(m - V3{F.parts[k].x[0], F.parts[k].x[1], F.parts[k].x[2]}) < lim)) fail("added-place", "added particle %d of frame %d is at %s, its targets meet at (%.3f %.3f %.3f)", k, f, show(F.parts[k]).c_str(), m.x, m.y, m.z);
    }
    (void)nm;
}
static Outcome exec10(const Plan &p) {
    return guarded(p, [&](Outcome &o) {
        Run R(p); R.forward(); S->log("disk %016llx", (unsigned long long)disk_of(R.s));
        auto rd = R.readable(); R.check_untouched("untouched", rd); for (int f : rd) check_data(R.s, f, R.in[f], R.nm[f], R.s.tp.add); o.trivial = rd.empty();
        u64 n = 0; for (int f : rd) n += R.in[f].parts.size(); stats.inc("particles", n); if (!n) o.trivial = true;
        if (!p.find("back")) return;
        R.between(p); R.backward(); S->log("disk %016llx", (unsigned long long)disk_of(R.s));
        R.before = R.before2; std::set<int> rd2; for (auto &m : R.in2) if (m.second.readable) rd2.insert(m.first);
        R.check_untouched("untouched-backward", rd2); for (int f : rd2) check_data(R.s, f, R.in2[f], 0, R.s.tp.add);
        stats.inc("backward_passes");
    });
}
static Reg r10({"C10", gen10, exec10, 24000, 200000});
// ---------------------------------------------------------------- C12
static void gen12(u64 seed, int tier, Plan &p) {
    Rng r(seed); env(r, p); TrackGen g = random_track_gen(r, tier); g.frames = std::max(g.frames, 4); g.parts = std::max(g.parts, 4); gen_track(r, p, g);
    TrackScene s = build_track(p); if (r.chance(0.2)) gen_bad(r, p, s.rig.nc, s.first, s.last); if (r.chance(0.25)) gen_bad(r, p, s.rig.nc, s.first, s.last, 1);
    if (r.chance(0.3)) p.put("heal"); if (r.chance(0.9)) p.put("cut", r.uni(0.05, 0.9), r.below(1u << 30)); if (r.chance(0.4)) p.put("sub", r.below(4), r.below(4));
}
// links a backward pass found and left: kept, and new ones in order
static u64 check_kept(const TrackScene &s, const MStore &was, const std::set<int> &rd) {
    std::map<int, FrameData> fr; for (int f : rd) fr[f] = load(s, f, "unreadable"); u64 n = 0;
    for (int f : rd) for (size_t k = 0; k < was.at(f).parts.size(); k++) {
        const MP &w = was.at(f).parts[k]; const P3 &g = fr[f].parts.at(k);
        if (w.next != -2 && g.next != w.next) fail("link-changed", "particle %zu of frame %d went on to %d, now to %d", k, f, w.next, g.next);
        if (w.prev != -1 && g.prev != w.prev) fail("link-changed", "particle %zu of frame %d came from %d, now from %d", k, f, w.prev, g.prev);
        if (g.prev != w.prev) {
            n++; if (!fr.count(f - 1)) fail("link-out", "particle %zu of frame %d now comes from a frame that could not be read", k, f);
            auto &a = fr[f - 1].parts; if (g.prev < 0 || g.prev >= (int)a.size()) fail("link-range", "particle %zu of frame %d comes from %d of %zu", k, f, g.prev, a.size());
            if (a[g.prev].next != (int)k) fail("link-unanswered", "particle %zu of frame %d now comes from %d, which goes on to %d", k, f, g.prev, a[g.prev].next);
            if (was.at(f - 1).parts[g.prev].next != -2) fail("link-taken", "particle %zu of frame %d now comes from %d, which already went on to %d", k, f, g.prev, was.at(f - 1).parts[g.prev].next);
            if (g.next == -2) fail("link-new", "particle %zu of frame %d was given a predecessor though it goes nowhere", k, f);
            V3 d = w.x - was.at(f - 1).parts[g.prev].x; for (int i = 0; i < 3; i++) if (!(d[i] > s.tp.dv[i][0] - 1e-9 && d[i] < s.tp.dv[i][1] + 1e-9)) fail("link-limits", "the link from %d of frame %d to %zu exceeds the velocity limits", g.prev, f - 1, k);
        }
        if (g.next != w.next) {
            if (!fr.count(f + 1)) fail("link-out", "particle %zu of frame %d now goes on to a frame that could not be read", k, f);
            auto &b = fr[f + 1].parts; if (g.next < 0 || g.next >= (int)b.size()) fail("link-range", "particle %zu of frame %d goes on to %d of %zu", k, f, g.next, b.size());
            if (b[g.next].prev != (int)k) fail("link-unanswered", "particle %zu of frame %d now goes on to %d, which comes from %d", k, f, g.next, b[g.next].prev);
        }
    }
    return n;
}
static Outcome exec12(const Plan &p) {
    return guarded(p, [&](Outcome &o) {
        Run R(p); if (R.s.last - R.s.first < 3) fail("invalid", "short sequence");
        R.forward(); R.between(p); bool sure = true; u64 n = 0;
        for (int pass = 0; pass < 2; pass++) {
            MStore want = R.in2; TrackModel A(R.s); A.backward(want, false); if (A.ambiguous) { sure = false; stats.inc("probe.undetermined"); }
            R.backward(); S->log("disk %016llx", (unsigned long long)disk_of(R.s));
            std::set<int> rd; for (auto &m : R.in2) if (m.second.readable) rd.insert(m.first);
            u64 k = check_kept(R.s, R.in2, rd); n += k; stats.inc(pass ? "links_added_again" : "links_added", k);
            if (sure) for (int f : rd) check_tracked("wrong-backward-link", S->disk, R.s, f, want[f], R.in2[f].parts.size());
            R.before = R.before2; R.check_untouched("untouched", rd);
            R.before2 = S->disk.files; std::vector<Fault> keep; for (auto &f : S->faults) if (f.sticky) keep.push_back(f); S->faults = keep;
            std::set<int> bad; for (int f : R.bad.lasting) bad.insert(f); for (int f : R.bad2.lasting) bad.insert(f); R.in2 = model_input(R.s, bad, true);
        }
        o.trivial = !n;
    });
}
static Reg r12({"C12", gen12, exec12, 24000, 200000});
// ---------------------------------------------------------------- C17
static void gen17(u64 seed, int tier, Plan &p) {
    Rng r(seed); env(r, p); TrackGen g = random_track_gen(r, tier); g.frames += 2; gen_track(r, p, g);
    TrackScene s = build_track(p); gen_bad(r, p, s.rig.nc, s.first, s.last); if (r.chance(0.3)) gen_bad(r, p, s.rig.nc, s.first, s.last); if (r.chance(0.4)) gen_bad(r, p, s.rig.nc, s.first, s.last, 1);
    if (r.chance(0.4)) p.put("cut", r.uni(0, 0.5), r.below(1u << 30)); if (r.chance(0.3)) p.put("heal"); if (g.frames >= 4 && r.chance(0.6)) p.put("back"); if (r.chance(0.4)) p.put("retry");
}
static void check_gaps(const TrackScene &s, const std::set<int> &rd) {   // nothing leads into a frame that was not there
    for (int f : rd) { FrameData F = load(s, f, "unreadable"); for (size_t k = 0; k < F.parts.size(); k++) {
        if (F.parts[k].next != -2 && !rd.count(f + 1)) fail("link-into-gap", "particle %zu of frame %d goes on to %d of a frame that could not be read", k, f, F.parts[k].next);
        if (F.parts[k].prev != -1 && !rd.count(f - 1)) fail("link-into-gap", "particle %zu of frame %d comes from %d of a frame that could not be read", k, f, F.parts[k].prev);
    } }
}
static Outcome exec17(const Plan &p) {
    return guarded(p, [&](Outcome &o) {
        Run R(p); auto rd = R.readable(); stats.inc("unreadable_frames", R.s.last - R.s.first + 1 - rd.size());
        bool gap = (int)rd.size() < R.s.last - R.s.first + 1;
        MStore a, b; TrackModel A(R.s), B(R.s); bool det = R.model(a, b, A, B); Outcome dummy;
        R.forward(); S->log("disk %016llx", (unsigned long long)disk_of(R.s));
        R.check_untouched("untouched", rd); check_gaps(R.s, rd);
        if (det) { judge(R, a, b, "wrong-link", dummy); int n = check_truth(R, "lost-trajectory"); stats.inc("true_links_checked", n); } else stats.inc("probe.undetermined");
        o.trivial = !gap || !A.links;
        if (p.find("back") && R.s.last - R.s.first >= 3) {
            R.between(p); MStore want = R.in2; TrackModel C(R.s); C.backward(want, false);
            R.backward(); S->log("disk %016llx", (unsigned long long)disk_of(R.s));
            std::set<int> rd2; for (auto &m : R.in2) if (m.second.readable) rd2.insert(m.first);
            R.before = R.before2; R.check_untouched("untouched-backward", rd2); check_kept(R.s, R.in2, rd2);
            if (!C.ambiguous) for (int f : rd2) check_tracked("wrong-backward-link", S->disk, R.s, f, want[f], R.in2[f].parts.size());
            stats.inc("backward_passes");
        }
        if (p.find("retry") && !R.s.tp.add) {   // all frames are back: nothing of the interruption remains
            S->clear_faults(); R.s = build_track(p); R.s.put(S->disk); R.bad = BadFrames(); R.in = model_input(R.s, {}, false); R.nm = measured(R.in);
            MStore c, d; TrackModel E(R.s), F(R.s); if (!R.model(c, d, E, F)) return;
            R.forward(); judge(R, c, d, "not-recovered", dummy); stats.inc("retries");
        }
    });
}
static Reg r17({"C17", gen17, exec17, 24000, 200000});
