// C13: processes that die while tracking, and what their successors find.
#include "trackscene.h"
#include <memory>
typedef std::map<std::string, std::string> Files;
static void gen(u64 seed, int tier, Plan &p) {
    Rng r(seed); p.put("env", r.below(1u << 30), r.below(1u << 30), r.chance(0.3) ? 1 + (int)r.below(300) : 0, (int)r.below(3));
    TrackGen g = random_track_gen(r, 0); g.add = r.chance(0.25); g.parts = 1 + (int)r.below(g.dense ? 9 : 5); g.frames = 3 + (int)r.below(tier ? 7 : 5); if (g.nc > 2 && r.chance(0.5)) g.nc = 2; g.outside = r.chance(0.2);
    gen_track(r, p, g);
    if (r.chance(0.3)) p.put("earlier", r.uni(0, 0.8), r.below(1u << 30));   // results of an earlier pass are there
    int n = 1 + (int)r.below(tier ? 5 : 3);
    for (int k = 0; k < n; k++) p.put("crash", r.chance(0.6) ? 0 : 1, r.below(1000000), r.below(1u << 30), r.below(2));
    if (r.chance(0.4)) p.put("crashback", r.chance(0.6) ? 0 : 1, r.below(1000000));
}
static void fresh_process(u64 seed) {
    S->drop_process(); restore_globals(); S->heap_rng = Rng(mix(S->heap_seed, seed)); g_stack_seed = mix(S->heap_seed, seed + 1); S->crash_at_io = S->crash_at_point = -1;
}
static Files frame_files(const TrackScene &s, int f) { Files r; for (auto &n : s.st.all(f)) { auto i = S->disk.files.find(n); if (i != S->disk.files.end()) r[n] = i->second; } return r; }
static Files pick(const TrackScene &s, int f, const Files &from) { Files r; for (auto &n : s.st.all(f)) { auto i = from.find(n); if (i != from.end()) r[n] = i->second; } return r; }
struct Cost { u64 io, points; };
static FiberEnd pass(const TrackScene &s, bool back, std::unique_ptr<LibTrack> &T, Cost *c = nullptr) {
    u64 io = S->io_ops, pt = S->points;
    FiberEnd e = run_fiber([&] { T.reset(new LibTrack(s)); if (back) T->backward(); else T->forward(); T->drop(); });
    if (c) { c->io = S->io_ops - io; c->points = S->points - pt; }
    if (e == FE_HANG) fail("hang", "tracking did not end");
    return e;
}
// after a crash: everything but at most one frame as before or as in the finished pass; returns the damaged frame or -1
static int check_after(const TrackScene &s, const Files &before, const Files &final, const char *what) {
    int hurt = -1; std::set<std::string> mine;
    for (int f = s.first; f <= s.last; f++) {
        for (auto &n : s.st.all(f)) mine.insert(n);
        Files now = frame_files(s, f);
        if (now == pick(s, f, before) || now == pick(s, f, final)) continue;
        if (hurt >= 0) fail("two-frames", "%s: frames %d and %d are both neither as before nor as after the pass", what, hurt, f);
        hurt = f;
        // a file of it not yet begun, finished, or partly written
        std::string t; for (auto &n : s.st.all(f)) t += n + " ";
    }
    for (auto &f : before) if (!mine.count(f.first)) { auto i = S->disk.files.find(f.first); if (i == S->disk.files.end() || i->second != f.second) fail("outside", "%s: %s outside the sequence was changed", what, f.first.c_str()); }
    for (auto &f : S->disk.files) if (!mine.count(f.first) && !before.count(f.first)) fail("outside", "%s: %s was created", what, f.first.c_str());
    // whatever is not complete is reported by reading it
    for (int f = s.first; f <= s.last; f++) for (int links = 0; links < 2; links++) {
        FrameData F; std::string why; bool whole = get_frame(S->disk, s.st, f, links, links, F, &why); int ok = -1;
        lib([&] {
            Names nm(s.st); frame fr; frame_init(&fr, s.rig.nc, s.max_targets());
            ok = read_frame(&fr, nm.c(), links ? nm.l() : NULL, links ? nm.p() : NULL, nm.i(), f);
            if (ok && whole) check_frame("misread", "frame " + std::to_string(f), &fr, links ? F : with_defaults(F, false, false));
            free_frame(&fr);
        });
        if (ok && !whole) fail("torn-read", "%s: frame %d was read though it is not complete (%s)", what, f, why.c_str());
        if (!ok && whole) fail("not-read", "%s: frame %d is complete but was not read", what, f);
    }
    return hurt;
}
static Outcome exec(const Plan &p) {
    return guarded(p, [&](Outcome &o) {
        TrackScene s = build_track(p); if (!s.ok) fail("invalid", "scene");
        s.put(S->disk); std::unique_ptr<LibTrack> T;
        if (auto l = p.find("earlier")) {   // an earlier pass, of which some links were lost
            if (pass(s, false, T) != FE_DONE) fail("internal", "reference");
            if (s.tp.add) s.put(S->disk);
            for (int f = s.first; f <= s.last; f++) if (hash_uni(hash3(l->i(2), f, 1)) < l->d(1)) { S->disk.files.erase(s.st.f_linkage(f)); S->disk.files.erase(s.st.f_prio(f)); }
            fresh_process(1);
        }
        Files start = S->disk.files; Cost c;
        if (pass(s, false, T, &c) != FE_DONE) fail("internal", "reference");
        Files final = S->disk.files; fresh_process(2); S->disk.files = start;
        int k = 0, crashes = 0, hurt = 0;
        for (auto &l : p.lines) if (l.kind() == "crash" && k < 12) {
            k++; Files before = S->disk.files; u64 at = (u64)llabs(l.i(2)) % 1000000;
            if (l.i(1) == 0) S->crash_at_io = S->io_ops + c.io * at / 1000000; else S->crash_at_point = S->points + c.points * at / 1000000;
            FiberEnd e = pass(s, false, T);
            fresh_process(10 + k);
            if (e == FE_DONE) { stats.inc("crash_too_late"); break; }
            crashes++; stats.inc("crashes");
            int h = check_after(s, before, final, "forward pass"); if (h >= 0) { hurt++; stats.inc("frames_hurt"); }
            S->log("crash %d hurt %d", k, h);
            if (s.tp.add) { S->disk.files = start; continue; }   // repeating is only promised without adding
            // put the inputs of that frame back; sometimes also remove its half-written results
            if (h >= 0) { for (auto &n : s.st.all(h)) { bool input = n != s.st.f_linkage(h) && n != s.st.f_prio(h); auto i = start.find(n); if (input && i != start.end()) S->disk.files[n] = i->second; else if (!input && l.i(4)) S->disk.files.erase(n); } }
        }
        o.trivial = !crashes;
        if (!s.tp.add) {
            if (pass(s, false, T) != FE_DONE) fail("internal", "repeat");
            for (auto &f : final) { auto i = S->disk.files.find(f.first); if (i == S->disk.files.end()) fail("not-repeated", "%s is missing after the repeated pass", f.first.c_str()); if (i->second != f.second) fail("not-repeated", "%s differs after the repeated pass", f.first.c_str()); }
            for (auto &f : S->disk.files) if (!final.count(f.first)) fail("not-repeated", "%s is left over after the repeated pass", f.first.c_str());
        } else { S->disk.files = final; }
        fresh_process(3);
        if (auto l = p.find("crashback")) if (s.last - s.first >= 3) {
            Files b = S->disk.files; Cost cb; if (pass(s, true, T, &cb) != FE_DONE) fail("internal", "backward reference");
            Files fin = S->disk.files; fresh_process(4); S->disk.files = b; u64 at = (u64)llabs(l->i(2)) % 1000000;
            if (l->i(1) == 0) S->crash_at_io = S->io_ops + cb.io * at / 1000000; else S->crash_at_point = S->points + cb.points * at / 1000000;
            FiberEnd e = pass(s, true, T); fresh_process(5);
            if (e == FE_CRASH) { stats.inc("crashes_backward"); int h = check_after(s, b, fin, "backward pass"); if (h >= 0) stats.inc("frames_hurt"); S->log("back hurt %d", h); o.trivial = false; }
        }
    });
}
static Reg r13({"C13", gen, exec, 10000, 80000});
