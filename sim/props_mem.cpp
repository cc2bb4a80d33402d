// C06 nothing leaks, C07 running out of memory is survived.
#include "ops.h"
// ---------------------------------------------------------------- C06
static void env(Rng &r, Plan &p) { p.put("env", r.below(1u << 30), r.below(1u << 30), r.chance(0.4) ? 1 + (int)r.below(300) : 0, (int)r.below(3)); }
static const char *FK[] = {"open", "read", "write", "close"};
static void gen06(u64 seed, int tier, Plan &p) {
    Rng r(seed); env(r, p); int n = 2 + (int)r.below(tier ? 8 : 4);
    for (int k = 0; k < n; k++) {
        std::string kind = r.chance(0.01) ? "legacy" : r.chance(0.35) ? "settings" : r.pick(op_kinds()); if (kind == "track" && r.chance(0.5)) kind = "frame";
        p.put("op", kind, r.below(1u << 30), r.chance(0.3) ? 1 : 0);
        int m = (int)r.below(4); bool io = op_has_io(kind), oom = op_survives_oom(kind);
        for (int j = 0; j < m; j++) {
            if (oom && r.chance(0.7)) p.put("oom", r.below(1000000), r.below(2));
            else if (io) switch (r.below(5)) {
                case 0: p.put("cut", r.below(1000000), r.below(1000000)); break;
                case 1: p.put("missing", r.below(1000000)); break;
                default: p.put("fail", FK[r.below(4)], r.below(1000000), r.chance(0.2) ? 0 : r.below(1000000), r.below(2)); break;
            }
        }
        if (kind == "legacy") break;
    }
}
struct Block { const Line *op; std::vector<const Line *> faults; };
static std::vector<Block> blocks(const Plan &p, const char *head) {
    std::vector<Block> b;
    for (auto &l : p.lines) if (l.kind() == head) { if (b.size() >= 40) break; b.push_back({&l, {}}); } else if (!b.empty() && l.kind() != "env") b.back().faults.push_back(&l);
    return b;
}
static void released(const std::string &what) { std::string l = S->leak_report(); if (!l.empty()) fail("leak", "%s: %s", what.c_str(), l.c_str()); }
static Outcome exec06(const Plan &p) {
    return guarded(p, [&](Outcome &o) {
        int k = 0; o.trivial = true;
        for (auto &b : blocks(p, "op")) {
            std::string kind = b.op->s(1), pre = "o" + std::to_string(k++) + "/"; u64 seed = (u64)b.op->i(2); int size = (int)b.op->i(3);
            auto op = make_op(kind, seed, size, pre); op->files(S->disk); std::vector<std::string> in; for (auto &f : S->disk.files) if (f.first.compare(0, pre.size(), pre) == 0) in.push_back(f.first);
            u64 a0 = 0, a1 = 0; lib([&] { op->setup(); a0 = S->alloc_count; op->call(); a1 = S->alloc_count; op->digest(); op->release(); });
            if (op->failed && kind != "window" && kind != "save") { if (kind == "match" || kind == "orient") {} else fail("internal", "%s failed without a reason", kind.c_str()); }
            released(kind + " that succeeded"); stats.inc("op." + kind); o.trivial = false; S->log("%s %016llx", kind.c_str(), (unsigned long long)hash_str(op->out.t));
            std::vector<std::string> all; for (auto &f : S->disk.files) if (f.first.compare(0, pre.size(), pre) == 0) all.push_back(f.first);
            std::map<std::string, std::string> after = S->disk.files;
            for (auto f : b.faults) {
                for (auto i = S->disk.files.lower_bound(pre); i != S->disk.files.end() && i->first.compare(0, pre.size(), pre) == 0;) i = S->disk.files.erase(i);
                op = make_op(kind, seed, size, pre); op->files(S->disk); if (all.empty() && f->kind() != "oom") continue;
                std::string path = all.empty() ? "" : all[(u64)llabs(f->i(f->kind() == "fail" ? 2 : 1)) % all.size()];
                if (f->kind() == "cut") { if (in.empty()) continue; path = in[(u64)llabs(f->i(1)) % in.size()]; std::string &t = S->disk.files[path]; t.resize(t.size() * ((u64)llabs(f->i(2)) % 1000000) / 1000000); stats.inc("fault.truncated"); }
                else if (f->kind() == "missing") { if (in.empty()) continue; S->disk.files.erase(in[(u64)llabs(f->i(1)) % in.size()]); stats.inc("fault.missing"); }
                bool oom = f->kind() == "oom" && op_survives_oom(kind); u64 at = a1 > a0 ? (u64)llabs(f->i(1)) % (a1 - a0) : 0;
                lib([&] {
                    op->setup();
                    if (f->kind() == "fail") {
                        Fault x; x.kind = f->s(1) == "open" ? F_OPEN : f->s(1) == "read" ? F_READ : f->s(1) == "write" ? F_WRITE : F_CLOSE; x.match = "=" + path; x.sticky = f->i(4) != 0;
                        x.at = x.kind == F_READ || x.kind == F_WRITE ? (i64)(after[path].size() * ((u64)llabs(f->i(3)) % 1000000) / 1000000) : 0; S->faults.push_back(x);
                    } else if (oom && a1 > a0) { S->start_alloc_faults(); if (f->i(2)) { S->fail_all_after = true; S->fail_after = at; } else S->alloc_fail.insert(at); }
                    op->call();
                    for (auto &x : S->faults) if (x.fired) stats.inc("fault." + f->s(1)); if (oom && S->allocs_failed) stats.inc("fault.alloc"); S->allocs_failed = 0;
                    S->clear_faults(); S->clear_alloc_faults(); op->release();
                });
                if (op->failed) stats.inc("probe.failed_call"); S->log("%s %d", f->kind().c_str(), op->failed);
                released(kind + (op->failed ? " that failed" : " in spite of " + f->kind()));
            }
        }
    });
}
static Reg r06({"C06", gen06, exec06, 20000, 300000});
// ---------------------------------------------------------------- C07
static void gen07(u64 seed, int tier, Plan &p) {
    Rng r(seed); env(r, p); int n = 1 + (int)r.below(3);
    for (int k = 0; k < n; k++) {
        p.put("op", r.chance(0.6) ? "match" : r.chance(0.7) ? "prepare" : "image", r.below(1u << 30), r.chance(0.4) ? 1 : 0); int m = 1 + (int)r.below(tier ? 12 : 6);
        for (int j = 0; j < m; j++) { p.put("oom", r.below(1000000), r.chance(0.3)); if (r.chance(0.15)) p.put("also", r.below(1000000)); }
    }
}
static Outcome exec07(const Plan &p) {
    return guarded(p, [&](Outcome &o) {
        int k = 0; o.trivial = true;
        for (auto &b : blocks(p, "op")) {
            std::string kind = b.op->s(1), pre = "o" + std::to_string(k++) + "/"; if (!op_survives_oom(kind)) fail("invalid", "operation"); u64 seed = (u64)b.op->i(2); int size = (int)b.op->i(3);
            auto ref = make_op(kind, seed, size, pre); ref->files(S->disk); u64 a0 = 0, a1 = 0;
            lib([&] { ref->setup(); a0 = S->alloc_count; ref->call(); a1 = S->alloc_count; ref->digest(); ref->release(); });
            if (a1 == a0) continue;
            for (size_t j = 0; j < b.faults.size(); j++) {
                auto f = b.faults[j]; if (f->kind() != "oom") continue;
                auto op = make_op(kind, seed, size, pre); std::string what; u64 at = (u64)llabs(f->i(1)) % (a1 - a0);
                lib([&] {
                    op->setup(); Dig before, mid; op->inputs(before); S->start_alloc_faults(); S->allocs_failed = 0;
                    if (f->i(2)) { S->fail_all_after = true; S->fail_after = at; } else S->alloc_fail.insert(at);
                    if (j + 1 < b.faults.size() && b.faults[j + 1]->kind() == "also") S->alloc_fail.insert((u64)llabs(b.faults[j + 1]->i(1)) % (a1 - a0));
                    op->call(); u64 hit = S->allocs_failed; S->clear_alloc_faults(); S->allocs_failed = 0; op->inputs(mid);
                    what = kind + ", allocation " + std::to_string(at) + " of " + std::to_string(a1 - a0) + (f->i(2) ? " and later" : "");
                    if (!hit) fail("internal", "%s did not fail", what.c_str());
                    stats.inc("fault.alloc", hit); o.trivial = false;
                    if (!op->failed) fail("not-reported", "%s: the call does not report that memory ran out", what.c_str());
                    if (before.t != mid.t) fail("inputs", "%s: inputs changed: %s", what.c_str(), first_difference(before.t, mid.t).c_str());
                    op->failed = false; op->call(); op->digest(); op->release();
                    if (op->out.t != ref->out.t) fail("retry", "%s: repeated with memory available: %s", what.c_str(), first_difference(ref->out.t, op->out.t).c_str());
                });
                S->log("%s", what.c_str());
                released(what);
            }
        }
    });
}
static Reg r07({"C07", gen07, exec07, 12000, 200000});
