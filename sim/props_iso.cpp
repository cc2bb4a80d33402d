// C14 results depend only on the inputs, C15 independent callers do not disturb each other.
#include <algorithm>
#include "ops.h"
static void env(Rng &r, Plan &p) { p.put("env", r.below(1u << 30), r.below(1u << 30), r.chance(0.3) ? 1 + (int)r.below(300) : 0, (int)r.below(3)); }
static void gen14(u64 seed, int tier, Plan &p) {
    Rng r(seed); env(r, p); int n = 1 + (int)r.below(2);
    for (int k = 0; k < n; k++) p.put("main", r.chance(0.003) ? "legacy" : r.pick(op_kinds()), r.below(1u << 30), r.chance(0.4) ? 1 : 0, r.chance(0.7) ? 1 + r.below(1u << 30) : 0);
    int m = (int)r.below(tier ? 8 : 5);
    for (int k = 0; k < m; k++) p.put("earlier", r.chance(0.4) ? p.lines[1 + r.below(n)].s(1) : r.pick(op_kinds()), r.below(1u << 30), (int)r.below(2), r.chance(0.5) ? 0 : 1 + (int)r.below(6), r.below(1000000));
    for (int k = (int)r.below(3); k > 0; k--) p.put("variant", (int)r.below(n), r.below(1u << 30));
    p.put("heap", r.below(1u << 30));
}
static void remake_heap(u64 s) { S->heap_rng = Rng(mix(S->heap_seed, s)); g_stack_seed = mix(S->heap_seed, s + 7); }
static Outcome exec14(const Plan &p) {
    return guarded(p, [&](Outcome &o) {
        struct M { const Line *l; std::string ref; }; std::vector<M> mains; int k = 0;
        for (auto &l : p.lines) if (l.kind() == "main" && mains.size() < 6) mains.push_back({&l, ""});
        for (auto &m : mains) {   // each in a process of its own
            S->drop_process(); restore_globals(); remake_heap(3); S->disk.files.clear();
            auto op = make_op(m.l->s(1), m.l->i(2), (int)m.l->i(3), "m/"); op->files(S->disk); lib([&] { op->everything(); }); m.ref = op->out.t; stats.inc("op." + op->kind);
            S->log("%016llx", (unsigned long long)hash_str(m.ref));
        }
        S->drop_process(); restore_globals(); S->disk.files.clear(); remake_heap(100 + p.geti("heap", 1));
        for (auto &l : p.lines) if (l.kind() == "earlier" && k < 20) {
            std::string pre = "e" + std::to_string(k++) + "/"; auto op = make_op(l.s(1), l.i(2), (int)l.i(3), pre); op->files(S->disk); u64 at = (u64)llabs(l.i(5)) % 1000000; int how = (int)l.i(4);
            std::vector<std::string> in; for (auto &f : S->disk.files) if (f.first.compare(0, pre.size(), pre) == 0) in.push_back(f.first);
            lib([&] {
                op->setup();
                if (how == 1 && !in.empty()) S->disk.files.erase(in[at % in.size()]);
                if (how == 2 && !in.empty()) { auto &t = S->disk.files[in[at % in.size()]]; t.resize(t.size() * at / 1000000); }
                if (how == 3 || how == 4) { Fault f; f.kind = how == 3 ? F_READ : F_WRITE; f.match = pre; f.at = (i64)(at % 300); S->faults.push_back(f); }
                if (how == 5) { Fault f; f.kind = F_OPEN; f.match = pre; f.at = (i64)(at % 5); S->faults.push_back(f); }
                if (how == 6 && op_survives_oom(op->kind)) { S->start_alloc_faults(); S->alloc_fail.insert(at % 20); }
                op->call(); if (S->faults_fired()) stats.inc("fault.earlier_call"); S->clear_faults(); S->clear_alloc_faults(); S->allocs_failed = 0; op->release();
            });
            stats.inc("probe.earlier_calls");
        }
        k = 0;
        for (auto &l : p.lines) if (l.kind() == "variant" && k++ < 10 && !mains.empty()) {   // the same calls with nearly the same inputs, at the same place
            auto &m = mains[(u64)llabs(l.i(1)) % mains.size()]; Rng vr((u64)l.i(2)); auto op = make_op(m.l->s(1), m.l->i(2), (int)m.l->i(3), "m/"); op->vary(vr); op->files(S->disk);
            lib([&] { op->setup(); op->call(); op->release(); }); stats.inc("probe.variant_calls");
            for (auto i = S->disk.files.lower_bound("m/"); i != S->disk.files.end() && i->first.compare(0, 2, "m/") == 0;) i = S->disk.files.erase(i);
        }
        for (auto &m : mains) for (int round = 0; round < 2; round++) {
            for (auto i = S->disk.files.lower_bound("m/"); i != S->disk.files.end() && i->first.compare(0, 2, "m/") == 0;) i = S->disk.files.erase(i);
            auto op = make_op(m.l->s(1), m.l->i(2), (int)m.l->i(3), "m/"); op->files(S->disk); Rng dr((u64)m.l->i(4)); bool reuse = m.l->i(4) && round == 0;
            lib([&] { op->setup(); if (reuse) { op->dirty(dr); stats.inc("probe.reused_objects"); } op->call(); op->digest(); op->release(); });
            if (op->out.t != m.ref) fail("differs", "%s%s: %s", m.l->s(1).c_str(), reuse ? " with objects used before" : " later in the process", first_difference(m.ref, op->out.t).c_str());
        }
        o.trivial = mains.empty();
    });
}
static Reg r14({"C14", gen14, exec14, 24000, 200000});
// ---------------------------------------------------------------- C15
static void gen15(u64 seed, int tier, Plan &p) {
    Rng r(seed); env(r, p); int n = 2 + (int)r.below(3); std::string same = r.chance(0.5) ? r.pick(op_kinds()) : "";
    for (int k = 0; k < n; k++) p.put("caller", same.empty() || r.chance(0.2) ? r.pick(op_kinds()) : same, r.below(1u << 30), tier && r.chance(0.3) ? 1 : 0);
    int style = (int)r.below(3), m = style == 0 ? 1 + (int)r.below(6) : style == 1 ? 10 + (int)r.below(60) : 100 + (int)r.below(tier ? 1500 : 400);
    if (style == 2) p.put("every", 1 + r.below(r.chance(0.5) ? 40 : 3000), r.below(1u << 30)); else for (int k = 0; k < m; k++) p.put("switch", r.below(1000000), (int)r.below(n));
    int c = 0; for (int k = 0; k < 12; k++) { c += 1 + (int)r.below(3); p.put("shared", c, (int)r.below(n)); }
}
static Outcome exec15(const Plan &p) {
    return guarded(p, [&](Outcome &o) {
        std::vector<const Line *> c; for (auto &l : p.lines) if (l.kind() == "caller" && c.size() < 6) c.push_back(&l);
        if (c.size() < 2) { o.trivial = true; return; }
        std::vector<std::string> ref; u64 total = 0;
        for (size_t k = 0; k < c.size(); k++) {
            S->drop_process(); restore_globals(); std::string pre = "t" + std::to_string(k) + "/"; auto op = make_op(c[k]->s(1), c[k]->i(2), (int)c[k]->i(3), pre); op->files(S->disk); u64 p0 = S->points;
            lib([&] { op->everything(); }); total += S->points - p0; ref.push_back(op->out.t); S->log("%016llx", (unsigned long long)hash_str(op->out.t)); stats.inc("op." + op->kind);
        }
        S->drop_process(); restore_globals(); S->disk.files.clear(); std::vector<std::unique_ptr<Op>> ops; std::vector<std::function<void()>> fns;
        for (size_t k = 0; k < c.size(); k++) { ops.push_back(make_op(c[k]->s(1), c[k]->i(2), (int)c[k]->i(3), "t" + std::to_string(k) + "/")); ops[k]->files(S->disk); Op *q = ops[k].get(); fns.push_back([q] { q->everything(); }); }
        Schedule sch;
        for (auto &l : p.lines) {
            if (l.kind() == "switch") sch.switches.push_back({total * ((u64)llabs(l.i(1)) % 1000000) / 1000000 + 1, (int)llabs(l.i(2)) % (int)c.size()});
            else if (l.kind() == "shared") sch.at_shared.push_back({(u64)llabs(l.i(1)), (int)llabs(l.i(2)) % (int)c.size()});
            else if (l.kind() == "every") { u64 e = std::max<u64>(1, (u64)llabs(l.i(1))), at = 0; Rng r((u64)l.i(2)); while (at < total && sch.switches.size() < 3000) { at += 1 + r.below(2 * e); sch.switches.push_back({at, (int)r.below(c.size())}); } }
        }
        std::sort(sch.switches.begin(), sch.switches.end()); std::sort(sch.at_shared.begin(), sch.at_shared.end());
        if (!run_concurrent(fns, sch)) fail("hang", "callers running at the same time did not end");
        u64 h = 5; int sw = 0; for (u64 t : sch.taken) { h = mix(h, t); sw += t < 1000000 && t / 16 != t % 16; } S->log("switches %016llx", (unsigned long long)h); stats.inc("fault.preemption", sw); stats.inc("probe.shared_accesses", S->shared_points);
        if (!sw) o.trivial = true;
        for (size_t k = 0; k < c.size(); k++) if (ops[k]->out.t != ref[k]) fail("disturbed", "caller %zu (%s), after %d switches: %s", k, c[k]->s(1).c_str(), sw, first_difference(ref[k], ops[k]->out.t).c_str());
        std::string l = S->leak_report(); if (!l.empty()) fail("leak", "%s", l.c_str());
    });
}
static Reg r15({"C15", gen15, exec15, 8000, 80000});
