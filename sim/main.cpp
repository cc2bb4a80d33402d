// Driver: batches of simulated runs, replay, plan generation.
#include "core.h"
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <sys/resource.h>

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Property *get(const std::string &id) {
    for (auto &p : registry()) if (p.id == id) return &p;
    fprintf(stderr, "no property %s\n", id.c_str()); exit(2);
}
static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static u64 run_seed(u64 seed, const std::string &prop, u64 index) { return mix(mix(seed, hash_str(prop)), index); }
static Plan make_plan(Property *p, u64 seed, int tier) {
    Plan pl; pl.prop = p->id;
    p->gen(seed, tier, pl);
    return pl;
}
static std::string slurp(const char *f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }

extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=97:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:"
           "allocator_may_return_null=1:handle_segv=1:quarantine_size_mb=16:malloc_context_size=6";
}

int main(int argc, char **argv) {
    std::map<std::string, std::string> a;
    std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    if (mode == "list") {
        for (auto &p : registry()) printf("%s %llu %llu\n", p.id.c_str(), (unsigned long long)p.quick_runs, (unsigned long long)p.thorough_runs);
        return 0;
    }
    if (mode == "gen") {
        Property *p = get(a["--prop"]);
        u64 seed = a.count("--runseed") ? strtoull(a["--runseed"].c_str(), 0, 10)
                 : run_seed(strtoull(a["--seed"].c_str(), 0, 10), p->id, strtoull(a["--index"].c_str(), 0, 10));
        fputs(make_plan(p, seed, atoi(a["--tier"].c_str())).text().c_str(), stdout);
        return 0;
    }
    if (mode == "replay") {   // exit 0: property held, 1: violated, 3: plan invalid
        Plan pl; if (!Plan::parse(slurp(a["--plan"].c_str()), pl)) return 2;
        Property *p = get(pl.prop);
        rlimit rl; rl.rlim_cur = rl.rlim_max = 300; setrlimit(RLIMIT_CPU, &rl);
        cov_begin_run(); g_trace = a.count("--trace");
        Outcome o = p->exec(pl);
        printf("{\"viol\":%s,\"msg\":%s,\"hash\":\"%016llx\",\"invalid\":%d,\"known\":[", jstr(o.viol).c_str(), jstr(o.msg).c_str(), (unsigned long long)o.hash, (int)o.invalid);
        for (size_t i = 0; i < o.known.size(); i++) printf("%s[%s,%s]", i ? "," : "", jstr(o.known[i].first).c_str(), jstr(o.known[i].second).c_str());
        printf("]}\n");
        if (a.count("--trace")) for (auto &l : S->log_lines) printf("  %s\n", l.c_str());
        return o.invalid ? 3 : o.ok() ? 0 : 1;
    }
    if (mode == "batch") {
        Property *p = get(a["--prop"]);
        u64 seed = strtoull(a["--seed"].c_str(), 0, 10), start = strtoull(a["--start"].c_str(), 0, 10);
        u64 stride = strtoull(a["--stride"].c_str(), 0, 10), count = strtoull(a["--count"].c_str(), 0, 10);
        double cap = atof(a["--cap"].c_str()); int tier = atoi(a["--tier"].c_str());
        int sfd = open(a["--status"].c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
        double t0 = now(); u64 done = 0, trivial = 0, invalid = 0, viols = 0, dets = 0, nondet = 0;
        std::set<u64> hashes, covs;
        std::map<std::string, std::pair<u64, std::pair<u64, std::string>>> known;   // class -> count, first index, text
        std::ostringstream vs;
        u64 points = 0, all_hash = 0;
        for (u64 k = start; k < count; k += stride) {
            if (now() - t0 > cap) break;
            char b[64]; int n = snprintf(b, sizeof b, "%-20llu", (unsigned long long)k);
            if (pwrite(sfd, b, n, 0) < 0) return 2;
            u64 rs = run_seed(seed, p->id, k);
            Plan pl = make_plan(p, rs, tier);
            cov_begin_run();
            Outcome o = p->exec(pl);
            u64 c = cov_end_run();
            done++; points += S->points;
            if (o.trivial) trivial++;
            if (o.invalid) invalid++;
            hashes.insert(o.hash); covs.insert(c); all_hash ^= mix(o.hash, k);
            for (auto &x : o.known) { auto &e = known[x.first]; if (!e.first++) e.second = {k, x.second}; }
            if (!o.ok()) {
                if (viols++ < 5) vs << (viols > 1 ? "," : "") << "{\"index\":" << k << ",\"viol\":" << jstr(o.viol) << ",\"msg\":" << jstr(o.msg) << "}";
                if (viols >= 5) break;
            } else if (done % 16 == 1) {     // every sixteenth run once more, from its plan's text
                Plan again; Plan::parse(pl.text(), again);
                SimStats keep = stats;
                Outcome o2 = p->exec(again);
                stats = keep;
                dets++; if (o2.hash != o.hash || o2.viol != o.viol) { nondet++; fprintf(stderr, "not repeatable: index %llu\n", (unsigned long long)k); }
            }
        }
        double t = now() - t0;
        printf("{\"runs\":%llu,\"trivial\":%llu,\"invalid\":%llu,\"seconds\":%.3f,\"points\":%llu,\"edges\":%zu,\"edges_total\":%zu,\"repeat_checked\":%llu,\"not_repeatable\":%llu,\"combined_hash\":\"%016llx\",\"violations\":[%s],",
            (unsigned long long)done, (unsigned long long)trivial, (unsigned long long)invalid, t, (unsigned long long)points, cov_edges_hit_ever(), cov_total_edges(), (unsigned long long)dets, (unsigned long long)nondet, (unsigned long long)all_hash, vs.str().c_str());
        printf("\"stats\":{"); bool f = true;
        for (auto &s : stats.n) { printf("%s%s:%llu", f ? "" : ",", jstr(s.first).c_str(), (unsigned long long)s.second); f = false; }
        printf("},\"known\":["); f = true;
        for (auto &x : known) { printf("%s{\"class\":%s,\"count\":%llu,\"index\":%llu,\"text\":%s}", f ? "" : ",", jstr(x.first).c_str(), (unsigned long long)x.second.first, (unsigned long long)x.second.second.first, jstr(x.second.second.second).c_str()); f = false; }
        printf("],\"hashes\":["); f = true;
        for (u64 h : hashes) { printf("%s\"%llx\"", f ? "" : ",", (unsigned long long)h); f = false; }
        printf("],\"covs\":["); f = true;
        for (u64 h : covs) { printf("%s\"%llx\"", f ? "" : ",", (unsigned long long)h); f = false; }
        printf("]}\n");
        return viols ? 1 : 0;
    }
    fprintf(stderr, "usage: sim list|gen|replay|batch\n");
    return 2;
}
