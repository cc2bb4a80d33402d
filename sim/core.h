// Deterministic simulation core: one seed -> one plan -> one exactly repeatable run.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unordered_map>

typedef uint64_t u64;
typedef int64_t i64;

// ---------------------------------------------------------------- randomness
struct Rng {
    u64 s[4];
    explicit Rng(u64 seed = 1);
    u64 next();
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }  // inclusive
    double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    bool chance(double p) { return uni() < p; }
    double gauss();
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
u64 mix(u64 a, u64 b);
u64 hash_str(const std::string &s);

// ---------------------------------------------------------------- plans
// A plan is everything a run depends on: configuration, workload and faults,
// one item per line. Removing lines yields another valid plan.
struct Line {
    std::vector<std::string> t;
    const std::string &kind() const { return t[0]; }
    i64 i(size_t k) const { return k < t.size() ? strtoll(t[k].c_str(), 0, 10) : 0; }
    double d(size_t k) const { return k < t.size() ? strtod(t[k].c_str(), 0) : 0.0; }
    std::string s(size_t k) const { return k < t.size() ? t[k] : std::string(); }
};
std::string fmt_d(double);
struct Plan {
    std::string prop;
    std::vector<Line> lines;
    std::string text() const;
    static bool parse(const std::string &text, Plan &out);
    void add(const std::string &kind, std::initializer_list<std::string> args = {});
    template <class... A> void put(const std::string &kind, const A &...a) {
        Line l; l.t.push_back(kind);
        (l.t.push_back(tok(a)), ...);
        lines.push_back(l);
    }
    const Line *find(const std::string &kind) const;
    i64 geti(const std::string &kind, i64 dflt) const;
    static std::string tok(const std::string &s) { return s; }
    static std::string tok(const char *s) { return s; }
    static std::string tok(double d) { return fmt_d(d); }
    static std::string tok(int v) { return std::to_string(v); }
    static std::string tok(long v) { return std::to_string(v); }
    static std::string tok(long long v) { return std::to_string(v); }
    static std::string tok(unsigned v) { return std::to_string(v); }
    static std::string tok(unsigned long v) { return std::to_string(v); }
    static std::string tok(bool v) { return v ? "1" : "0"; }
};

struct Outcome {
    std::string viol;    // empty: the property held; otherwise the violation's class
    std::string msg;     // details
    std::vector<std::pair<std::string, std::string>> known;  // class, text of known findings met
    u64 hash = 0;        // of the run's event log
    bool trivial = false;  // nothing relevant happened
    bool invalid = false;  // the plan makes no sense (minimiser must not go there)
    bool ok() const { return viol.empty(); }
};
struct Violation { std::string cls, msg; };
[[noreturn]] void fail(const std::string &cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

// ---------------------------------------------------------------- simulated disk
enum FaultKind { F_OPEN, F_READ, F_WRITE, F_CLOSE };
struct Fault {
    FaultKind kind;
    std::string match;   // substring of the path, or = and the whole path; empty: any
    i64 at = 0;          // open/close: how many matching calls to let pass; read/write: byte offset
    bool sticky = true;  // keeps failing, or fails once
    i64 fired = 0, seen = 0;
    int err = 5;         // errno
};
struct Disk {
    std::map<std::string, std::string> files;
    bool has(const std::string &p) const { return files.count(p) != 0; }
    u64 hash() const;
};
struct Handle;

struct SimStats {
    std::map<std::string, u64> n;
    void inc(const std::string &k, u64 d = 1) { n[k] += d; }
};
extern SimStats stats;

struct Sim {
    Disk disk;
    std::vector<Fault> faults;
    std::map<FILE *, Handle *> open;        // handles the library has not closed yet
    // stdio behaviour of this run
    u64 io_seed = 1;
    int read_chunk = 0;    // max bytes per read (0: unlimited)
    int buf_mode = 0;      // 0: default, 1: unbuffered, 2: small random buffers
    Rng io_rng{1};
    // memory
    u64 heap_seed = 1;
    Rng heap_rng{1};
    std::unordered_map<void *, std::pair<size_t, u64>> live;  // block -> size, allocation number
    u64 alloc_count = 0;
    std::set<u64> alloc_fail;   // allocation numbers (from alloc_base) that fail
    u64 alloc_base = 0;
    bool fail_all_after = false; u64 fail_after = 0;
    u64 allocs_failed = 0;
    // log
    u64 log_hash = 1469598103934665603ull;
    u64 io_ops = 0;
    bool keep_log = false;
    std::vector<std::string> log_lines;
    // crash
    i64 crash_at_io = -1;      // I/O operation number at which the process dies
    i64 crash_at_point = -1;   // instrumented program point at which the process dies
    u64 points = 0;            // program points passed
    u64 shared_points = 0;     // accesses to the library's static data while callers run concurrently
    u64 point_limit = 400000000ull;  // hang detector
    int in_lib = 0;

    Rng env_rng{1}; i64 now = 0;   // simulated clock and randomness

    void reset(u64 heap_seed, u64 io_seed, int read_chunk, int buf_mode);
    void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void logs(const std::string &s);
    void log_u64(u64 v);
    u64 faults_fired() const;
    void clear_faults() { faults.clear(); }
    void clear_alloc_faults() { alloc_fail.clear(); fail_all_after = false; }
    void start_alloc_faults() { alloc_base = alloc_count; }
    std::string leak_report(const std::set<void *> *except = nullptr) const;
    void drop_process();   // process death: close handles without flushing, free all memory
};
extern Sim *S;
extern bool g_trace;
void restore_globals();   // what a fresh process has in the library's static data

// ---------------------------------------------------------------- fibers
// All library code runs on fibers: simulated callers whose interleaving the
// simulator decides, and that can die at any program point.
enum FiberEnd { FE_DONE, FE_CRASH, FE_HANG, FE_YIELD, FE_VIOL };
struct Fiber;
// Runs fn on a fiber to its end (or its death).
FiberEnd run_fiber(const std::function<void()> &fn);
// Runs several callers; switches[k] = program point count at which to switch to the next choice.
struct Schedule {
    std::vector<std::pair<u64, int>> switches;  // (global point number, caller to continue with)
    std::vector<std::pair<u64, int>> at_shared; // (access to shared data, caller)
    std::vector<u64> taken;                      // hash-relevant record of switches made
};
bool run_concurrent(const std::vector<std::function<void()>> &fns, Schedule &sch);
bool in_fiber();
void sim_die();              // the running simulated process dies here
// Calls library code through here, so that stack garbage and hang limits apply.
template <class F> void lib(F f) {
    std::function<void()> g = f;
    FiberEnd e = run_fiber(g);
    if (e == FE_HANG) fail("hang", "call did not end within the step limit");
    if (e == FE_CRASH) fail("internal", "unexpected crash injection");
}
extern u64 g_stack_seed;

// coverage (edges of library code)
void cov_begin_run();
u64 cov_end_run();   // signature of edges hit (with count buckets)
size_t cov_total_edges();
size_t cov_edges_hit_ever();

// ---------------------------------------------------------------- properties
struct Property {
    std::string id;
    std::function<void(u64 seed, int tier, Plan &)> gen;
    std::function<Outcome(const Plan &)> exec;
    u64 quick_runs, thorough_runs;
};
std::vector<Property> &registry();
struct Reg { Reg(Property p) { registry().push_back(p); } };
// Wraps exec bodies: catches Violation, fills in hash.
Outcome guarded(const Plan &p, const std::function<void(Outcome &)> &body);

// ---------------------------------------------------------------- the seam (called by the library)
extern "C" {
FILE *sim_fopen(const char *, const char *);
int sim_fclose(FILE *);
void *sim_malloc(size_t);
void *sim_calloc(size_t, size_t);
void *sim_realloc(void *, size_t);
void sim_free(void *);
}
