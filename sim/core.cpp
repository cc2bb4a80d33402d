#include "core.h"
#include <cstdarg>
#include <cerrno>
#include <cassert>
#include <ucontext.h>
#include <ctime>
#include <sys/time.h>
#include <sys/mman.h>
#include <algorithm>
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
#define WITH_ASAN 1
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif

Sim *S = nullptr;
SimStats stats;
u64 g_stack_seed = 1;
bool g_trace = false;

// ---------------------------------------------------------------- Rng
static u64 splitmix(u64 &x) {
    u64 z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
Rng::Rng(u64 seed) { for (int i = 0; i < 4; i++) s[i] = splitmix(seed); }
static inline u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
u64 Rng::next() {
    u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}
double Rng::gauss() {
    double u = uni(1e-12, 1), v = uni();
    return sqrt(-2 * log(u)) * cos(2 * M_PI * v);
}
u64 mix(u64 a, u64 b) { u64 x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15); return splitmix(x); }
u64 hash_str(const std::string &s) {
    u64 h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

// ---------------------------------------------------------------- Plan
std::string fmt_d(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
std::string Plan::text() const {
    std::string r = "prop " + prop + "\n";
    for (auto &l : lines) {
        for (size_t k = 0; k < l.t.size(); k++) { if (k) r += ' '; r += l.t[k]; }
        r += '\n';
    }
    return r;
}
bool Plan::parse(const std::string &text, Plan &out) {
    out = Plan();
    size_t p = 0;
    while (p < text.size()) {
        size_t e = text.find('\n', p); if (e == std::string::npos) e = text.size();
        std::string line = text.substr(p, e - p); p = e + 1;
        if (line.empty() || line[0] == '#') continue;
        Line l; size_t q = 0;
        while (q < line.size()) {
            while (q < line.size() && line[q] == ' ') q++;
            size_t r = q; while (r < line.size() && line[r] != ' ') r++;
            if (r > q) l.t.push_back(line.substr(q, r - q));
            q = r;
        }
        if (l.t.empty()) continue;
        if (l.t[0] == "prop" && l.t.size() > 1) out.prop = l.t[1];
        else out.lines.push_back(l);
    }
    return !out.prop.empty();
}
const Line *Plan::find(const std::string &kind) const {
    for (auto &l : lines) if (l.t[0] == kind) return &l;
    return nullptr;
}
i64 Plan::geti(const std::string &kind, i64 dflt) const {
    const Line *l = find(kind); return l ? l->i(1) : dflt;
}

// ---------------------------------------------------------------- failures
void fail(const std::string &cls, const char *fmt, ...) {
    char buf[2000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    throw Violation{cls, buf};
}

// ---------------------------------------------------------------- the library's static data
// Every simulated process starts with the static data of a fresh one.
extern "C" { extern char __start_optv_data[] __attribute__((weak)), __stop_optv_data[] __attribute__((weak)),
                         __start_optv_bss[] __attribute__((weak)), __stop_optv_bss[] __attribute__((weak)); }
static char *g_snap[2]; static size_t g_snap_n[2];
__attribute__((no_sanitize("address"), noinline)) static void raw_copy(volatile char *d, const volatile char *s, size_t n) { for (size_t i = 0; i < n; i++) if (d[i] != s[i]) d[i] = s[i]; }
static void globals(int k, char *&b, size_t &n) {
    b = k ? __start_optv_bss : __start_optv_data; char *e = k ? __stop_optv_bss : __stop_optv_data;
    n = b && e ? e - b : 0;
}
void restore_globals() {
    for (int k = 0; k < 2; k++) {
        char *b; size_t n; globals(k, b, n);
        if (!g_snap[k]) { g_snap[k] = (char *)malloc(n + 1); g_snap_n[k] = n; raw_copy(g_snap[k], b, n); }
        raw_copy(b, g_snap[k], n);
    }
}
// ---------------------------------------------------------------- Sim
u64 Disk::hash() const {
    u64 h = 7;
    for (auto &f : files) h = mix(h, hash_str(f.first) ^ (hash_str(f.second) * 3));
    return h;
}
struct Handle {
    std::string path;
    size_t pos = 0;
    bool writing = false, append = false, dead = false;
    std::vector<char> buf;
    u64 id;
    Sim *owner;
};
void Sim::reset(u64 hs, u64 is, int rc, int bm) {
    drop_process();
    disk.files.clear(); faults.clear();
    heap_seed = hs; heap_rng = Rng(hs); io_seed = is; io_rng = Rng(is); read_chunk = rc; buf_mode = bm;
    alloc_count = 0; alloc_fail.clear(); alloc_base = 0; fail_all_after = false; allocs_failed = 0;
    log_hash = 1469598103934665603ull; io_ops = 0; log_lines.clear();
    crash_at_io = crash_at_point = -1; points = 0;
    g_stack_seed = mix(hs, 77); env_rng = Rng(mix(hs, 78)); now = 1000000000 + env_rng.below(1000000000);
    restore_globals();
}
void Sim::logs(const std::string &s) {
    log_hash = mix(log_hash, hash_str(s));
    if (keep_log) log_lines.push_back(s);
}
void Sim::log(const char *fmt, ...) {
    char buf[600]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    logs(buf);
}
void Sim::log_u64(u64 v) { log_hash = mix(log_hash, v); }
u64 Sim::faults_fired() const { u64 n = allocs_failed; for (auto &f : faults) n += f.fired; return n; }
std::string Sim::leak_report(const std::set<void *> *except) const {
    std::string r; size_t n = 0, bytes = 0;
    std::map<u64, size_t> order;
    for (auto &b : live) if (!except || !except->count(b.first)) { n++; bytes += b.second.first; order[b.second.second] = b.second.first; }
    if (n) {
        r = std::to_string(n) + " block(s) of " + std::to_string(bytes) + " bytes not released (first: " +
            std::to_string(order.begin()->second) + " bytes); ";
    }
    if (!open.empty()) {
        r += std::to_string(open.size()) + " file(s) left open:";
        std::set<std::string> names; for (auto &o : open) names.insert(o.second->path);
        for (auto &s : names) r += " " + s;
    }
    return r;
}
static std::vector<FILE *> g_zombies;
void Sim::drop_process() {
    std::vector<std::pair<u64, FILE *>> hs;
    for (auto &o : open) hs.push_back({o.second->id, o.first});
    std::sort(hs.begin(), hs.end());
    for (auto &h : hs) { open[h.second]->dead = true; }
    std::map<FILE *, Handle *> o; o.swap(open);
    for (auto &h : hs) { FILE *f = h.second; (void)f; fclose(f); }
    std::vector<void *> blocks;
    for (auto &b : live) blocks.push_back(b.first);
    live.clear();
    for (void *b : blocks) ::free(b);
}

// ---------------------------------------------------------------- simulated files
static bool matches(const Fault &f, const std::string &path) {
    if (!f.match.empty() && f.match[0] == '=') return path == f.match.substr(1);
    return f.match.empty() || path.find(f.match) != std::string::npos;
}
static void io_point(Sim *s) {
    s->io_ops++;
    if (s->crash_at_io >= 0 && (i64)s->io_ops > s->crash_at_io && in_fiber()) { stats.inc("fault.crash_io"); sim_die(); }
}
static ssize_t ck_read(void *c, char *buf, size_t size) {
    Handle *h = (Handle *)c; Sim *s = h->owner;
    if (h->dead) return 0;
    io_point(s);
    auto it = s->disk.files.find(h->path);
    const std::string empty; const std::string &data = it == s->disk.files.end() ? empty : it->second;
    size_t left = h->pos < data.size() ? data.size() - h->pos : 0;
    size_t n = std::min(left, size);
    if (s->read_chunk > 0 && n > 1) {
        size_t m = 1 + s->io_rng.below(s->read_chunk);
        if (m < n) { n = m; stats.inc("fault.short_read"); }
    }
    for (auto &f : s->faults) {
        if (f.kind != F_READ || !matches(f, h->path) || (f.fired && !f.sticky)) continue;
        if ((i64)h->pos >= f.at) {
            f.fired++; stats.inc("fault.read_error"); s->log("read error %s @%zu", h->path.c_str(), h->pos);
            errno = f.err; return -1;
        }
        if ((i64)(h->pos + n) > f.at) n = f.at - h->pos;
    }
    memcpy(buf, data.data() + h->pos, n); h->pos += n;
    s->log_u64(n);
    return n;
}
static ssize_t ck_write(void *c, const char *buf, size_t size) {
    Handle *h = (Handle *)c; Sim *s = h->owner;
    if (h->dead) return size;
    io_point(s);
    std::string &data = s->disk.files[h->path];
    if (h->append) h->pos = data.size();
    size_t n = size; bool err = false;
    for (auto &f : s->faults) {
        if (f.kind != F_WRITE || !matches(f, h->path) || (f.fired && !f.sticky)) continue;
        if ((i64)(h->pos + n) > f.at) {
            i64 k = std::max<i64>(0, f.at - (i64)h->pos);   // the part that still fits is written: torn write
            n = std::min<size_t>(n, k); err = true; f.fired++; errno = f.err;
            stats.inc(f.err == ENOSPC ? "fault.disk_full" : "fault.write_error");
        }
    }
    if (h->pos + n > data.size()) data.resize(h->pos + n);
    memcpy(&data[h->pos], buf, n); h->pos += n;
    s->log("write %s %zu/%zu", h->path.c_str(), n, size);
    (void)err;
    return n;   // fewer than size: stdio marks the stream as failed, as it does after a failed write()
}
static int ck_seek(void *c, off64_t *off, int whence) {
    Handle *h = (Handle *)c; Sim *s = h->owner;
    i64 base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (i64)h->pos : (i64)s->disk.files[h->path].size();
    if (base + *off < 0) return -1;
    h->pos = base + *off; *off = h->pos; return 0;
}
static int ck_close(void *c) {
    Handle *h = (Handle *)c; Sim *s = h->owner; int r = 0;
    if (!h->dead) {
        for (auto &f : s->faults) {
            if (f.kind != F_CLOSE || !matches(f, h->path) || (f.fired && !f.sticky)) continue;
            if (f.seen++ < f.at) continue;
            f.fired++; stats.inc("fault.close_error"); errno = f.err; r = -1;
        }
        s->log("close %s", h->path.c_str());
    }
    return r;
}
void shared_access(const void *);
extern "C" FILE *sim_fopen(const char *path, const char *mode) {
    if (!path) { errno = EFAULT; return NULL; }
    Sim *s = S;
    shared_access(path);
    if (!path) { errno = EFAULT; return NULL; }
    io_point(s);
    std::string p = path;
    bool w = mode[0] == 'w', a = mode[0] == 'a', r = mode[0] == 'r';
    for (auto &f : s->faults) {
        if (f.kind != F_OPEN || !matches(f, p) || (f.fired && !f.sticky)) continue;
        if (f.seen++ < f.at) continue;
        f.fired++; stats.inc("fault.open_error"); s->log("open error %s", path); errno = f.err; return NULL;
    }
    if (r && !s->disk.has(p)) { s->log("open missing %s", path); errno = ENOENT; return NULL; }
    if (w) s->disk.files[p] = ""; else if (a) s->disk.files[p];
    Handle *h = new Handle; h->path = p; h->writing = w || a; h->append = a; h->owner = s; h->id = ++s->io_ops;
    cookie_io_functions_t fn = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie(h, mode, fn);
    if (!f) abort();
    int bm = s->buf_mode;
    if (bm == 1) setvbuf(f, NULL, _IONBF, 0);
    else if (bm == 2) { h->buf.resize(1 + s->io_rng.below(s->io_rng.chance(0.5) ? 40 : 3000)); setvbuf(f, h->buf.data(), _IOFBF, h->buf.size()); }
    else { h->buf.resize(4096); setvbuf(f, h->buf.data(), _IOFBF, 4096); }
    s->open[f] = h;
    s->log("open %s %s", path, mode);
    return f;
}
extern "C" int sim_fclose(FILE *f) {
    Sim *s = S;
    auto it = s->open.find(f);
    if (it == s->open.end()) {
        // throwing through C frames is not possible: record, and stop this simulated process
        s->log("bad fclose"); stats.inc("probe.bad_fclose");
        extern void sim_bad(const char *, const char *);
        sim_bad("double-close", f ? "a file was closed twice" : "fclose(NULL)");
        return EOF;
    }
    Handle *h = it->second;
    io_point(s);
    s->open.erase(it);
    int r = fclose(f);
    delete h;
    return r;
}
// Operations by path.
extern "C" int sim_rename(const char *a, const char *b) {
    Sim *s = S; io_point(s);
    auto it = s->disk.files.find(a); if (it == s->disk.files.end()) { errno = ENOENT; return -1; }
    for (auto &f : s->faults) if (f.kind == F_OPEN && matches(f, b) && f.seen++ >= f.at) { f.fired++; errno = f.err; return -1; }
    std::string d = it->second; s->disk.files.erase(it); s->disk.files[b] = d; s->log("rename %s %s", a, b);
    for (auto &o : s->open) if (o.second->path == a) o.second->path = b;
    return 0;
}
extern "C" int sim_remove(const char *a) {
    Sim *s = S; io_point(s);
    if (!s->disk.files.erase(a)) { errno = ENOENT; return -1; }
    s->log("remove %s", a); return 0;
}
extern "C" int sim_access(const char *a, int) { if (S->disk.has(a)) return 0; errno = ENOENT; return -1; }
extern "C" int sim_fileno(FILE *) { return 100000; }
extern "C" int sim_fsync(int) { return 0; }
extern "C" int sim_printf(const char *fmt, ...) {
    char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return n;
}
extern "C" { FILE *sim_stderr, *sim_stdout; }   // messages go nowhere
__attribute__((constructor)) static void open_null() { sim_stderr = sim_stdout = fopen("/dev/null", "w"); }
extern "C" int sim_unlink(const char *a) { return sim_remove(a); }
extern "C" int sim_fdatasync(int) { return 0; }
// Clock, randomness and environment: decided by the simulator, different in every simulated process.
extern "C" time_t sim_time(time_t *t) { S->io_ops++; S->now += S->env_rng.below(5); if (t) *t = S->now; stats.inc("env.time"); return S->now; }
extern "C" clock_t sim_clock() { S->now += S->env_rng.below(5); stats.inc("env.time"); return S->now * 1000; }
extern "C" int sim_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = sim_time(0); tv->tv_usec = S->env_rng.below(1000000); return 0; }
extern "C" int sim_clock_gettime(int, struct timespec *tv) { tv->tv_sec = sim_time(0); tv->tv_nsec = S->env_rng.below(1000000000); return 0; }
extern "C" int sim_rand() { stats.inc("env.rand"); return S->env_rng.next() & 0x7fffffff; }
extern "C" long sim_random() { return sim_rand(); }
extern "C" void sim_srand(unsigned) {}
extern "C" void sim_srandom(unsigned) {}
extern "C" char *sim_getenv(const char *) { return NULL; }
void sim_bad(const char *, const char *);
extern "C" void sim_exit(int) { sim_bad("exit", "the library ended the process"); abort(); }
extern "C" void sim_abort() { sim_bad("abort", "the library aborted the process"); abort(); }
extern "C" int sim_puts(const char *) { return 1; }
extern "C" int sim_putchar(int c) { return c; }
extern "C" int sim_fflush(FILE *f) { return f ? fflush(f) : 0; }
extern "C" char *sim_setlocale(int, const char *) { return (char *)"C"; }

// ---------------------------------------------------------------- memory
static void garbage(unsigned char *p, size_t n, Rng &r) {
    size_t i = 0;
    if (n > (1u << 20)) { garbage(p, 1 << 18, r); garbage(p + n - 4096, 4096, r); return; }   // big blocks: their ends
    // A mix of patterns: plausible small integers, big values, all ones, random bytes.
    int style = r.below(4); u64 v = r.next();
    if (style == 0) { memset(p, 0xff, n); return; }
    if (style == 1) { for (; i + 4 <= n; i += 4) { int x = (int)((v >> (i % 29)) & 7); memcpy(p + i, &x, 4); } }
    else if (style == 2) { for (; i + 8 <= n; i += 8) { double x = (double)(i64)(v % 2000) - 1000 + i; memcpy(p + i, &x, 8); } }
    for (; i < n; i++) { v = v * 6364136223846793005ull + 1442695040888963407ull; p[i] = v >> 56; }
}
static bool alloc_fails(Sim *s) {
    u64 k = s->alloc_count++ - s->alloc_base;
    if (s->alloc_fail.count(k) || (s->fail_all_after && k >= s->fail_after)) {
        s->allocs_failed++; stats.inc("fault.alloc"); s->log("alloc %llu fails", (unsigned long long)k); return true;
    }
    return false;
}
extern "C" void *sim_malloc(size_t n) {
    Sim *s = S;
    if (alloc_fails(s)) { errno = ENOMEM; return NULL; }
    void *p = ::malloc(n ? n : 1);
    if (!p) abort();
    garbage((unsigned char *)p, n, s->heap_rng);
    s->live[p] = {n, s->alloc_count};
    return p;
}
extern "C" void *sim_calloc(size_t a, size_t b) {
    Sim *s = S;
    if (alloc_fails(s)) { errno = ENOMEM; return NULL; }
    void *p = ::calloc(a * b ? a : 1, a * b ? b : 1);
    if (!p) abort();
    s->live[p] = {a * b, s->alloc_count};
    return p;
}
void sim_bad(const char *, const char *);
extern "C" void sim_free(void *p) {
    if (!p) return;
    Sim *s = S;
    auto it = s->live.find(p);
    if (it == s->live.end()) { sim_bad("bad-free", "memory released that is not allocated"); return; }
    // do not let freed contents be useful
    memset(p, 0xdd, std::min<size_t>(it->second.first, 1 << 18));
    s->live.erase(it);
    ::free(p);
}
extern "C" void *sim_realloc(void *p, size_t n) {
    Sim *s = S;
    if (!p) return sim_malloc(n);
    auto it = s->live.find(p);
    if (it == s->live.end()) { sim_bad("bad-free", "memory reallocated that is not allocated"); return NULL; }
    if (!n) { sim_free(p); return NULL; }   // as glibc does
    if (alloc_fails(s)) { errno = ENOMEM; return NULL; }
    size_t old = it->second.first;
    // always move: code that keeps the old pointer must not get away with it
    void *q = ::malloc(n ? n : 1);
    garbage((unsigned char *)q, n, s->heap_rng);
    memcpy(q, p, std::min(old, n));
    s->live.erase(p); memset(p, 0xdd, old); ::free(p);
    s->live[q] = {n, s->alloc_count};
    return q;
}
extern "C" char *sim_strdup(const char *c) {
    size_t n = strlen(c) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, c, n); return p;
}

// ---------------------------------------------------------------- fibers
static const size_t STACK = 1 << 20;
struct Fiber {
    ucontext_t ctx;
    char *stack = nullptr;
    const std::function<void()> *fn = nullptr;
    FiberEnd end = FE_YIELD;
    bool started = false, finished = false;
    Violation viol; bool has_viol = false;
    void *fake = nullptr;
};
static std::vector<char *> g_stacks;
static ucontext_t g_main;
static Fiber *g_cur = nullptr;
static std::vector<Fiber *> g_nest;     // run_fiber may not nest, checked
static const void *g_main_stack_bottom = nullptr; static size_t g_main_stack_size = 0;
static void *g_main_fake = nullptr;
static Schedule *g_sched = nullptr; static size_t g_sched_pos = 0; static int g_next_caller = -1;
static size_t g_sched_shared = 0;
static u64 g_point_base = 0;

bool in_fiber() { return g_cur != nullptr; }
static char *get_stack() {
    if (!g_stacks.empty()) { char *s = g_stacks.back(); g_stacks.pop_back(); return s; }
    char *s = (char *)mmap(0, STACK + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (s == MAP_FAILED) abort();
    mprotect(s, 65536, PROT_NONE);
    return s + 65536;
}
__attribute__((no_sanitize("address"))) static void dirty_stack(char *s, u64 seed) {
    // what earlier calls left on the stack
    Rng r(seed); garbage((unsigned char *)(s + STACK - 98304), 98304, r);
}
static void switch_to_main(Fiber *f, bool dying) {
    (void)dying;
#ifdef WITH_ASAN
    __sanitizer_start_switch_fiber(dying ? nullptr : &f->fake, g_main_stack_bottom, g_main_stack_size);
#endif
    swapcontext(&f->ctx, &g_main);
#ifdef WITH_ASAN
    __sanitizer_finish_switch_fiber(f->fake, &g_main_stack_bottom, &g_main_stack_size);
#endif
}
static void fiber_entry() {
    Fiber *f = g_cur;
#ifdef WITH_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &g_main_stack_bottom, &g_main_stack_size);
#endif
    try { (*f->fn)(); f->end = FE_DONE; }
    catch (Violation &v) { f->viol = v; f->has_viol = true; f->end = FE_VIOL; }
    f->finished = true;
    switch_to_main(f, true);
    abort();
}
static void resume(Fiber *f) {
    g_cur = f;
#ifdef WITH_ASAN
    __sanitizer_start_switch_fiber(&g_main_fake, f->stack, STACK);
#endif
    if (!f->started) {
        f->started = true;
        getcontext(&f->ctx);
        f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = STACK; f->ctx.uc_link = nullptr;
        makecontext(&f->ctx, fiber_entry, 0);
    }
    swapcontext(&g_main, &f->ctx);
#ifdef WITH_ASAN
    __sanitizer_finish_switch_fiber(g_main_fake, nullptr, nullptr);
#endif
    g_cur = nullptr;
}
static void end_fiber(Fiber &f) {
#ifdef WITH_ASAN
    __asan_unpoison_memory_region(f.stack, STACK);
#endif
    g_stacks.push_back(f.stack); f.stack = nullptr;
}
void sim_die() {
    Fiber *f = g_cur; if (!f) abort();
    f->end = FE_CRASH; f->finished = true;
    S->log("process dies at io %llu", (unsigned long long)S->io_ops);
    switch_to_main(f, true);
    abort();
}
static void hang() {
    Fiber *f = g_cur; if (!f) abort();
    f->end = FE_HANG; f->finished = true;
    switch_to_main(f, true);
    abort();
}
// A fatal misuse noticed inside library code: end this fiber with a violation.
bool g_soft_bad = false; std::string g_bad;   // with Python frames below nothing can be thrown: noted instead
void sim_bad(const char *cls, const char *msg) {
    Fiber *f = g_cur;
    if (!f && g_soft_bad) { if (g_bad.empty()) g_bad = std::string(cls) + ": " + msg; return; }
    if (!f) throw Violation{cls, msg};
    f->viol = Violation{cls, msg}; f->has_viol = true; f->end = FE_VIOL; f->finished = true;
    switch_to_main(f, true);
    abort();
}
FiberEnd run_fiber(const std::function<void()> &fn) {
    if (g_cur) { fn(); return FE_DONE; }   // already on a fiber
    Fiber f; f.stack = get_stack(); f.fn = &fn;
    dirty_stack(f.stack, g_stack_seed = mix(g_stack_seed, 5));
    g_point_base = S->points;
    S->in_lib++;
    resume(&f);
    S->in_lib--;
    end_fiber(f);
    if (f.has_viol) throw f.viol;
    return f.end;
}
bool run_concurrent(const std::vector<std::function<void()>> &fns, Schedule &sch) {
    std::vector<Fiber> fs(fns.size());
    for (size_t i = 0; i < fs.size(); i++) {
        fs[i].stack = get_stack(); fs[i].fn = &fns[i];
        dirty_stack(fs[i].stack, g_stack_seed = mix(g_stack_seed, 5));
    }
    g_sched = &sch; g_sched_pos = 0; g_sched_shared = 0; S->shared_points = 0; sch.taken.clear();
    S->points = 0; g_point_base = 0;
    size_t cur = 0; bool okk = true; Violation v; bool hv = false;
    while (true) {
        bool any = false;
        for (auto &f : fs) if (!f.finished) any = true;
        if (!any) break;
        while (fs[cur].finished) cur = (cur + 1) % fs.size();
        g_next_caller = -1;
        resume(&fs[cur]);
        if (fs[cur].finished) {
            if (fs[cur].end == FE_HANG) { okk = false; break; }
            if (fs[cur].has_viol) { v = fs[cur].viol; hv = true; break; }
            sch.taken.push_back(1000000 + cur);
        } else if (g_next_caller >= 0) {
            size_t n = g_next_caller % fs.size();
            sch.taken.push_back(cur * 16 + n); cur = n;
        }
    }
    g_sched = nullptr;
    for (auto &f : fs) end_fiber(f);
    if (hv) throw v;
    return okk;
}

// ---------------------------------------------------------------- instrumented program points
static const size_t MAXG = 1 << 16;
static uint8_t g_hits[MAXG], g_ever[MAXG]; static uint32_t g_touched[MAXG]; static size_t g_ntouched = 0;
static uint32_t g_nguards = 0;
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    if (a == b || *a) return;
    for (uint32_t *p = a; p < b; p++) *p = ++g_nguards;
}
__attribute__((no_sanitize("address"))) static inline void point() {
    Sim *s = S;
    if (!g_cur) return;
    u64 p = ++s->points;
    if (p - g_point_base > s->point_limit) hang();
    if (s->crash_at_point >= 0 && (i64)p > s->crash_at_point) { s->crash_at_point = -1; stats.inc("fault.crash_point"); sim_die(); }
    if (g_sched && g_sched_pos < g_sched->switches.size() && p >= g_sched->switches[g_sched_pos].first) {
        int n = g_sched->switches[g_sched_pos++].second;
        g_next_caller = n;
        switch_to_main(g_cur, false);
    }
}
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    uint32_t k = *g;
    if (k && k < MAXG) {
        uint8_t &h = g_hits[k];
        if (!h) { g_touched[g_ntouched++] = k; g_ever[k] = 1; }
        if (h < 255) h++;
    }
    point();
}
static void shared_point() {
    u64 k = ++S->shared_points;
    if (g_sched_shared < g_sched->at_shared.size() && k >= g_sched->at_shared[g_sched_shared].first) { int n = g_sched->at_shared[g_sched_shared++].second; g_next_caller = n; switch_to_main(g_cur, false); }
}
// Accesses to data that callers share are where switching matters most: schedules can name them directly.
__attribute__((no_sanitize("address"))) static inline void access(void *a) {
    point();
    if (!g_sched || !g_cur) return;
    char *p = (char *)a;
    if (!((p >= __start_optv_data && p < __stop_optv_data) || (p >= __start_optv_bss && p < __stop_optv_bss))) return;
    shared_point();
}
void shared_access(const void *a) { access((void *)a); }
void shared_state_access() { point(); if (g_sched && g_cur) shared_point(); }
#define LS(n) extern "C" void __sanitizer_cov_load##n(void *a) { access(a); } extern "C" void __sanitizer_cov_store##n(void *a) { access(a); }
LS(1) LS(2) LS(4) LS(8) LS(16)
void cov_begin_run() { for (size_t i = 0; i < g_ntouched; i++) g_hits[g_touched[i]] = 0; g_ntouched = 0; }
u64 cov_end_run() {
    std::sort(g_touched, g_touched + g_ntouched);
    u64 h = 3;
    for (size_t i = 0; i < g_ntouched; i++) { uint32_t k = g_touched[i]; int c = g_hits[k], b = 0; while (c) { b++; c >>= 1; } h = mix(h, k * 16 + b); }
    return h;
}
size_t cov_total_edges() { return g_nguards; }
size_t cov_edges_hit_ever() { size_t n = 0; for (auto x : g_ever) n += x; return n; }

// ---------------------------------------------------------------- registry
std::vector<Property> &registry() { static std::vector<Property> r; return r; }
Outcome guarded(const Plan &p, const std::function<void(Outcome &)> &body) {
    Outcome o;
    static Sim sim;   // one simulated machine, reset for each run
    S = &sim;
    S->keep_log = g_trace; S->reset(1, 1, 0, 0);
    const Line *e = p.find("env");
    if (e) S->reset(e->i(1), e->i(2), e->i(3), e->i(4));
    try { body(o); }
    catch (Violation &v) {
        if (v.cls == "invalid") o.invalid = true;
        else { o.viol = v.cls; o.msg = v.msg; }
    }
    S->logs(o.viol); S->log_u64(S->disk.hash());
    o.hash = S->log_hash;
    S->clear_faults(); S->clear_alloc_faults(); S->crash_at_io = S->crash_at_point = -1;
    S->drop_process();
    return o;
}
