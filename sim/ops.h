// One call (or short series of calls) of each part of the library, with random inputs, whose complete result is written
// down. What uses them decides under which circumstances they run: failures, earlier history, other callers.
#pragma once
#include "trackscene.h"
#include "matchscene.h"
#include <memory>
struct Dig {   // everything a caller can see of a call's result
    std::string t;
    void i(const std::string &l, long v) { t += l; t += ' '; t += std::to_string(v); t += '\n'; }
    void d(const std::string &l, double v);
    void ds(const std::string &l, const double *v, int n) { for (int k = 0; k < n; k++) d(l + "." + std::to_string(k), v[k]); }
    void s(const std::string &l, const std::string &v) { t += l; t += ' '; t += v; t += '\n'; }
    void bytes(const std::string &l, const void *p, size_t n);
};
std::string first_difference(const std::string &a, const std::string &b);
struct Op {
    std::string pre;             // where its files are
    std::string kind;
    Dig out;
    bool failed = false;         // the call reported a failure
    virtual ~Op() {}
    virtual void files(Disk &) {}             // puts the input files
    virtual void setup() {}                   // fiber: the caller's objects
    virtual void dirty(Rng &) {}              // fiber: leaves something of earlier use in the objects the results go to
    virtual void vary(Rng &) {}               // before files(): changes a few of the inputs
    virtual void call() = 0;                  // fiber: library
    virtual void digest() {}                  // fiber: writes the result down
    virtual void inputs(Dig &) {}             // what the call must not change
    virtual void release() {}                 // fiber: gives everything back
    void digest_files(const std::string &sub);
    void everything() { setup(); call(); digest(); release(); }
};
// size: 0 small .. 2
std::unique_ptr<Op> make_op(const std::string &kind, u64 seed, int size, const std::string &pre);
const std::vector<std::string> &op_kinds();
bool op_has_io(const std::string &kind);       // uses files
bool op_survives_oom(const std::string &kind); // promises to survive running out of memory
