// Library frame objects filled from and compared with independent data.
#pragma once
#include "lib.h"
#include "world.h"
struct Names {   // C strings for a store
    std::vector<std::string> img; std::vector<char *> imgp; std::string corres, linkage, prio;
    explicit Names(const Store &s) : img(s.img), corres(s.corres), linkage(s.linkage), prio(s.prio) { for (auto &i : img) imgp.push_back(&i[0]); }
    Names(const Names &) = delete;
    char *c() { return &corres[0]; } char *l() { return &linkage[0]; } char *p() { return &prio[0]; } char **i() { return imgp.data(); }
};
void fill_targets(target *dst, const std::vector<T2> &t);
void fill_parts(P *pi, corres *c, const std::vector<P3> &p);
void fill_frame(frame *f, const FrameData &d);
// cls/fail on difference; unit 0: exactly equal
void check_targets(const char *cls, const std::string &what, const target *got, int ngot, const std::vector<T2> &want, double unit = 1e-4);
void check_parts(const char *cls, const std::string &what, const P *pi, const corres *c, int ngot, const std::vector<P3> &want, double unit = 1e-3, bool nr = true);
void check_frame(const char *cls, const std::string &what, const frame *f, const FrameData &want, double ux = 1e-3, double ut = 1e-4);
// what a load without links/prio gives
FrameData with_defaults(FrameData f, bool links, bool prio);
Store random_store(Rng &r, int k, int ncams, bool prio);
void put_store(Plan &p, int k, const Store &s); bool get_store(const Line &l, Store &s);
FrameData rounded(FrameData f);   // to printed precision
