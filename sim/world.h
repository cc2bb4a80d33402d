// Independent knowledge of the file formats and of what frames are.
#pragma once
#include "core.h"

struct T2 { int pnr; double x, y; int n, nx, ny, sumg, tnr; };
struct P3 { double x[3]; int p[4]; int prev = -1, next = -2, prio = 4; };
struct FrameData {
    std::vector<P3> parts;
    std::vector<std::vector<T2>> targets;   // by camera
};
struct Store {   // file names of one result store
    std::string corres, linkage, prio; bool with_prio = false;
    std::vector<std::string> img;
    int ncams() const { return (int)img.size(); }
    std::string f_corres(int n) const { return corres + "." + std::to_string(n); }
    std::string f_linkage(int n) const { return linkage + "." + std::to_string(n); }
    std::string f_prio(int n) const { return prio + "." + std::to_string(n); }
    std::string f_targets(int cam, int n) const;
    std::vector<std::string> all(int n) const;   // every file of frame n
};
std::string targets_name(const std::string &base, int n);

// Writing, as openptv does
std::string text_targets(const std::vector<T2> &t);
std::string text_corres(const std::vector<P3> &p, int count_override = -99);
std::string text_linkage(const std::vector<P3> &p, int count_override = -99);
std::string text_prio(const std::vector<P3> &p, int count_override = -99);
void put_frame(Disk &d, const Store &s, int n, const FrameData &f, bool links, bool prio);

// Reading: true if the text is complete.
std::vector<std::string> tokens(const std::string &);
bool tok_int(const std::string &, int &);
bool tok_double(const std::string &, double &);
bool parse_targets(const std::string &, std::vector<T2> &);
bool parse_corres(const std::string &, std::vector<P3> &, int &count);   // x, p
bool parse_linkage(const std::string &, std::vector<P3> &, int &count);  // prev, next
bool parse_prio(const std::string &, std::vector<P3> &, int &count);     // prio
// All of a frame from a disk
bool get_frame(const Disk &d, const Store &s, int n, bool links, bool prio, FrameData &out, std::string *why = nullptr);

bool near_prec(double a, double b, double unit);   // equal to a precision of unit (rounding)
std::string show(const P3 &); std::string show(const T2 &);

// Random content
double any_coord(Rng &r, int style);
int any_int(Rng &r, int style);
FrameData random_frame(u64 seed, int np, int nt, int ncams, int style);
std::vector<T2> random_targets(u64 seed, int nt, int style);

// the library's frame objects
struct frame_ref;   // fwd

// settings files of a kind, as a user might write them (kinds: sequence track volume control target orient sortgrid calblock manori cal)
void make_files(const std::string &kind, u64 seed, int ncams, std::vector<std::string> &names, std::vector<std::string> &texts);
