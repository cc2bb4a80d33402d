// Simulated particle trajectories as a tracking run finds them on disk, an independent tracker, and the library's.
#pragma once
#include "scene.h"
#include "libframe.h"
struct TrackScene {
    Rig rig; TPar tp; Store st; int first = 1, last = 1; double tol = 1e-4; bool ok = false;
    std::map<int, FrameData> frames;                 // what detection and matching left on disk, rounded as printed
    std::map<int, std::vector<int>> id;              // trajectory of each particle of a frame
    int max_targets() const;
    void put(Disk &d) const;                         // positions and targets; no links
};
struct TrackGen { int nc = 4, frames = 8, parts = 10; bool dense = false, add = false, quiet = false, clear = false; int outside = 0, image = 0; /* camera images of about so many pixels */ };
TrackGen random_track_gen(Rng &r, int tier);
void gen_track(Rng &r, Plan &p, const TrackGen &g);
TrackScene build_track(const Plan &p);

struct MP { V3 x; int p[4]; int prev = -1, next = -2, prio = 4; std::vector<std::pair<float, int>> dec; float fin = 1e6; };
struct MF { bool readable = false; std::vector<MP> parts; std::vector<std::vector<T2>> tg; };
typedef std::map<int, MF> MStore;
// what is on the disk (frames from..to); unreadable frames are empty
MStore read_store(const Disk &d, const TrackScene &s, int from, int to, bool links);
struct TrackModel {
    const TrackScene &s; Vol vol; double lmax; bool ambiguous = false; std::string why;
    u64 links = 0, stolen = 0, added = 0, cands = 0, relinked = 0;
    explicit TrackModel(const TrackScene &s);
    void forward(MStore &m, bool stale);   // stale: with the recycled slot as the frame after the last
    void backward(MStore &m, bool stale);
private:
    void amb(const char *w) { if (!ambiguous) why = w; ambiguous = true; }
    bool lt(double a, double b, double eps);
    bool proj(V3 P, int cam, double &x, double &y);
    struct Cand { int f, q; };
    std::vector<Cand> search(V3 c, const double (*at)[2], const MF &f);
    bool bounds(V3 d);
    void angle(V3 a, V3 b, V3 c, double &ang, double &acc);
    bool admit(double acc, double ang);
    int assess(V3 x, const MF &f, int ind[4], V3 &pos, bool &have);
    void add(MF &f, V3 x, const int ind[4]);
    bool inside(V3 x);
};
FrameData to_frame(const MF &m);
// Compares a frame on disk with the model's; position tolerance for particles beyond nmeasured
void check_tracked(const char *cls, const Disk &d, const TrackScene &s, int n, const MF &want, size_t nmeasured);
// true if frame n on the disk is what the model says
bool same_tracked(const Disk &d, const TrackScene &s, int n, const MF &want, size_t nmeasured, std::string *why);

// A library tracking run; on fibers only
struct LibTrack {
    tracking_run *tr; Names nm; LibRig L; const TrackScene &s;
    explicit LibTrack(const TrackScene &s);
    void forward(const std::function<void(int)> &after = {});   // after(step) after each step, and after the end with last
    void backward() { trackback_c(tr); } double backward_result() { return trackback_c(tr); }
    void drop();
};
// the true links of a scene nothing in which can be confused; false: it can
bool clear_scene(const TrackScene &s, MStore &m);
