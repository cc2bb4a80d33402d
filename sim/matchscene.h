// Simulated scenes for multi-camera matching: particles, what each camera detects of them, and what it detects besides.
#pragma once
#include "scene.h"
struct Det { T2 t; double fx, fy; int id; };   // id: particle, or -1
struct MatchScene {
    Rig rig; std::vector<V3> parts; std::vector<int> ids;
    std::vector<std::vector<Det>> dets;   // by camera, in target order (pnr = index)
    bool ok = false;
};
void gen_match_rig(Rng &r, Plan &p, Rig &g, int nc);
MatchScene build_match(const Plan &p, u64 order);
struct Match { int p[4]; double corr; };   // indices of detections (pnr), -1: none
struct MatchRef { std::vector<Match> m; int counts[4]; bool ambiguous = false; bool clean = true; };
// independent implementation of the documented criteria; nc and thresholds from the rig
MatchRef ref_match(const MatchScene &s, const std::vector<std::vector<std::pair<double, double>>> &flat);
// a library frame holding the scene's targets, and the flat coordinates the library makes of them; on fibers only
struct LibMatch {
    frame frm; coord_2d *cor[4]; int nc; control_par *cpar; volume_par *vpar; LibRig L;
    LibMatch(const MatchScene &s, bool fill = true);
    void drop();
};
