// Independent camera geometry, simulated particle scenes, and the library objects describing them.
#pragma once
#include "core.h"
#include "lib.h"
#include "world.h"

struct V3 { double x = 0, y = 0, z = 0;
    double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; } };
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(double s, V3 a) { return {s * a.x, s * a.y, s * a.z}; }
inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline double len(V3 a) { return sqrt(dot(a, a)); }
inline V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline V3 unit(V3 a) { double l = len(a); return (l > 0 ? 1 / l : 0) * a; }

struct Cam {
    V3 c; double om = 0, ph = 0, ka = 0, R[3][3];
    double xh = 0, yh = 0, cc = 50; V3 G{0, 0, 50};
    double k1 = 0, k2 = 0, k3 = 0, p1 = 0, p2 = 0, scx = 1, she = 0;
    void setR();
};
struct Rig {
    int nc = 4, imx = 1000, imy = 1000, chf = 0;
    double px = 0.01, py = 0.01, n1 = 1, n2 = 1, n3 = 1, d = 0;
    double X[2] = {-20, 20}, Zmin[2] = {-10, -10}, Zmax[2] = {10, 10};
    double cn = 0.02, cnx = 0.02, cny = 0.02, csumg = 0.02, eps0 = 0.1, corrmin = 33; int allcam = 0;
    Cam cam[4];
    bool air() const { return n1 == 1 && n2 == 1 && n3 == 1; }
};
// a random arrangement of cameras around a volume; want_pd: with decentring distortion
Rig random_rig(Rng &r, int nc, bool pd);
void put_rig(Plan &p, const Rig &r);
bool get_rig(const Plan &p, Rig &r);

// exact: physics; otherwise with the library's documented iteration (stops at 0.001 mm)
bool project_flat(const Rig &r, int cam, V3 P, double &fx, double &fy, bool exact);
bool project(const Rig &r, int cam, V3 P, double &px, double &py, bool exact);
void to_pixel(const Rig &r, double mx, double my, double &px, double &py);
void to_metric(const Rig &r, double px, double py, double &mx, double &my);
void distort(const Cam &c, double fx, double fy, double &dx, double &dy);
bool undistort(const Cam &c, double dx, double dy, double &fx, double &fy);    // exact inverse (incl. principal point)
void undistort_once(const Cam &c, double dx, double dy, double &fx, double &fy);  // brown part as by correct_brown_affin, no shift
void undistort_iter(const Cam &c, double dx, double dy, double tol, double &fx, double &fy);   // same, as far as the library iterates
bool flatten(const Rig &r, int cam, double px, double py, double &fx, double &fy);
void trace(const Rig &r, int cam, double fx, double fy, V3 &pos, V3 &dir);
V3 intersect(const Rig &r, const std::vector<std::pair<int, std::pair<double, double>>> &flat, double *spread = nullptr);
bool sees(const Rig &r, int cam, V3 P, double margin, double *px = nullptr, double *py = nullptr);
struct Vol { double x0, x1, y0, y1, z0, z1; };
Vol traced_volume(const Rig &r);   // what tr_new makes of the volume

// The library's objects for a rig. The calibrations live as long as this object;
// the rest is owned by whoever takes it.
struct LibRig {
    std::vector<Calibration> cals; std::vector<Calibration *> calp;
    explicit LibRig(const Rig &r);
    Calibration **cal() { return calp.data(); }
    void drop_tables() { for (auto &c : cals) { sim_free(c.mmlut.data); c.mmlut.data = nullptr; } }
};
void fill_cal(Calibration &k, const Cam &c);
control_par *make_cpar(const Rig &r);    // on fibers only (library code allocates)
volume_par *make_vpar(const Rig &r);
sequence_par *make_seq(const std::vector<std::string> &img, int first, int last);

struct TPar { double dv[3][2], dacc, dangle; int add = 0; };   // dv[axis][min,max]
track_par *make_tpar(const TPar &t);
void put_tpar(Plan &p, const TPar &t); bool get_tpar(const Plan &p, TPar &t);
u64 hash3(u64 a, u64 b, u64 c); double hash_uni(u64 h);   // [0,1)
