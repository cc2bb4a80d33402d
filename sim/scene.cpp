#include "scene.h"
u64 hash3(u64 a, u64 b, u64 c) { return mix(mix(mix(0x51ed27, a), b), c); }
double hash_uni(u64 h) { return (mix(h, 9) >> 11) * (1.0 / 9007199254740992.0); }
void Cam::setR() {
    double co = cos(om), so = sin(om), cp = cos(ph), sp = sin(ph), ck = cos(ka), sk = sin(ka);
    // Rx(om) * Ry(ph) * Rz(ka)
    double A[3][3] = {{1, 0, 0}, {0, co, -so}, {0, so, co}}, B[3][3] = {{cp, 0, sp}, {0, 1, 0}, {-sp, 0, cp}}, C[3][3] = {{ck, -sk, 0}, {sk, ck, 0}, {0, 0, 1}}, T[3][3];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { T[i][j] = 0; for (int k = 0; k < 3; k++) T[i][j] += A[i][k] * B[k][j]; }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { R[i][j] = 0; for (int k = 0; k < 3; k++) R[i][j] += T[i][k] * C[k][j]; }
}
static V3 rot(const Cam &c, V3 v) { return {c.R[0][0] * v.x + c.R[0][1] * v.y + c.R[0][2] * v.z, c.R[1][0] * v.x + c.R[1][1] * v.y + c.R[1][2] * v.z, c.R[2][0] * v.x + c.R[2][1] * v.y + c.R[2][2] * v.z}; }
static V3 rotT(const Cam &c, V3 v) { return {c.R[0][0] * v.x + c.R[1][0] * v.y + c.R[2][0] * v.z, c.R[0][1] * v.x + c.R[1][1] * v.y + c.R[2][1] * v.z, c.R[0][2] * v.x + c.R[1][2] * v.y + c.R[2][2] * v.z}; }

// ---------------------------------------------------------------- projection
bool project_flat(const Rig &r, int k, V3 P, double &fx, double &fy, bool exact) {
    const Cam &c = r.cam[k]; V3 A = P;
    if (!r.air()) {
        double g = len(c.G); V3 n = (1 / g) * c.G;
        double hc = dot(c.c, n) - g - r.d, hp = g - dot(P, n);
        if (hc <= 0 || hp < 0) return false;
        V3 foot = c.c - dot(c.c, n) * n, lat = (P - dot(P, n) * n) - foot; double L = len(lat); V3 e = unit(lat);
        double depth = hc + r.d + hp, q;   // the camera-to-point distance along the normal
        if (exact) {
            double lo = 0, hi = r.n1 < r.n2 && r.n1 < r.n3 ? 1 : std::min(1.0, std::min(r.n2, r.n3) / r.n1);
            for (int i = 0; i < 200; i++) {
                double s = 0.5 * (lo + hi), s2 = s * r.n1 / r.n2, s3 = s * r.n1 / r.n3;
                double l = hc * s / sqrt(1 - s * s) + r.d * s2 / sqrt(1 - s2 * s2) + hp * s3 / sqrt(1 - s3 * s3);
                if (l < L) lo = s; else hi = s;
            }
            double s = 0.5 * (lo + hi); q = depth * s / sqrt(1 - s * s);
        } else {
            q = L; int it = 0; double diff;
            do {
                double b1 = atan(q / depth), b2 = asin(sin(b1) * r.n1 / r.n2), b3 = asin(sin(b1) * r.n1 / r.n3);
                diff = L - (hc * tan(b1) + r.d * tan(b2) + hp * tan(b3)); q += diff; it++;
            } while (fabs(diff) > 0.001 && it < 40);
            if (it >= 40) q = L;
        }
        A = P - lat + q * e;
    }
    V3 v = rotT(c, A - c.c);
    if (v.z >= 0) return false;
    fx = -c.cc * v.x / v.z; fy = -c.cc * v.y / v.z;
    return true;
}
void distort(const Cam &c, double fx, double fy, double &dx, double &dy) {
    double x = fx + c.xh, y = fy + c.yh, q = x * x + y * y, k = q * (c.k1 + q * (c.k2 + q * c.k3));
    double x2 = x + x * k + c.p1 * (q + 2 * x * x) + 2 * c.p2 * x * y, y2 = y + y * k + c.p2 * (q + 2 * y * y) + 2 * c.p1 * x * y;
    dx = c.scx * x2 - sin(c.she) * y2; dy = cos(c.she) * y2;
}
bool undistort(const Cam &c, double dx, double dy, double &fx, double &fy) {
    fx = dx - c.xh; fy = dy - c.yh;
    for (int i = 0; i < 60; i++) {   // Newton with numerical derivatives
        double a, b, ax, bx, ay, by, h = 1e-6;
        distort(c, fx, fy, a, b); distort(c, fx + h, fy, ax, bx); distort(c, fx, fy + h, ay, by);
        double j11 = (ax - a) / h, j21 = (bx - b) / h, j12 = (ay - a) / h, j22 = (by - b) / h, det = j11 * j22 - j12 * j21;
        if (fabs(det) < 1e-9) return false;
        double ex = dx - a, ey = dy - b, sx = (ex * j22 - ey * j12) / det, sy = (j11 * ey - j21 * ex) / det;
        fx += sx; fy += sy;
        if (fabs(sx) + fabs(sy) < 1e-13) break;
    }
    double a, b; distort(c, fx, fy, a, b);
    return fabs(a - dx) + fabs(b - dy) < 1e-9;
}
void undistort_iter(const Cam &c, double x, double y, double tol, double &fx, double &fy) {
    // fixed-point iteration from the distorted point until the radius settles, and one more round
    fx = x; fy = y; if (x == 0 && y == 0) return;
    double rq = sqrt(x * x + y * y);
    auto round = [&](double q, bool seq) {
        double k = q * (c.k1 + q * (c.k2 + q * c.k3)), u = fx, v = fy;
        fx = (x + v * sin(c.she)) / c.scx - u * k - c.p1 * (q + 2 * u * u) - 2 * c.p2 * u * v;
        fy = y / cos(c.she) - v * k - c.p2 * (q + 2 * v * v) - 2 * c.p1 * (seq ? fx : u) * v;
    };
    for (int i = 0; i < 201; i++) {
        double r0 = rq; round(r0 * r0, true); rq = sqrt(fx * fx + fy * fy); if (rq > 1.2 * r0) rq = 0.5 * r0;
        if (!(fabs(rq - r0) / r0 > tol)) break;
    }
    round(rq * rq, false);
}
void undistort_once(const Cam &c, double x, double y, double &fx, double &fy) { undistort_iter(c, x, y, 100000, fx, fy); }
void to_pixel(const Rig &r, double mx, double my, double &px, double &py) {
    px = mx / r.px + r.imx / 2.; py = r.imy / 2. - my / r.py;
    if (r.chf == 1) py = (py - 1) / 2; else if (r.chf == 2) py /= 2;
}
void to_metric(const Rig &r, double px, double py, double &mx, double &my) {
    if (r.chf == 1) py = 2 * py + 1; else if (r.chf == 2) py *= 2;
    mx = (px - r.imx / 2.) * r.px; my = (r.imy / 2. - py) * r.py;
}
bool project(const Rig &r, int k, V3 P, double &px, double &py, bool exact) {
    double fx, fy, dx, dy;
    if (!project_flat(r, k, P, fx, fy, exact)) return false;
    distort(r.cam[k], fx, fy, dx, dy); to_pixel(r, dx, dy, px, py);
    return true;
}
bool flatten(const Rig &r, int k, double px, double py, double &fx, double &fy) {
    double mx, my; to_metric(r, px, py, mx, my);
    return undistort(r.cam[k], mx, my, fx, fy);
}
void trace(const Rig &r, int k, double fx, double fy, V3 &pos, V3 &dir) {
    const Cam &c = r.cam[k]; V3 u = unit(rot(c, {fx, fy, -c.cc}));
    double g = len(c.G); V3 n = (1 / g) * c.G;
    double t = (g + r.d - dot(c.c, n)) / dot(u, n); V3 a = c.c + t * u;   // outer glass face
    auto refract = [&](V3 u, double na, double nb) { V3 l = (na / nb) * (u - dot(u, n) * n); return l - sqrt(1 - dot(l, l)) * n; };
    V3 v = refract(u, r.n1, r.n2);
    pos = a + (r.d / -dot(v, n)) * v;
    dir = refract(v, r.n2, r.n3);
}
static double midpoint(V3 p, V3 u, V3 q, V3 v, V3 &m) {
    V3 w = p - q; double a = dot(u, u), b = dot(u, v), c = dot(v, v), d = dot(u, w), e = dot(v, w), D = a * c - b * b;
    double s = (b * e - c * d) / D, t = (a * e - b * d) / D; V3 x = p + s * u, y = q + t * v;
    m = 0.5 * (x + y); return len(x - y);
}
V3 intersect(const Rig &r, const std::vector<std::pair<int, std::pair<double, double>>> &f, double *spread) {
    std::vector<V3> p(f.size()), u(f.size()); V3 sum; int n = 0; double sp = 0;
    for (size_t i = 0; i < f.size(); i++) trace(r, f[i].first, f[i].second.first, f[i].second.second, p[i], u[i]);
    for (size_t i = 0; i < f.size(); i++) for (size_t j = i + 1; j < f.size(); j++) { V3 m; sp += midpoint(p[i], u[i], p[j], u[j], m); sum = sum + m; n++; }
    if (spread) *spread = n ? sp / n : 0;
    return n ? (1.0 / n) * sum : sum;
}
bool sees(const Rig &r, int k, V3 P, double margin, double *ox, double *oy) {
    double x, y; if (!project(r, k, P, x, y, true)) return false;
    double h = r.chf ? r.imy / 2. : r.imy;
    if (ox) *ox = x;
    if (oy) *oy = y;
    return x > margin && y > margin && x < r.imx - margin && y < h - margin;
}
Vol traced_volume(const Rig &r) {
    Vol v; v.x0 = r.X[0]; v.x1 = r.X[1]; v.y0 = v.y1 = 0;
    v.z0 = std::min(r.Zmin[0], r.Zmin[1]); v.z1 = std::max(r.Zmax[0], r.Zmax[1]);
    for (int k = 0; k < r.nc; k++) for (int i = 0; i < 4; i++) {
        double mx, my, fx, fy; to_metric(r, (i & 1) ? r.imx : 0, (i & 2) ? r.imy : 0, mx, my);
        undistort_once(r.cam[k], mx - r.cam[k].xh, my - r.cam[k].yh, fx, fy);
        V3 p, u; trace(r, k, fx, fy, p, u);
        for (double z : {v.z0, v.z1}) {
            double x = p.x + (z - p.z) * u.x / u.z, y = p.y + (z - p.z) * u.y / u.z;
            v.x0 = std::min(v.x0, x); v.x1 = std::max(v.x1, x); v.y0 = std::min(v.y0, y); v.y1 = std::max(v.y1, y);
        }
    }
    return v;
}
// ---------------------------------------------------------------- random rigs
Rig random_rig(Rng &r, int nc, bool pd) {
    for (int attempt = 0;; attempt++) {
        Rig g; g.nc = nc;
        g.imx = (int)r.pick(std::vector<i64>{512, 640, 1024, 1280}); g.imy = (int)r.pick(std::vector<i64>{512, 480, 1024, 1000});
        g.px = r.pick(std::vector<double>{0.005, 0.01, 0.012, 0.017}); g.py = r.chance(0.7) ? g.px : g.px * r.uni(0.9, 1.1);
        g.chf = r.chance(0.12) ? 1 + (int)r.below(2) : 0;
        bool water = r.chance(0.55);
        if (water) { g.n1 = 1; g.n2 = r.uni(1.45, 1.55); g.n3 = r.chance(0.8) ? 1.33 : r.uni(1.2, 1.5); g.d = r.uni(1, 12); }
        else { g.d = r.chance(0.5) ? 0 : r.uni(1, 8); }
        double xr = r.uni(10, 40), zr = r.uni(5, 20);
        g.X[0] = -xr; g.X[1] = xr;
        g.Zmin[0] = g.Zmin[1] = -zr; g.Zmax[0] = g.Zmax[1] = zr;
        if (r.chance(0.3)) { g.Zmin[1] -= r.uni(0, 5); g.Zmax[1] += r.uni(0, 5); }
        double zlo = std::min(g.Zmin[0], g.Zmin[1]), zhi = std::max(g.Zmax[0], g.Zmax[1]);
        double gz = zhi + r.uni(3, 30), dist = r.uni(150, 400), base = r.uni(0, 2 * M_PI);
        bool okk = true;
        for (int k = 0; k < nc; k++) {
            Cam &c = g.cam[k];
            double tilt = r.uni(0.12, water ? 0.45 : 0.6), az = base + 2 * M_PI * k / nc + r.uni(-0.35, 0.35), dd = dist * r.uni(0.9, 1.15);
            V3 u{sin(tilt) * cos(az), sin(tilt) * sin(az), cos(tilt)}, T{r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)};
            c.c = T + dd * u; if (c.c.z < gz + g.d + 20) { c.c = T + ((gz + g.d + 20 - T.z) / u.z) * u; u = unit(c.c - T); }
            c.ph = asin(u.x); c.om = atan2(-u.y, u.z); c.ka = r.chance(0.5) ? r.uni(-0.1, 0.1) : r.uni(-M_PI, M_PI);
            c.setR();
            V3 gn{0, 0, 1}; if (r.chance(0.3)) gn = unit({r.uni(-0.05, 0.05), r.uni(-0.05, 0.05), 1});
            double gl = gz; if (gn.z < 1) gl = gz + xr * 0.1;
            c.G = gl * gn;
            double rm = 0.5 * sqrt(g.imx * g.px * g.imx * g.px + g.imy * g.py * g.imy * g.py);
            c.cc = 100; c.xh = r.uni(-0.1, 0.1) * rm * 0.3; c.yh = r.uni(-0.1, 0.1) * rm * 0.3;
            if (r.chance(0.7)) {
                c.k1 = r.uni(-0.012, 0.012) / (rm * rm); c.k2 = r.uni(-0.005, 0.005) / pow(rm, 4); c.k3 = r.chance(0.5) ? r.uni(-0.002, 0.002) / pow(rm, 6) : 0;
                c.scx = 1 + r.uni(-0.01, 0.01); c.she = r.uni(-0.005, 0.005);
                if (pd) { c.p1 = r.uni(-2e-4, 2e-4) / rm; c.p2 = r.uni(-2e-4, 2e-4) / rm; }
            }
            double f = 1e9, hx = g.imx * g.px / 2, hy = g.imy * g.py / 2;
            for (int i = 0; i < 8; i++) {
                V3 P{(i & 1) ? xr : -xr, (i & 2) ? xr : -xr, (i & 4) ? zhi : zlo}; double x, y;
                if (!project_flat(g, k, P, x, y, true)) { okk = false; break; }
                f = std::min(f, std::min(hx / (fabs(x) + 1e-9), hy / (fabs(y) + 1e-9)));
            }
            c.cc *= f * r.uni(0.75, 0.95);
        }
        if (okk || attempt > 50) return g;
    }
}
void put_rig(Plan &p, const Rig &r) {
    // counts as such; the rest never looks like a plain integer, so that it is not shrunk
    p.put("rig", r.nc, r.imx, r.imy, r.chf, r.px, r.py, r.n1, r.n2, r.n3, r.d);
    p.put("vol", r.X[0], r.X[1], r.Zmin[0], r.Zmin[1], r.Zmax[0], r.Zmax[1]);
    p.put("crit", r.cn, r.cnx, r.cny, r.csumg, r.eps0, r.corrmin, r.allcam);
    for (int k = 0; k < r.nc; k++) {
        const Cam &c = r.cam[k];
        p.put("cam", c.c.x, c.c.y, c.c.z, c.om, c.ph, c.ka, c.xh, c.yh, c.cc, c.G.x, c.G.y, c.G.z, c.k1, c.k2, c.k3, c.p1, c.p2, c.scx, c.she);
    }
}
bool get_rig(const Plan &p, Rig &r) {
    const Line *g = p.find("rig"), *v = p.find("vol"), *q = p.find("crit");
    if (!g || !v || g->t.size() < 11 || v->t.size() < 7) return false;
    r = Rig(); int want = g->i(1); r.imx = g->i(2); r.imy = g->i(3); r.chf = g->i(4); r.px = g->d(5); r.py = g->d(6); r.n1 = g->d(7); r.n2 = g->d(8); r.n3 = g->d(9); r.d = g->d(10);
    for (int i = 0; i < 2; i++) { r.X[i] = v->d(1 + i); r.Zmin[i] = v->d(3 + i); r.Zmax[i] = v->d(5 + i); }
    if (q && q->t.size() >= 8) { r.cn = q->d(1); r.cnx = q->d(2); r.cny = q->d(3); r.csumg = q->d(4); r.eps0 = q->d(5); r.corrmin = q->d(6); r.allcam = q->i(7); }
    int n = 0;
    for (auto &l : p.lines) if (l.kind() == "cam" && n < 4) {
        if (l.t.size() < 20) return false;
        Cam &c = r.cam[n++]; c.c = {l.d(1), l.d(2), l.d(3)}; c.om = l.d(4); c.ph = l.d(5); c.ka = l.d(6); c.xh = l.d(7); c.yh = l.d(8); c.cc = l.d(9); c.G = {l.d(10), l.d(11), l.d(12)};
        c.k1 = l.d(13); c.k2 = l.d(14); c.k3 = l.d(15); c.p1 = l.d(16); c.p2 = l.d(17); c.scx = l.d(18); c.she = l.d(19); c.setR();
        if (len(c.G) < 1 || c.cc < 1e-3) return false;
    }
    r.nc = n; (void)want;
    return n > 0 && r.imx > 50 && r.imy > 50 && r.chf >= 0 && r.chf <= 2 && r.px > 1e-6 && r.py > 1e-6 && r.n1 > 0.5 && r.n2 > 0.5 && r.n3 > 0.5 && r.d >= 0;
}
// ---------------------------------------------------------------- library objects
void fill_cal(Calibration &k, const Cam &c) {
    memset(&k, 0, sizeof k);
    k.ext_par.x0 = c.c.x; k.ext_par.y0 = c.c.y; k.ext_par.z0 = c.c.z; k.ext_par.omega = c.om; k.ext_par.phi = c.ph; k.ext_par.kappa = c.ka;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) k.ext_par.dm[i][j] = c.R[i][j];
    k.int_par.xh = c.xh; k.int_par.yh = c.yh; k.int_par.cc = c.cc; k.glass_par.vec_x = c.G.x; k.glass_par.vec_y = c.G.y; k.glass_par.vec_z = c.G.z;
    k.added_par.k1 = c.k1; k.added_par.k2 = c.k2; k.added_par.k3 = c.k3; k.added_par.p1 = c.p1; k.added_par.p2 = c.p2; k.added_par.scx = c.scx; k.added_par.she = c.she;
}
LibRig::LibRig(const Rig &r) { cals.resize(r.nc); for (int k = 0; k < r.nc; k++) { fill_cal(cals[k], r.cam[k]); } for (auto &c : cals) calp.push_back(&c); }
control_par *make_cpar(const Rig &r) {
    control_par *c = new_control_par(r.nc); if (!c) return c;
    for (int k = 0; k < r.nc; k++) { snprintf(c->img_base_name[k], 20, "img%d", k); snprintf(c->cal_img_base_name[k], 20, "cal%d", k); }
    c->hp_flag = 1; c->allCam_flag = r.allcam; c->tiff_flag = 1; c->imx = r.imx; c->imy = r.imy; c->pix_x = r.px; c->pix_y = r.py; c->chfield = r.chf;
    c->mm->nlay = 1; c->mm->n1 = r.n1; c->mm->n2[0] = r.n2; c->mm->d[0] = r.d; c->mm->n3 = r.n3;
    return c;
}
volume_par *make_vpar(const Rig &r) {
    volume_par *v = (volume_par *)sim_malloc(sizeof(volume_par)); if (!v) return v;
    for (int i = 0; i < 2; i++) { v->X_lay[i] = r.X[i]; v->Zmin_lay[i] = r.Zmin[i]; v->Zmax_lay[i] = r.Zmax[i]; }
    v->cn = r.cn; v->cnx = r.cnx; v->cny = r.cny; v->csumg = r.csumg; v->eps0 = r.eps0; v->corrmin = r.corrmin;
    return v;
}
sequence_par *make_seq(const std::vector<std::string> &img, int first, int last) {
    sequence_par *s = new_sequence_par((int)img.size());
    for (size_t k = 0; k < img.size(); k++) { strncpy(s->img_base_name[k], img[k].c_str(), SEQ_FNAME_MAX_LEN - 1); s->img_base_name[k][SEQ_FNAME_MAX_LEN - 1] = 0; }
    s->first = first; s->last = last; return s;
}
track_par *make_tpar(const TPar &t) {
    track_par *q = (track_par *)sim_malloc(sizeof(track_par));
    q->dvxmin = t.dv[0][0]; q->dvxmax = t.dv[0][1]; q->dvymin = t.dv[1][0]; q->dvymax = t.dv[1][1]; q->dvzmin = t.dv[2][0]; q->dvzmax = t.dv[2][1];
    q->dacc = t.dacc; q->dangle = t.dangle; q->add = t.add; q->dsumg = q->dn = q->dnx = q->dny = 0;
    return q;
}
void put_tpar(Plan &p, const TPar &t) { p.put("tpar", t.dv[0][0], t.dv[0][1], t.dv[1][0], t.dv[1][1], t.dv[2][0], t.dv[2][1], t.dacc, t.dangle, t.add); }
bool get_tpar(const Plan &p, TPar &t) {
    const Line *l = p.find("tpar"); if (!l || l->t.size() < 10) return false;
    for (int i = 0; i < 6; i++) t.dv[i / 2][i % 2] = l->d(1 + i);
    t.dacc = l->d(7); t.dangle = l->d(8); t.add = l->i(9) != 0;
    for (int i = 0; i < 3; i++) if (!(t.dv[i][0] < t.dv[i][1])) return false;
    return t.dacc > 0 && t.dangle > 0;
}
