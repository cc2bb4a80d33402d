// Not a property: compares the simulator's own geometry with the library's on a healthy tree.
#include "scene.h"
static void gen(u64 seed, int, Plan &p) {
    Rng r(seed); p.put("env", r.below(1u << 30), r.below(1u << 30), 0, 0);
    put_rig(p, random_rig(r, 1 + r.below(4), false)); p.put("pts", r.below(1u << 30));
}
static Outcome exec(const Plan &p) {
    return guarded(p, [&](Outcome &) {
        Rig g; if (!get_rig(p, g)) fail("invalid", "rig");
        LibRig L(g); Rng r(p.geti("pts", 1));
        lib([&] {
            control_par *c = make_cpar(g); volume_par *v = make_vpar(g);
            double ymin = 0, ymax = 0; volumedimension(&v->X_lay[1], &v->X_lay[0], &ymax, &ymin, &v->Zmax_lay[1], &v->Zmin_lay[0], v, c, L.cal());
            Vol t = traced_volume(g);
            double e = fabs(t.x0 - v->X_lay[0]) + fabs(t.x1 - v->X_lay[1]) + fabs(t.y0 - ymin) + fabs(t.y1 - ymax) + fabs(t.z0 - v->Zmin_lay[0]) + fabs(t.z1 - v->Zmax_lay[1]);
            if (!(e < 1e-6)) fail("vol", "%g: %g %g %g %g / %g %g %g %g", e, t.x0, t.x1, t.y0, t.y1, v->X_lay[0], v->X_lay[1], ymin, ymax);
            for (int i = 0; i < 30; i++) {
                V3 P{r.uni(g.X[0], g.X[1]), r.uni(g.X[0], g.X[1]), r.uni(g.Zmin[0], g.Zmax[0])}; vec3d q = {P.x, P.y, P.z};
                vec2d tg[4]; std::vector<std::pair<int, std::pair<double, double>>> fl;
                for (int k = 0; k < g.nc; k++) {
                    double x, y, ex, ey, v1[2]; if (!project(g, k, P, x, y, false) || !project(g, k, P, ex, ey, true)) fail("proj", "no projection");
                    point_to_pixel(v1, q, L.cal()[k], c);
                    if (!(fabs(v1[0] - x) + fabs(v1[1] - y) < 1e-7)) fail("proj", "%.9g %.9g / %.9g %.9g", v1[0], v1[1], x, y);
                    if (!(fabs(ex - x) + fabs(ey - y) < 0.3)) fail("exact", "%.9g %.9g / %.9g %.9g", ex, ey, x, y);
                    double fx, fy; if (!flatten(g, k, ex, ey, fx, fy)) fail("flat", "no");
                    double mx, my, lx, ly; pixel_to_metric(&mx, &my, ex, ey, c); dist_to_flat(mx, my, L.cal()[k], &lx, &ly, 1e-10);
                    double ix, iy; undistort_iter(g.cam[k], mx, my, 1e-10, ix, iy); ix -= g.cam[k].xh; iy -= g.cam[k].yh;
                    if (!(fabs(lx - ix) + fabs(ly - iy) < 1e-11)) fail("iter", "%.12g %.12g / %.12g %.12g", lx, ly, ix, iy);
                    if (!(fabs(lx - fx) + fabs(ly - fy) < 2e-3)) fail("flat", "%.12g %.12g / %.12g %.12g", lx, ly, fx, fy);
                    tg[k][0] = fx; tg[k][1] = fy; fl.push_back({k, {fx, fy}});
                }
                if (g.nc < 2) continue;
                vec3d res; double sp, lsp = point_position(tg, g.nc, c->mm, L.cal(), res); V3 m = intersect(g, fl, &sp);
                if (!(fabs(res[0] - m.x) + fabs(res[1] - m.y) + fabs(res[2] - m.z) < 1e-6)) fail("pp", "%g %g %g / %g %g %g", res[0], res[1], res[2], m.x, m.y, m.z);
                if (!(len(m - P) < 1e-5)) fail("pp2", "%g %g %g / %g %g %g", P.x, P.y, P.z, m.x, m.y, m.z);
                if (!(fabs(sp - lsp) < 1e-6)) fail("sp", "%g %g", sp, lsp);
            }
            free_control_par(c); sim_free(v);
        });
    });
}
static Reg r0({"SELF", gen, exec, 2000, 20000});
