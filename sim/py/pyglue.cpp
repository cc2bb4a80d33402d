// The simulator with a Python interpreter in it: the extension modules of py_bind, compiled from the working tree, call
// the same library on the same simulated disk and allocator as the C++ properties. Plans are made and executed by
// simpy.py; this file is what it sees of the simulator ("_sim"), and the library called without its Python layer.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "../core.h"
#include "../scene.h"
#include "../trackscene.h"
#include "../ops.h"
#include <unistd.h>
extern bool g_soft_bad; extern std::string g_bad;

// ---------------------------------------------------------------- arguments
static PyObject *py_err() { return nullptr; }
static bool doubles(PyObject *o, std::vector<double> &v) {
    PyObject *f = PySequence_Fast(o, "sequence of numbers"); if (!f) return false;
    Py_ssize_t n = PySequence_Fast_GET_SIZE(f); v.resize(n);
    for (Py_ssize_t k = 0; k < n; k++) { v[k] = PyFloat_AsDouble(PySequence_Fast_GET_ITEM(f, k)); }
    Py_DECREF(f); return !PyErr_Occurred();
}
static PyObject *list(const std::vector<double> &v) {
    PyObject *l = PyList_New(v.size()); for (size_t k = 0; k < v.size(); k++) PyList_SET_ITEM(l, k, PyFloat_FromDouble(v[k])); return l;
}
// a rig as a flat list of numbers
static std::vector<double> flat_rig(const Rig &r) {
    std::vector<double> v = {(double)r.nc, (double)r.imx, (double)r.imy, (double)r.chf, r.px, r.py, r.n1, r.n2, r.n3, r.d, r.X[0], r.X[1], r.Zmin[0], r.Zmin[1], r.Zmax[0], r.Zmax[1],
        r.cn, r.cnx, r.cny, r.csumg, r.eps0, r.corrmin, (double)r.allcam};
    for (int k = 0; k < r.nc; k++) { const Cam &c = r.cam[k]; for (double x : {c.c.x, c.c.y, c.c.z, c.om, c.ph, c.ka, c.xh, c.yh, c.cc, c.G.x, c.G.y, c.G.z, c.k1, c.k2, c.k3, c.p1, c.p2, c.scx, c.she}) v.push_back(x); }
    return v;
}
static Rig unflat(const std::vector<double> &v) {
    Rig r; size_t i = 0; auto d = [&]() { return i < v.size() ? v[i++] : 0.0; };
    r.nc = (int)d(); r.imx = (int)d(); r.imy = (int)d(); r.chf = (int)d(); r.px = d(); r.py = d(); r.n1 = d(); r.n2 = d(); r.n3 = d(); r.d = d();
    for (double *a : {r.X, r.Zmin, r.Zmax}) { a[0] = d(); a[1] = d(); }
    r.cn = d(); r.cnx = d(); r.cny = d(); r.csumg = d(); r.eps0 = d(); r.corrmin = d(); r.allcam = (int)d();
    for (int k = 0; k < r.nc && k < 4; k++) { Cam &c = r.cam[k]; for (double *x : {&c.c.x, &c.c.y, &c.c.z, &c.om, &c.ph, &c.ka, &c.xh, &c.yh, &c.cc, &c.G.x, &c.G.y, &c.G.z, &c.k1, &c.k2, &c.k3, &c.p1, &c.p2, &c.scx, &c.she}) *x = d(); c.setR(); }
    return r;
}
static void flat_cal(const Calibration &k, std::vector<double> &o) {
    for (double x : {k.ext_par.x0, k.ext_par.y0, k.ext_par.z0, k.ext_par.omega, k.ext_par.phi, k.ext_par.kappa, k.int_par.xh, k.int_par.yh, k.int_par.cc, k.glass_par.vec_x, k.glass_par.vec_y, k.glass_par.vec_z,
        k.added_par.k1, k.added_par.k2, k.added_par.k3, k.added_par.p1, k.added_par.p2, k.added_par.scx, k.added_par.she}) o.push_back(x);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o.push_back(k.ext_par.dm[i][j]);
}
// targets: eight numbers each
static void get_targets(const std::vector<double> &v, size_t from, size_t n, std::vector<target> &t) {
    t.resize(n); for (size_t k = 0; k < n; k++) { const double *q = &v[from + 8 * k]; t[k] = target{}; t[k].pnr = (int)q[0]; t[k].x = q[1]; t[k].y = q[2]; t[k].n = (int)q[3]; t[k].nx = (int)q[4]; t[k].ny = (int)q[5]; t[k].sumg = (int)q[6]; t[k].tnr = (int)q[7]; }
}
static void put_targets(const target *t, size_t n, std::vector<double> &o) {
    for (size_t k = 0; k < n; k++) for (double x : {(double)t[k].pnr, t[k].x, t[k].y, (double)t[k].n, (double)t[k].nx, (double)t[k].ny, (double)t[k].sumg, (double)t[k].tnr}) o.push_back(x);
}
struct Par { control_par *c; volume_par *v; LibRig L; Par(const Rig &r) : c(make_cpar(r)), v(make_vpar(r)), L(r) { for (auto &k : L.cals) rotation_matrix(&k.ext_par); } ~Par() { free_control_par(c); sim_free(v); } };

// The library without its Python layer: lib(what, rig, numbers[, bytes]) -> numbers (and bytes, in place)
static std::vector<double> call_lib(const std::string &w, const Rig &r, const std::vector<double> &a, std::string &img) {
    std::vector<double> o; Par p(r); Calibration *k0 = p.L.cal()[0];
    auto each2 = [&](auto f) { for (size_t i = 0; i + 1 < a.size(); i += 2) { double x = 0, y = 0; f(a[i], a[i + 1], x, y); o.push_back(x); o.push_back(y); } };
    if (w == "pixel_to_metric") each2([&](double x, double y, double &u, double &v) { pixel_to_metric(&u, &v, x, y, p.c); });
    else if (w == "metric_to_pixel") each2([&](double x, double y, double &u, double &v) { metric_to_pixel(&u, &v, x, y, p.c); });
    else if (w == "correct_brown_affin") each2([&](double x, double y, double &u, double &v) { correct_brown_affin(x, y, k0->added_par, &u, &v); });
    else if (w == "distort_brown_affin") each2([&](double x, double y, double &u, double &v) { distort_brown_affin(x, y, k0->added_par, &u, &v); });
    else if (w == "dist_to_flat") { double tol = a[0]; for (size_t i = 1; i + 1 < a.size(); i += 2) { double x, y; dist_to_flat(a[i], a[i + 1], k0, &x, &y, tol); o.push_back(x); o.push_back(y); } }
    else if (w == "flat_image_coord" || w == "img_coord") for (size_t i = 0; i + 2 < a.size(); i += 3) {
        vec3d q = {a[i], a[i + 1], a[i + 2]}; double x, y; if (w[0] == 'f') flat_image_coord(q, k0, p.c->mm, &x, &y); else img_coord(q, k0, p.c->mm, &x, &y); o.push_back(x); o.push_back(y); }
    else if (w == "epipolar") {   // point, heights
        double x, y; pixel_to_metric(&x, &y, a[0], a[1], p.c); dist_to_flat(x, y, p.L.cal()[0], &x, &y, 0.00001);
        vec3d q, d, e; ray_tracing(x, y, p.L.cal()[0], *p.c->mm, q, d);
        for (size_t i = 2; i < a.size(); i++) { move_along_ray(a[i], q, d, e); img_coord(e, p.L.cal()[1], p.c->mm, &x, &y); metric_to_pixel(&x, &y, x, y, p.c); o.push_back(x); o.push_back(y); }
    }
    else if (w == "point_position") for (size_t i = 0; i + 2 * r.nc <= a.size(); i += 2 * r.nc) {
        std::vector<double> t(a.begin() + i, a.begin() + i + 2 * r.nc); vec3d q = {0, 0, 0}; double m = point_position((vec2d *)t.data(), r.nc, p.c->mm, p.L.cal(), q); for (double x : q) o.push_back(x); o.push_back(m); }
    else if (w == "epi_mm_2D") for (size_t i = 0; i + 1 < a.size(); i += 2) { vec3d q; epi_mm_2D(a[i], a[i + 1], k0, p.c->mm, p.v, q); for (double x : q) o.push_back(x); }
    else if (w == "dumbbell") {   // number of points, length, weight, coordinates
        size_t n = (size_t)a[0]; std::vector<double> t(a.begin() + 3, a.end()); std::vector<vec2d *> q; for (size_t i = 0; i < n; i++) q.push_back((vec2d *)&t[2 * r.nc * i]);
        o.push_back(weighted_dumbbell_precision(q.data(), (int)n, r.nc, p.c->mm, p.L.cal(), (int)a[1], a[2]));
    }
    else if (w == "raw_orient") {   // n, points, image points
        size_t n = (size_t)a[0]; std::vector<double> f(a.begin() + 1, a.begin() + 1 + 3 * n); std::vector<target> t(n); for (size_t i = 0; i < n; i++) { t[i] = target{}; t[i].x = a[1 + 3 * n + 2 * i]; t[i].y = a[1 + 3 * n + 2 * i + 1]; }
        int ok = raw_orient(k0, p.c, (int)n, (vec3d *)f.data(), t.data()); o.push_back(ok); flat_cal(*k0, o);
    }
    else if (w == "orient") {   // flags, n, points, targets
        int fl = (int)a[0]; size_t n = (size_t)a[1]; std::vector<double> f(a.begin() + 2, a.begin() + 2 + 3 * n); std::vector<target> t; get_targets(a, 2 + 3 * n, n, t);
        orient_par q; memset(&q, 0, sizeof q); unsigned int *b[] = {(unsigned *)&q.ccflag, (unsigned *)&q.xhflag, (unsigned *)&q.yhflag, (unsigned *)&q.k1flag, (unsigned *)&q.k2flag, (unsigned *)&q.k3flag, (unsigned *)&q.p1flag, (unsigned *)&q.p2flag, (unsigned *)&q.scxflag, (unsigned *)&q.sheflag};
        for (int i = 0; i < 10; i++) *b[i] = fl >> i & 1;
        double sb[NPAR + 1 > 20 ? NPAR + 1 : 20] = {0}; double *res = orient(k0, p.c, (int)n, (vec3d *)f.data(), t.data(), &q, sb);
        o.push_back(res != nullptr); flat_cal(*k0, o); for (int i = 0; i <= NPAR; i++) o.push_back(sb[i]); if (res) for (size_t i = 0; i < 2 * n; i++) o.push_back(res[i]); sim_free(res);
        for (auto &x : t) o.push_back(x.pnr);
    }
    else if (w == "sortgrid") {   // radius, n, points, targets
        size_t n = (size_t)a[1]; std::vector<double> f(a.begin() + 2, a.begin() + 2 + 3 * n); size_t m = (a.size() - 2 - 3 * n) / 8; std::vector<target> t; get_targets(a, 2 + 3 * n, m, t);
        target *q = sortgrid(k0, p.c, (int)n, (vec3d *)f.data(), (int)m, (int)a[0], t.data()); put_targets(q, n, o); sim_free(q); put_targets(t.data(), m, o);
    }
    else if (w == "targ_rec") {   // camera, sub-range, target parameters
        target_par tp; memset(&tp, 0, sizeof tp); size_t i = 5; tp.discont = (int)a[i++]; for (int &g : tp.gvthres) g = (int)a[i++]; tp.nnmin = (int)a[i++]; tp.nnmax = (int)a[i++]; tp.nxmin = (int)a[i++]; tp.nxmax = (int)a[i++]; tp.nymin = (int)a[i++]; tp.nymax = (int)a[i++]; tp.sumg_min = (int)a[i++]; tp.cr_sz = (int)a[i++];
        std::vector<target> t(img.size() + 1024); int n = targ_rec((unsigned char *)&img[0], &tp, (int)a[1], (int)a[2], (int)a[3], (int)a[4], p.c, (int)a[0], t.data()); put_targets(t.data(), n, o);
    }
    else if (w == "prepare_image") {   // lowpass, filter; the filter file is f/filter.par
        std::string out(img.size(), 0); char fn[] = "f/filter.par"; o.push_back(prepare_image((unsigned char *)&img[0], (unsigned char *)&out[0], (int)a[0], (int)a[1], fn, p.c)); img = out;
    }
    else if (w == "correspondences") {   // tolerance, then per camera a number and its targets
        frame frm; memset(&frm, 0, sizeof frm); std::vector<std::vector<target>> t(r.nc); std::vector<std::vector<coord_2d>> c(r.nc); std::vector<target *> tp; std::vector<coord_2d *> cp; std::vector<int> nt; size_t i = 1;
        for (int k = 0; k < r.nc; k++) {
            size_t n = (size_t)a[i++]; get_targets(a, i, n, t[k]); i += 8 * n; nt.push_back((int)n); c[k].resize(n);
            for (size_t j = 0; j < n; j++) { t[k][j].pnr = (int)j; double x, y; pixel_to_metric(&x, &y, t[k][j].x, t[k][j].y, p.c); dist_to_flat(x, y, p.L.cal()[k], &c[k][j].x, &c[k][j].y, a[0]); c[k][j].pnr = (int)j; }
            quicksort_coord2d_x(c[k].data(), (int)n); tp.push_back(t[k].data()); cp.push_back(c[k].data());
            for (auto &q : c[k]) { o.push_back(q.x); o.push_back(q.y); o.push_back(q.pnr); }
        }
        if (r.nc > 1) {
            frm.targets = tp.data(); frm.num_targets = nt.data(); frm.num_cams = r.nc; int mc[4] = {0, 0, 0, 0};
            n_tupel *q = correspondences(&frm, cp.data(), p.v, p.c, p.L.cal(), mc); o.push_back(q ? 1 : 0);
            if (q) { for (int m : mc) o.push_back(m); for (int m = 0; m < mc[3]; m++) for (int k = 0; k < r.nc; k++) o.push_back(q[m].p[k] < 0 ? -1 : c[k][q[m].p[k]].pnr); }
            sim_free(q); for (auto &x : t) for (auto &y : x) o.push_back(y.tnr);
        }
    }
    else if (w == "rotation") { Calibration k = *k0; flat_cal(k, o); }
    else { fprintf(stderr, "no %s\n", w.c_str()); _exit(2); }
    p.L.drop_tables();
    return o;
}

// ---------------------------------------------------------------- the module
static std::string pystr(PyObject *o) { if (PyBytes_Check(o)) return std::string(PyBytes_AS_STRING(o), PyBytes_GET_SIZE(o)); Py_ssize_t n; const char *c = PyUnicode_AsUTF8AndSize(o, &n); return c ? std::string(c, n) : std::string(); }
#define FN(name) static PyObject *name(PyObject *, PyObject *args)
FN(s_put) { PyObject *a, *b; if (!PyArg_ParseTuple(args, "OO", &a, &b)) return py_err(); S->disk.files[pystr(a)] = pystr(b); Py_RETURN_NONE; }
FN(s_del) { PyObject *a; if (!PyArg_ParseTuple(args, "O", &a)) return py_err(); S->disk.files.erase(pystr(a)); Py_RETURN_NONE; }
FN(s_get) { PyObject *a; if (!PyArg_ParseTuple(args, "O", &a)) return py_err(); auto it = S->disk.files.find(pystr(a)); if (it == S->disk.files.end()) Py_RETURN_NONE; return PyBytes_FromStringAndSize(it->second.data(), it->second.size()); }
FN(s_files) { PyObject *l = PyList_New(0); for (auto &f : S->disk.files) { PyObject *s = PyUnicode_DecodeUTF8(f.first.data(), f.first.size(), "replace"); PyList_Append(l, s); Py_DECREF(s); } return l; }
FN(s_fault) { const char *k, *m; long long at; int sticky, e; if (!PyArg_ParseTuple(args, "ssLii", &k, &m, &at, &sticky, &e)) return py_err();
    Fault f; f.kind = *k == 'o' ? F_OPEN : *k == 'r' ? F_READ : *k == 'w' ? F_WRITE : F_CLOSE; f.match = m; f.at = at; f.sticky = sticky; f.err = e; S->faults.push_back(f); Py_RETURN_NONE; }
static u64 g_failed0;   // failed allocations before the last heal
FN(s_heal) { g_failed0 = S->allocs_failed; S->clear_faults(); S->clear_alloc_faults(); Py_RETURN_NONE; }
FN(s_fired) { u64 n = S->allocs_failed - g_failed0; for (auto &f : S->faults) n += f.fired; return PyLong_FromUnsignedLongLong(n); }
FN(s_oom) { long long k; int all; if (!PyArg_ParseTuple(args, "Lp", &k, &all)) return py_err(); S->start_alloc_faults(); if (all) { S->fail_all_after = true; S->fail_after = k; } else S->alloc_fail.insert(k); Py_RETURN_NONE; }
FN(s_allocs) { return PyLong_FromUnsignedLongLong(S->alloc_count); }
FN(s_live) { return PyLong_FromSize_t(S->live.size()); }
FN(s_open) { return PyLong_FromSize_t(S->open.size()); }
FN(s_leaks) { return PyUnicode_FromString(S->leak_report().c_str()); }
FN(s_bad) { if (g_bad.empty()) Py_RETURN_NONE; return PyUnicode_FromString(g_bad.c_str()); }
FN(s_log) { PyObject *a; if (!PyArg_ParseTuple(args, "O", &a)) return py_err(); S->logs(pystr(a)); Py_RETURN_NONE; }
static std::vector<std::pair<std::string, std::string>> g_known;
FN(s_known) { const char *c, *t; if (!PyArg_ParseTuple(args, "ss", &c, &t)) return py_err(); g_known.push_back({c, t}); Py_RETURN_NONE; }
FN(s_stat) { const char *k; if (!PyArg_ParseTuple(args, "s", &k)) return py_err(); stats.inc(k); Py_RETURN_NONE; }
FN(s_rig) { unsigned long long seed; int nc, pd; if (!PyArg_ParseTuple(args, "Kip", &seed, &nc, &pd)) return py_err(); Rng r(seed); return list(flat_rig(random_rig(r, nc, pd))); }
FN(s_lib) {
    const char *w; PyObject *ro, *ao, *img = nullptr; if (!PyArg_ParseTuple(args, "sOO|O", &w, &ro, &ao, &img)) return py_err();
    std::vector<double> rv, a; if (!doubles(ro, rv) || !doubles(ao, a)) return py_err();
    std::string b; if (img) b = pystr(img);
    std::vector<double> o = call_lib(w, unflat(rv), a, b);
    PyObject *l = list(o); if (!img) return l;
    return Py_BuildValue("(Ny#)", l, b.data(), (Py_ssize_t)b.size());
}
FN(s_files_of) {   // settings files of a kind: names and texts
    const char *k; unsigned long long seed; int nc; if (!PyArg_ParseTuple(args, "sKi", &k, &seed, &nc)) return py_err();
    std::vector<std::string> n, t; make_files(k, seed, nc, n, t); PyObject *l = PyList_New(0);
    for (size_t i = 0; i < n.size(); i++) { PyObject *x = Py_BuildValue("(ss)", n[i].c_str(), t[i].c_str()); PyList_Append(l, x); Py_DECREF(x); }
    return l;
}
// A tracking scene: puts its files on the disk, returns what Python needs to track it
static TrackScene *g_scene;
FN(s_scene) {
    unsigned long long seed; int tier; if (!PyArg_ParseTuple(args, "Ki", &seed, &tier)) return py_err();
    Rng r(seed); Plan p; TrackGen g = random_track_gen(r, tier); g.frames = 3 + (int)r.below(6); g.parts = std::min(g.parts, 3 + (int)r.below(12)); gen_track(r, p, g);
    delete g_scene; g_scene = new TrackScene(build_track(p)); if (!g_scene->ok) Py_RETURN_NONE;
    g_scene->put(S->disk); TrackScene &s = *g_scene;
    PyObject *im = PyList_New(0); for (auto &x : s.st.img) { PyObject *q = PyUnicode_FromString(x.c_str()); PyList_Append(im, q); Py_DECREF(q); }
    return Py_BuildValue("{s:N,s:i,s:i,s:d,s:y,s:y,s:y,s:N,s:[dddddd],s:d,s:d,s:i}", "rig", list(flat_rig(s.rig)), "first", s.first, "last", s.last, "tol", s.tol, "corres", s.st.corres.c_str(), "linkage", s.st.linkage.c_str(), "prio", s.st.prio.c_str(), "img", im,
        "dv", s.tp.dv[0][0], s.tp.dv[0][1], s.tp.dv[1][0], s.tp.dv[1][1], s.tp.dv[2][0], s.tp.dv[2][1], "dacc", s.tp.dacc, "dangle", s.tp.dangle, "add", s.tp.add);
}
FN(s_track) {   // tracks the same scene without the Python layer; the disk afterwards, and the disk is as before
    int back; if (!PyArg_ParseTuple(args, "p", &back)) return py_err();
    Disk keep = S->disk; auto f = S->faults; S->faults.clear();
    auto alloc_fail = S->alloc_fail; bool fa = S->fail_all_after; S->clear_alloc_faults();
    { LibTrack t(*g_scene); t.forward(); if (back) t.backward(); t.drop(); }
    S->faults = f; S->alloc_fail = alloc_fail; S->fail_all_after = fa;
    PyObject *d = PyDict_New(); for (auto &x : S->disk.files) { PyObject *b = PyBytes_FromStringAndSize(x.second.data(), x.second.size()); PyDict_SetItemString(d, x.first.c_str(), b); Py_DECREF(b); }
    S->disk = keep; return d;
}
FN(s_snapshot) { static Disk keep; int back; if (!PyArg_ParseTuple(args, "p", &back)) return py_err(); if (back) S->disk = keep; else keep = S->disk; Py_RETURN_NONE; }
static PyMethodDef methods[] = {{"put", s_put, METH_VARARGS, ""}, {"delete", s_del, METH_VARARGS, ""}, {"get", s_get, METH_VARARGS, ""}, {"files", s_files, METH_VARARGS, ""}, {"fault", s_fault, METH_VARARGS, ""}, {"heal", s_heal, METH_VARARGS, ""},
    {"fired", s_fired, METH_VARARGS, ""}, {"oom", s_oom, METH_VARARGS, ""}, {"allocs", s_allocs, METH_VARARGS, ""}, {"live", s_live, METH_VARARGS, ""}, {"open_files", s_open, METH_VARARGS, ""}, {"leaks", s_leaks, METH_VARARGS, ""}, {"bad", s_bad, METH_VARARGS, ""},
    {"log", s_log, METH_VARARGS, ""}, {"known", s_known, METH_VARARGS, ""}, {"stat", s_stat, METH_VARARGS, ""}, {"rig", s_rig, METH_VARARGS, ""}, {"lib", s_lib, METH_VARARGS, ""}, {"files_of", s_files_of, METH_VARARGS, ""}, {"scene", s_scene, METH_VARARGS, ""}, {"track", s_track, METH_VARARGS, ""}, {"snapshot", s_snapshot, METH_VARARGS, ""}, {nullptr, nullptr, 0, nullptr}};
static PyModuleDef moddef = {PyModuleDef_HEAD_INIT, "_sim", "", -1, methods, nullptr, nullptr, nullptr, nullptr};
PyMODINIT_FUNC PyInit__sim(void) { return PyModule_Create(&moddef); }

// ---------------------------------------------------------------- the interpreter
static PyObject *g_gen, *g_run;
static void die() { PyErr_Print(); fflush(stderr); _exit(2); }
static void start() {
    if (g_gen) return;
    static Sim boot; Sim *s = S; if (!S) S = &boot;
    PyImport_AppendInittab("_sim", PyInit__sim);
    PyPreConfig pre; PyPreConfig_InitIsolatedConfig(&pre); pre.allocator = PYMEM_ALLOCATOR_MALLOC; pre.utf8_mode = 1; Py_PreInitialize(&pre);
    PyConfig c; PyConfig_InitIsolatedConfig(&c); c.use_hash_seed = 1; c.hash_seed = 0; c.write_bytecode = 0; c.site_import = 0; c.install_signal_handlers = 0;
    PyStatus st = Py_InitializeFromConfig(&c); if (PyStatus_Exception(st)) { fprintf(stderr, "python: %s\n", st.err_msg); _exit(2); }
    char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n > 0 ? n : 0] = 0; std::string dir = exe; dir = dir.substr(0, dir.rfind('/'));
    PyObject *path = PySys_GetObject("path");
    for (std::string x : {std::string(PYSITE), dir + "/pkg", dir + "/pkg/driver"}) { PyObject *q = PyUnicode_FromString(x.c_str()); PyList_Insert(path, 0, q); Py_DECREF(q); }
    PyObject *m = PyImport_ImportModule("simpy"); if (!m) die();
    g_gen = PyObject_GetAttrString(m, "gen"); g_run = PyObject_GetAttrString(m, "run"); if (!g_gen || !g_run) die();
    boot.live.clear(); S = s;
}
static void gen(const char *prop, u64 seed, int tier, Plan &p) {
    start();
    PyObject *r = PyObject_CallFunction(g_gen, "sKi", prop, (unsigned long long)seed, tier); if (!r) die();
    Plan q; if (!Plan::parse(pystr(r), q)) { fprintf(stderr, "bad plan\n"); _exit(2); } Py_DECREF(r);
    p.lines = q.lines;
}
static Outcome exec(const Plan &p) {
    start();
    return guarded(p, [&](Outcome &o) {
        g_soft_bad = true; g_bad.clear(); g_known.clear(); g_failed0 = S->allocs_failed;
        PyObject *r = PyObject_CallFunction(g_run, "s", p.text().c_str()); if (!r) die();
        const char *v, *m; int trivial, invalid; if (!PyArg_ParseTuple(r, "sspp", &v, &m, &trivial, &invalid)) die();
        o.viol = v; o.msg = m; o.trivial = trivial; o.invalid = invalid; o.known = g_known; Py_DECREF(r); g_soft_bad = false;
    });
}
static Reg r25({"C25", [](u64 s, int t, Plan &p) { gen("C25", s, t, p); }, exec, 12000, 200000});
static Reg r26({"C26", [](u64 s, int t, Plan &p) { gen("C26", s, t, p); }, exec, 12000, 200000});
