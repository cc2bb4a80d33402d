"""Plans and runs for the Python layer. A plan is a list of steps ("op KIND SEED FAULT"): each makes Python objects, uses
them, reads or writes files, lets faults happen, or forgets objects; W holds what every living object must contain.
Results are compared with the library called directly (_sim.lib) and with the files' own text."""
import gc, math, random, sys, traceback
import numpy as np
import _sim
from optv.parameters import MultimediaParams, TrackingParams, SequenceParams, VolumeParams, ControlParams, TargetParams
from optv.calibration import Calibration
from optv.tracking_framebuf import Target, TargetArray, Frame, read_targets
from optv import transforms, imgcoord, epipolar, orientation, segmentation, image_processing, correspondences as corr
from optv.tracker import Tracker
gc.disable()
np.seterr(all="ignore")
UNUSED = -1e10          # COORD_UNUSED
PT_UNUSED = -999


class Violation(Exception):
    def __init__(self, cls, msg): Exception.__init__(self, cls, msg); self.cls, self.msg = cls, msg


def fail(cls, msg): raise Violation(cls, msg)


def same(a, b, tol=1e-9):
    if isinstance(a, str) or isinstance(b, str) or isinstance(a, bytes) or isinstance(b, bytes): return a == b
    a, b = float(a), float(b)
    if a != a or b != b: return a != a and b != b
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b), 1e-3)


def check(cls, what, got, want, tol=1e-9):
    got, want = list(got), list(want)
    if len(got) != len(want): fail(cls, "%s: %d values instead of %d" % (what, len(got), len(want)))
    for k, (g, w) in enumerate(zip(got, want)):
        if w is not None and not same(g, w, tol): fail(cls, "%s: value %d is %r, must be %r" % (what, k, g, w))


class H:
    """an object and what it must contain"""
    def __init__(self, kind, obj, model): self.kind, self.obj, self.model = kind, obj, model


# ---------------------------------------------------------------- numbers, arrays, files
def num(r):
    k = r.randrange(6)
    if k == 0: return float(r.randint(-3, 3))
    if k == 1: return r.uniform(-1, 1) * 10.0 ** r.randint(-9, 6)
    if k == 2: return float("%.4f" % r.uniform(-100, 100))
    return r.uniform(-100, 100)


def word(r, n=None):
    n = n or r.choice([1, 3, 8, 20, 20, 60, 200])
    return "".join(r.choice("abcdefghijklmnopqrstuvwxyz0123456789_./%-") for _ in range(n))


def lay(r, a, dtype=None):
    """the same values in another memory layout"""
    a = np.asarray(a, dtype=dtype)
    k = r.randrange(7)
    if k == 0: return np.ascontiguousarray(a)
    if k == 1: return np.asfortranarray(a)
    if k == 2:      # every second element of something bigger, along each axis
        big = np.full([2 * n + 1 for n in a.shape], 77, dtype=a.dtype); v = big[tuple(slice(1, 2 * n + 1, 2) for n in a.shape)]
    elif k == 3:    # backwards
        s = tuple(slice(None, None, -1) for _ in a.shape); v = np.empty_like(a)[s]
    elif k == 4:    # part of something bigger
        big = np.full([n + 3 for n in a.shape], 77, dtype=a.dtype); v = big[tuple(slice(1, n + 1) for n in a.shape)]
    elif k == 5:    # transposed
        v = np.empty(a.shape[::-1], dtype=a.dtype).T
    else:           # rows backwards only
        v = np.empty_like(a)[::-1]
    v[...] = a
    return v


def vec(r, v):
    """a short vector as users give it"""
    return np.array(v, dtype=float) if r.random() < 0.6 else lay(r, v, float)


def fmt(r, x):
    if isinstance(x, int): return "%d" % x
    s = r.choice(["%.17g", "%.17g", "%r", "%.3f", "%.6g", "%e"]) % x
    return s


def text_of(r, values):
    """one value a line; and what the values are once printed"""
    out, vals = [], []
    for v in values:
        t = v if isinstance(v, str) else fmt(r, v)
        out.append(t); vals.append(v if isinstance(v, str) else int(t) if isinstance(v, int) else float(t))
    sep = r.choice(["\n", "\n", "\r\n", "\n\n"])
    return sep.join(out) + r.choice(["\n", "", "\n\n"]), vals


def damage(r, name, text):
    """makes a complete reading of a settings file impossible; the file's last value goes at least"""
    toks = text.split()
    k = r.randrange(4)
    last = text.rfind(toks[-1])
    if k == 0: _sim.delete(name); _sim.stat("fault.missing"); return
    if k == 1: _sim.put(name, text); _sim.fault("open", "=" + name, 0, 1, r.choice([13, 24, 5])); return
    if k == 2: _sim.put(name, text); _sim.fault("read", "=" + name, r.randint(0, max(0, last - 1)), 1, 5); return
    n = r.randint(0, len(toks) - 1); p = 0
    for t in toks[:n]: p = text.index(t, p) + len(t)
    _sim.put(name, text[:p] + r.choice(["", "\n", " "])); _sim.stat("fault.cut")


class W:
    def __init__(self):
        self.pool = []
        self.did = 0

    # -------- objects and what they contain
    def of(self, kind): return [h for h in self.pool if h.kind == kind]
    def pick(self, r, kind):
        l = self.of(kind)
        if l and r.random() < 0.75: return r.choice(l)
        return getattr(self, "new_" + kind)(r)
    def keep(self, kind, obj, model):
        h = H(kind, obj, model); self.pool.append(h)
        if len(self.pool) > 24: self.pool.pop(0)
        return h
    def verify(self, h):
        getattr(self, "check_" + h.kind)(h)

    # multimedia
    def mm_args(self, r):
        n = r.randint(1, 3)
        return dict(n1=r.choice([1.0, r.uniform(1, 1.1)]), n2=[r.uniform(1, 1.6) for _ in range(n)], d=[r.uniform(0, 12) for _ in range(n)], n3=r.uniform(1, 1.5))
    def new_mm(self, r):
        a = self.mm_args(r)
        obj = MultimediaParams(**{k: (vec(r, v) if isinstance(v, list) and r.random() < 0.5 else v) for k, v in a.items()})
        m = dict(n1=a["n1"], n3=a["n3"], nlay=len(a["n2"]), n2=(a["n2"] + [None] * 3)[:3], d=(a["d"] + [None] * 3)[:3])
        return self.keep("mm", obj, m)
    def check_mm(self, h, what="MultimediaParams"):
        o, m = h.obj, h.model
        check("wrong-value", what, [o.get_n1(), o.get_n3(), o.get_nlay()], [m["n1"], m["n3"], m["nlay"]])
        check("wrong-value", what + ".n2", o.get_n2(), m["n2"]); check("wrong-value", what + ".d", o.get_d(), m["d"])
        str(o)
    def op_mm(self, r, f):
        h = self.pick(r, "mm"); m = h.model; k = r.randrange(5)
        if k == 0: m["n1"] = num(r); h.obj.set_n1(m["n1"])
        elif k == 1: m["n3"] = num(r); h.obj.set_n3(m["n3"])
        elif k == 2 and f:
            n = r.randint(0, 3); bad = r.choice([(n, n + 1), (n + 1, n), (4, 4), (7, 7)])
            self.must_raise("set_layers(%d, %d)" % bad, lambda: h.obj.set_layers([1.5] * bad[0], [2.5] * bad[1]), [h])
        elif k in (2, 3):
            n = r.randint(1, 3); a = [num(r) for _ in range(n)]; b = [num(r) for _ in range(n)]; h.obj.set_layers(vec(r, a) if r.random() < 0.5 else a, b)
            m["nlay"] = n; m["n2"][:n] = a; m["d"][:n] = b
        else:
            o = self.new_mm(r); eq = None not in m["n2"] + o.model["n2"] + m["d"] + o.model["d"] and m == o.model
            if None not in m["n2"] + o.model["n2"] + m["d"] + o.model["d"] and (h.obj == o.obj) != eq: fail("comparison", "MultimediaParams of different content are equal or the reverse")
        self.verify(h)

    # tracking
    TR = ["dacc", "dangle", "dvxmin", "dvxmax", "dvymin", "dvymax", "dvzmin", "dvzmax", "dsumg", "dn", "dnx", "dny", "add"]
    def new_track(self, r):
        m = {k: num(r) for k in self.TR}; m.update(dsumg=0, dn=0, dnx=0, dny=0, add=r.randint(0, 1))
        o = TrackingParams(accel_lim=m["dacc"], angle_lim=m["dangle"], velocity_lims=vec(r, [[m["dvxmin"], m["dvxmax"]], [m["dvymin"], m["dvymax"]], [m["dvzmin"], m["dvzmax"]]]), add_particle=m["add"])
        return self.keep("track", o, m)
    def check_track(self, h):
        check("wrong-value", "TrackingParams " + " ".join(self.TR), [getattr(h.obj, "get_" + k)() for k in self.TR], [h.model[k] for k in self.TR])
    def op_track(self, r, f):
        h = self.pick(r, "track"); m = h.model
        if r.random() < 0.5:
            k = r.choice(self.TR); v = r.randint(-5, 99) if k in ("dsumg", "dn", "dnx", "dny", "add") else num(r); getattr(h.obj, "set_" + k)(v); m[k] = v
        elif r.random() < 0.2:
            o = TrackingParams(); [getattr(o, "set_" + k)(m[k]) for k in self.TR]
            if not (o == h.obj) or o != h.obj: fail("comparison", "TrackingParams of equal content differ")
            o.set_dvzmin(m["dvzmin"] + 1)
            if o == h.obj or not (o != h.obj): fail("comparison", "TrackingParams of different content are equal")
        else:
            keys = ["dvxmin", "dvxmax", "dvymin", "dvymax", "dvzmin", "dvzmax", "dangle", "dacc", "add"]
            t, v = text_of(r, [num(r) for _ in range(8)] + [r.randint(0, 1)])
            if self.read(r, f, "TrackingParams.read_track_par", lambda n: h.obj.read_track_par(n), {"f/track.par": t}, [h]):
                m.update(zip(keys, v)); m.update(dsumg=0, dn=0, dnx=0, dny=0)
        self.verify(h)

    # sequence
    def new_seq(self, r):
        n = r.randint(1, 4); m = dict(names=[word(r) for _ in range(n)], first=r.randint(0, 10 ** 6), last=r.randint(0, 10 ** 6))
        o = SequenceParams(image_base=m["names"], frame_range=(m["first"], m["last"]))
        return self.keep("seq", o, m)
    def check_seq(self, h):
        m = h.model
        check("wrong-value", "SequenceParams", [h.obj.get_first(), h.obj.get_last()] + [h.obj.get_img_base_name(k) for k in range(len(m["names"]))], [m["first"], m["last"]] + [n.encode("utf-8") for n in m["names"]])
    def name(self, r, h, f, key, setter):
        n = len(h.model[key]); cam = r.randrange(n); s = word(r)
        if f:
            if r.random() < 0.4: cam = r.choice([-1, n, n + 3])
            else: s = word(r, r.choice([240, 241, 300, 1000]))
            self.must_raise("%s(%d, %d characters)" % (setter.__name__, cam, len(s)), lambda: setter(cam, s), [h]); return
        if r.random() < 0.25: p = r.randrange(len(s) + 1); s = s[:p] + r.choice(["\u00e4", "\u03bb\u03bb", "\u540d\u524d"]) + s[p:]
        setter(cam, s); h.model[key][cam] = s
    def op_seq(self, r, f):
        h = self.pick(r, "seq"); m = h.model; k = r.randrange(5)
        if k == 0: m["first"] = r.randint(-5, 10 ** 6); h.obj.set_first(m["first"])
        elif k == 1: m["last"] = r.randint(-5, 10 ** 6); h.obj.set_last(m["last"])
        elif k == 2: self.name(r, h, f, "names", h.obj.set_img_base_name)
        elif k == 3 and len(m["names"]) < 5:
            o = SequenceParams(num_cams=len(m["names"])); o.set_first(m["first"]); o.set_last(m["last"])
            for c, s in enumerate(m["names"]): o.set_img_base_name(c, s)
            if not (o == h.obj) or o != h.obj: fail("comparison", "SequenceParams of equal content differ")
            o.set_img_base_name(len(m["names"]) - 1, "other")
            if m["names"][-1] != "other" and (o == h.obj or not (o != h.obj)): fail("comparison", "SequenceParams of different content are equal")
        else:
            n = r.randint(1, 4); names = [word(r) for _ in range(n)]; t, v = text_of(r, names + [r.randint(0, 10 ** 5), r.randint(0, 10 ** 5)])
            if self.read(r, f, "SequenceParams.read_sequence_par", lambda x: h.obj.read_sequence_par(x, n), {"f/seq.par": t}, [h]): m.update(names=names, first=v[-2], last=v[-1])
        self.verify(h)

    # volume
    def new_vol(self, r):
        m = dict(X=[num(r), num(r)], Zmin=[num(r), num(r)], Zmax=[num(r), num(r)], cn=num(r), cnx=num(r), cny=num(r), csumg=num(r), eps0=num(r), corrmin=num(r))
        o = VolumeParams(x_span=vec(r, m["X"]), z_spans=[(m["Zmin"][k], m["Zmax"][k]) for k in (0, 1)], pixels_tot=m["cn"], pixels_x=m["cnx"], pixels_y=m["cny"], ref_gray=m["csumg"], epipolar_band=m["eps0"], min_correlation=m["corrmin"])
        return self.keep("vol", o, m)
    VO = ["cn", "cnx", "cny", "csumg", "eps0", "corrmin"]
    def check_vol(self, h):
        o, m = h.obj, h.model
        for k in ("X", "Zmin", "Zmax"): check("wrong-value", "VolumeParams." + k, getattr(o, "get_%s_lay" % k)(), m[k])
        check("wrong-value", "VolumeParams " + " ".join(self.VO), [getattr(o, "get_" + k)() for k in self.VO], [m[k] for k in self.VO])
    def op_vol(self, r, f):
        h = self.pick(r, "vol"); m = h.model; k = r.randrange(5)
        if k == 0: n = r.choice(self.VO); m[n] = num(r); getattr(h.obj, "set_" + n)(m[n])
        elif k == 1:
            n = r.choice(["X", "Zmin", "Zmax"])
            if f: self.must_raise("VolumeParams.set_%s_lay of %s" % (n, "5 values"), lambda: getattr(h.obj, "set_%s_lay" % n)([1.0] * 5), [h])
            else: m[n][:] = [num(r), num(r)]; getattr(h.obj, "set_%s_lay" % n)(vec(r, m[n]))
        elif k == 2:
            n = r.choice(["X", "Zmin", "Zmax"]); v = getattr(h.obj, "get_%s_lay" % n)(copy=False); self.keep("view", v, m[n])
        elif k == 3:
            o = VolumeParams(); [getattr(o, "set_%s_lay" % n)(m[n]) for n in ("X", "Zmin", "Zmax")]; [getattr(o, "set_" + n)(m[n]) for n in self.VO]
            if not (o == h.obj) or o != h.obj: fail("comparison", "VolumeParams of equal content differ")
            o.set_Zmax_lay([m["Zmax"][0], m["Zmax"][1] + 1])
            if o == h.obj or not (o != h.obj): fail("comparison", "VolumeParams of different content are equal")
        else:
            t, v = text_of(r, [num(r) for _ in range(12)])
            if self.read(r, f, "VolumeParams.read_volume_par", lambda x: h.obj.read_volume_par(x), {"f/vol.par": t}, [h]):
                m["X"][:] = [v[0], v[3]]; m["Zmin"][:] = [v[1], v[4]]; m["Zmax"][:] = [v[2], v[5]]; m.update(zip(["cnx", "cny", "cn", "csumg", "corrmin", "eps0"], v[6:]))
        self.verify(h)
    def check_view(self, h): check("wrong-value", "array sharing its object's memory", h.obj, h.model)

    # control
    def new_ctrl(self, r):
        n = r.randint(1, 4); fl = [x for x in ("hp", "allcam", "headers") if r.random() < 0.5]; a = self.mm_args(r); full = r.random() < 0.8
        m = dict(n=n, hp="hp" in fl, allcam="allcam" in fl, tiff="headers" in fl, size=(r.randint(1, 4000), r.randint(1, 4000)), pix=(r.uniform(0.001, 0.1), r.uniform(0.001, 0.1)), chfield=0, img=[None] * n, cal=[None] * n)
        mm = dict(n1=a["n1"], n3=a["n3"], nlay=len(a["n2"]), n2=(a["n2"] + [None] * 3)[:3], d=(a["d"] + [None] * 3)[:3])
        if full: o = ControlParams(n, flags=fl, image_size=m["size"], pixel_size=m["pix"], cam_side_n=a["n1"], wall_ns=a["n2"], wall_thicks=a["d"], object_side_n=a["n3"])
        else:
            o = ControlParams(n); o.set_hp_flag(m["hp"]); o.set_allCam_flag(m["allcam"]); o.set_tiff_flag(m["tiff"]); o.set_image_size(m["size"]); o.set_pixel_size(m["pix"])
            q = o.get_multimedia_params(); q.set_n1(a["n1"]); q.set_layers(a["n2"], a["d"]); q.set_n3(a["n3"])
        h = self.keep("ctrl", o, m); m["mm"] = mm
        for c in range(n): m["img"][c] = word(r); m["cal"][c] = word(r); o.set_img_base_name(c, m["img"][c]); o.set_cal_img_base_name(c, m["cal"][c])
        return h
    def check_ctrl(self, h):
        o, m = h.obj, h.model
        check("wrong-value", "ControlParams", [o.get_num_cams(), o.get_hp_flag(), o.get_allCam_flag(), o.get_tiff_flag(), o.get_chfield()] + list(o.get_image_size()) + list(o.get_pixel_size()), [m["n"], m["hp"], m["allcam"], m["tiff"], m["chfield"]] + list(m["size"]) + list(m["pix"]))
        check("wrong-value", "ControlParams names", [o.get_img_base_name(c) for c in range(m["n"])] + [o.get_cal_img_base_name(c) for c in range(m["n"])], [x.encode("utf-8") for x in m["img"] + m["cal"]])
        self.check_mm(H("mm", o.get_multimedia_params(), m["mm"]), "ControlParams.get_multimedia_params()")
    def op_ctrl(self, r, f):
        h = self.pick(r, "ctrl"); o, m = h.obj, h.model; k = r.randrange(9)
        if k == 0: b = r.random() < 0.5; n = r.choice(["hp", "allcam", "tiff"]); m[n] = b; {"hp": o.set_hp_flag, "allcam": o.set_allCam_flag, "tiff": o.set_tiff_flag}[n](b)
        elif k == 1:
            if f: self.must_raise("set_image_size of three values", lambda: o.set_image_size((1, 2, 3)), [h]); self.must_raise("set_pixel_size of one value", lambda: o.set_pixel_size((0.1,)), [h])
            else: m["size"] = (r.randint(1, 4000), r.randint(1, 4000)); o.set_image_size(m["size"]); m["pix"] = (r.uniform(0.001, 0.1), r.uniform(0.001, 0.1)); o.set_pixel_size(m["pix"])
        elif k == 2: m["chfield"] = r.randint(0, 2); o.set_chfield(m["chfield"])
        elif k == 3: self.name(r, h, f, "img", o.set_img_base_name)
        elif k == 4: self.name(r, h, f, "cal", o.set_cal_img_base_name)
        elif k == 5: self.keep("mm", o.get_multimedia_params(), m["mm"])
        elif k == 6:
            q = o.get_multimedia_params(); a = self.mm_args(r); q.set_n1(a["n1"]); q.set_n3(a["n3"]); q.set_layers(a["n2"], a["d"]); n = len(a["n2"]); mm = m["mm"]; mm["n1"], mm["n3"], mm["nlay"] = a["n1"], a["n3"], n; mm["n2"][:n] = a["n2"]; mm["d"][:n] = a["d"]
        else:
            n = r.randint(1, 4); fl = [r.randint(0, 1) for _ in range(3)]; names = [word(r) for _ in range(2 * n)]
            t, v = text_of(r, [n] + names + fl + [r.randint(1, 4000), r.randint(1, 4000), r.uniform(0.001, 0.1), r.uniform(0.001, 0.1), r.randint(0, 2), r.uniform(1, 1.5), r.uniform(1, 1.5), r.uniform(1, 1.5), r.uniform(0, 10)])
            if self.read(r, f, "ControlParams.read_control_par", lambda x: o.read_control_par(x), {"f/ptv.par": t}, [h]):
                w = v[1 + 2 * n:]; m.update(n=n, img=names[0::2], cal=names[1::2], hp=bool(fl[0]), allcam=bool(fl[1]), tiff=bool(fl[2]), size=(w[3], w[4]), pix=(w[5], w[6]), chfield=w[7])
                mm = m["mm"]; mm["n1"], mm["n3"], mm["nlay"] = w[8], w[10], 1; mm["n2"][:] = [w[9], None, None]; mm["d"][:] = [w[11], None, None]
        self.verify(h)

    # target recognition parameters
    def targ_values(self, r): return [r.randint(0, 200) for _ in range(13)]
    def new_targ(self, r):
        v = self.targ_values(r); n = r.randint(0, 4)
        o = TargetParams(discont=v[4], gvthresh=None if n == 0 else r.choice([list, tuple, np.array])(v[:4]), pixel_count_bounds=(v[5], v[6]), xsize_bounds=(v[7], v[8]), ysize_bounds=(v[9], v[10]), min_sum_grey=v[11], cross_size=v[12])
        if n == 0: v[:4] = [0] * 4
        return self.keep("targ", o, v)
    def targ_now(self, o): return list(o.get_grey_thresholds()) + [o.get_max_discontinuity()] + list(o.get_pixel_count_bounds()) + list(o.get_xsize_bounds()) + list(o.get_ysize_bounds()) + [o.get_min_sum_grey(), o.get_cross_size()]
    def check_targ(self, h): check("wrong-value", "TargetParams", self.targ_now(h.obj), h.model)
    def op_targ(self, r, f):
        h = self.pick(r, "targ"); o, m = h.obj, h.model; k = r.randrange(8); a, b = r.randint(0, 9999), r.randint(0, 9999)
        if k == 0: m[4] = a; o.set_max_discontinuity(a)
        elif k == 1:
            n = r.randint(5, 9) if f else r.randint(1, 4); g = [r.randint(0, 255) for _ in range(n)]
            if f: self.must_raise("set_grey_thresholds of %d" % n, lambda: o.set_grey_thresholds(g), [h]); self.must_raise("get_grey_thresholds(num_cams=%d)" % n, lambda: o.get_grey_thresholds(num_cams=n), [h])
            else: o.set_grey_thresholds(g); m[:n] = g; check("wrong-value", "get_grey_thresholds(%d)" % n, o.get_grey_thresholds(num_cams=n), m[:n])
        elif k == 2: m[5:7] = a, b; o.set_pixel_count_bounds((a, b))
        elif k == 3: m[7:9] = a, b; o.set_xsize_bounds((a, b))
        elif k == 4: m[9:11] = a, b; o.set_ysize_bounds([a, b])
        elif k == 5: m[11:13] = a, b; o.set_min_sum_grey(a); o.set_cross_size(b)
        else:
            t, v = text_of(r, self.targ_values(r))
            if self.read(r, f, "TargetParams.read", lambda x: o.read(x), {"f/targ.par": t}, [h]): m[:] = v
        self.verify(h)

    # calibration: position, angles, xh yh cc, glass, k1 k2 k3 p1 p2 scx she
    def cal_values(self, r):
        v = _sim.rig(r.getrandbits(40), 1, r.random() < 0.5)[23:42]
        if r.random() < 0.3: v = [num(r) for _ in range(19)]; v[3:6] = [r.uniform(-3, 3) for _ in range(3)]
        return v
    def set_cal(self, r, v):
        if r.random() < 0.5: return Calibration(pos=vec(r, v[0:3]), angs=vec(r, v[3:6]), prim_point=vec(r, v[6:9]), glass=vec(r, v[9:12]), rad_dist=vec(r, v[12:15]), decent=vec(r, v[15:17]), affine=vec(r, v[17:19]))
        o = Calibration(); todo = list(range(7)); r.shuffle(todo)
        for k in todo: self.set_part(r, o, v, k)
        return o
    PART = [(0, 3), (3, 6), (6, 9), (9, 12), (12, 15), (15, 17), (17, 19)]
    def set_part(self, r, o, v, k):
        a, b = self.PART[k]; x = vec(r, v[a:b])
        if k < 2 and r.random() < 0.3: x = list(v[a:b])
        [o.set_pos, o.set_angles, o.set_primary_point, o.set_glass_vec, o.set_radial_distortion, o.set_decentering, o.set_affine_trans][k](x)
    def new_cal(self, r):
        v = self.cal_values(r); return self.keep("cal", self.set_cal(r, v), v)
    def cal_now(self, o): return [float(x) for g in (o.get_pos, o.get_angles, o.get_primary_point, o.get_glass_vec, o.get_radial_distortion, o.get_decentering, o.get_affine) for x in g()]
    def check_cal(self, h):
        check("wrong-value", "Calibration", self.cal_now(h.obj), h.model)
        om, ph, ka = h.model[3:6]; c, s = math.cos, math.sin
        A = np.array([[1, 0, 0], [0, c(om), -s(om)], [0, s(om), c(om)]]); B = np.array([[c(ph), 0, s(ph)], [0, 1, 0], [-s(ph), 0, c(ph)]]); K = np.array([[c(ka), -s(ka), 0], [s(ka), c(ka), 0], [0, 0, 1]])
        if np.abs(h.obj.get_rotation_matrix() - A.dot(B).dot(K)).max() > 1e-9: fail("wrong-value", "Calibration.get_rotation_matrix() is not that of its angles")
    def op_cal(self, r, f):
        h = self.pick(r, "cal"); o, m = h.obj, h.model; k = r.randrange(8)
        if k < 3:
            p = r.randrange(7); a, b = self.PART[p]
            if f:
                fn = [o.set_pos, o.set_angles, o.set_primary_point, o.set_glass_vec, o.set_radial_distortion, o.set_decentering, o.set_affine_trans][p]
                n = r.choice([x for x in (1, 2, 3, 4) if x != b - a]); self.must_raise("%s of %d values" % (fn.__name__, n), lambda: fn(np.ones(n)), [h])
            else: v = self.cal_values(r); m[a:b] = v[a:b]; self.set_part(r, o, m, p)
        elif k < 6:   # reading
            v = self.cal_values(r); R = _sim.lib("rotation", [1] + [0] * 22 + v, [])[19:]
            ori, ov = text_of(r, v[0:6] + R + v[6:12]); add, av = text_of(r, v[12:19]); av2 = self.cal_values(r)[12:19]; fb, fv = text_of(r, av2)
            files = {"c.ori": ori}; args = [b"c.ori"]; want = ov[0:6] + ov[15:21]
            mode = r.randrange(6)
            if mode == 0: want += [0, 0, 0, 0, 0, 1, 0]                                                 # no distortion file asked for
            elif mode == 1: args += [b"c.addpar"]; want += [0, 0, 0, 0, 0, 1, 0]; _sim.delete("c.addpar")   # asked for, missing
            elif mode == 2: args += [b"c.addpar", b"fb.addpar"]; files["fb.addpar"] = fb; want += fv; _sim.delete("c.addpar")
            elif mode == 3: args += [b"c.addpar", b"fb.addpar"]; files["c.addpar"] = add; files["fb.addpar"] = fb; want += av
            else: args += [b"c.addpar"]; files["c.addpar"] = add; want += av
            hurt = "c.ori" if mode < 4 or r.random() < 0.5 else None
            if self.read(r, f, "Calibration.from_file", lambda x: o.from_file(*args), files, [h], hurt): m[:] = want
        else:         # writing
            for n in ("w.ori", "w.addpar"): _sim.delete(n)
            def w(): o.write(b"w.ori", b"w.addpar")
            if f:
                n = r.choice(["w.ori", "w.addpar"])
                if r.random() < 0.4: _sim.fault("open", "=" + n, 0, 1, 13)
                else: _sim.fault("write", "=" + n, r.randint(0, 40), 1, 28)
                self.must_raise("Calibration.write to a disk that fails at " + n, w, [h]); _sim.heal(); return
            w(); a = [float(x) for x in _sim.get("w.ori").split()]; b = [float(x) for x in _sim.get("w.addpar").split()]
            # the file's precision: eight decimals, four in the interior parameters, nine digits
            ok = len(a) == 21 and len(b) == 7 and all(abs(x - y) <= 0.6e-8 + 1e-12 * abs(y) for x, y in zip(a[:6] + a[18:], m[:6] + m[9:12]) if abs(y) < 1e9) and all(abs(x - y) <= 0.6e-4 + 1e-12 * abs(y) for x, y in zip(a[15:18], m[6:9])) and all(abs(x - y) <= 1e-8 * abs(y) for x, y in zip(b, m[12:19]))
            if not ok: fail("wrong-file", "Calibration.write: the files contain other values: %r %r for %r" % (a, b, m))
        self.verify(h)

    # -------- failing calls
    def must_raise(self, what, call, hs):
        try: call()
        except Exception as e: _sim.log("raised " + type(e).__name__); e = None
        else: fail("not-reported", what + " did not raise an exception")
        _sim.stat("failing-calls")
        for h in hs: self.verify(h)
    def read(self, r, f, what, call, files, hs, hurt="first"):
        """reads files with call(name); true if they were complete, so that they must have been read"""
        names = list(files)
        for n, t in files.items(): _sim.put(n, t)
        if hurt == "first": hurt = names[0]
        if hurt is None: hurt = names[-1]
        if f:
            damage(r, hurt, files[hurt])
            if hurt != names[0] and _sim.get(hurt) is None: _sim.put(hurt, "1 2\n")   # (a missing distortion file is no failure)
            if hurt != names[0]: _sim.heal(); _sim.put(hurt, " ".join(files[hurt].split()[:-1]))
            self.must_raise(what + " of a file that cannot be read whole", lambda: call(names[0].encode()), hs); _sim.heal()
            return False
        call(names[0].encode()); return True

    # -------- targets
    def target_values(self, r, k, style=0): return [k, round(r.uniform(0, 2000), 4), round(r.uniform(0, 2000), 4), r.randint(1, 300), r.randint(1, 30), r.randint(1, 30), r.randint(1, 9999), r.randint(-1, 50)]
    def fill(self, t, v): t.set_pnr(v[0]); t.set_pos((v[1], v[2])); t.set_pixel_counts(v[3], v[4], v[5]); t.set_sum_grey_value(v[6]); t.set_tnr(v[7])
    def now(self, t): return [t.pnr()] + list(t.pos()) + list(t.count_pixels()) + [t.sum_grey_value(), t.tnr()]
    def new_target(self, r):
        v = self.target_values(r, r.randint(-1, 99)); o = Target(pnr=v[0], x=v[1], y=v[2], n=v[3], nx=v[4], ny=v[5], sumg=v[6], tnr=v[7]); return self.keep("target", o, v)
    def check_target(self, h): check("wrong-value", "Target", self.now(h.obj), h.model)
    def new_tarr(self, r, n=None):
        n = r.choice([0, 1, 2, 5, 17]) if n is None else n; o = TargetArray(n); m = [self.target_values(r, k) for k in range(n)]
        for k in range(n): self.fill(o[k], m[k])
        return self.keep("tarr", o, m)
    def check_tarr(self, h):
        if len(h.obj) != len(h.model): fail("wrong-value", "TargetArray has length %d, not %d" % (len(h.obj), len(h.model)))
        for k, m in enumerate(h.model): check("wrong-value", "target %d of a TargetArray" % k, self.now(h.obj[k]), m)
    def targets_text(self, m): return "%d\n" % len(m) + "".join("%4d %9.4f %9.4f %5d %5d %5d %5d %5d\n" % tuple(x or 0 for x in v) for v in m)
    def same_targets(self, cls, what, got, m):   # with the file's four decimals of a position
        if len(got) != 1 + 8 * len(m): fail(cls, "%s: %d numbers for %d targets" % (what, len(got), len(m)))
        for k, w in enumerate([len(m)] + [x for v in m for x in v]):
            if w is not None and abs(got[k] - w) > (0.6e-4 if k and (k - 1) % 8 in (1, 2) else 0) + 1e-12 * abs(w): fail(cls, "%s: number %d is %r, must be %r" % (what, k, got[k], w))
    def op_tarr(self, r, f):
        h = self.pick(r, "tarr"); o, m = h.obj, h.model; k = r.randrange(9)
        if k == 0:
            if m: i = r.randrange(len(m)); v = self.target_values(r, r.randint(0, 99)); self.fill(o[i], v); m[i][:] = v
        elif k == 1:
            if m: i = r.randrange(len(m)); self.keep("target", o[i], m[i])
        elif k == 2:
            self.must_raise("index %d" % len(m), lambda: o[len(m)], [h]); self.must_raise("index %d" % (len(m) + 5), lambda: o[len(m) + 5], [h])
        elif k == 3:
            if len(set(v[2] for v in m)) == len(m):
                o.sort_y(); s = sorted(m, key=lambda v: v[2]); s = [list(v) for v in s]
                for i, v in enumerate(s): v[0] = i; m[i][:] = v
        elif k == 4:
            got = [self.now(t) for t in o]
            if got != m: check("wrong-value", "iteration over a TargetArray", [x for t in got for x in t], [x for t in m for x in t])
        elif k in (5, 6):
            base = r.choice(["t/cam1.", "t/cam2_", "t%d."]) ; n = r.randint(1, 99999); name = (base % n if "%d" in base else base + "%04d" % n) + "_targets" if False else None
            for x in [x for x in _sim.files() if x.startswith("t/")]: _sim.delete(x)
            if f:
                if r.random() < 0.4: _sim.fault("open", "t/", 0, 1, 13)
                else: _sim.fault("write", "t/", r.randint(0, max(1, len(self.targets_text(m)) - 2)), 1, 28)
                self.must_raise("TargetArray.write to a disk that fails", lambda: o.write(b"t/cam1.", n), [h]); _sim.heal(); return
            o.write(b"t/cam1.", n); fs = [x for x in _sim.files() if x.startswith("t/")]
            if len(fs) != 1: fail("wrong-file", "TargetArray.write made %r" % fs)
            got = [float(x) for x in _sim.get(fs[0]).split()]; self.same_targets("wrong-file", "TargetArray.write", got, m)
            back = read_targets("t/cam1.", n); got = [self.now(t) for t in back]; self.same_targets("wrong-result", "reading of written targets", [len(back)] + [x for t in got for x in t], m); self.keep("tarr", back, got)
        else:
            m = [self.target_values(r, i) for i in range(r.choice([0, 1, 3, 20]))]; n = r.randint(1, 9999); TargetArray(0).write(b"u/c.", n); name = [x for x in _sim.files() if x.startswith("u/")][0]; t = self.targets_text(m); got = []
            if self.read(r, f, "read_targets", lambda x: got.append(read_targets("u/c.", n)), {name: t}, []): self.check_tarr(self.keep("tarr", got[0], m))
            _sim.delete(name)
        if h.obj is o and m is h.model: self.verify(h)
    def op_target(self, r, f):
        h = self.pick(r, "target"); v = self.target_values(r, r.randint(-1, 999)); self.fill(h.obj, v); h.model[:] = v; self.verify(h)

    # frames
    def frame_files(self, r):
        nc = r.randint(1, 4); n = r.choice([0, 1, 3, 12]); cams = [[self.target_values(r, k) for k in range(r.choice([0, 2, 9]))] for _ in range(nc)]
        parts = []
        for k in range(n): parts.append(([round(r.uniform(-50, 50), 3) for _ in range(3)], [(r.randrange(len(c)) if c and r.random() < 0.7 else -1) for c in cams] + [-1] * (4 - nc)))
        num = r.randint(1, 9999); fs = {}
        fs["r/rt_is.%d" % num] = "%d\n" % n + "".join("%4d %9.3f %9.3f %9.3f %4d %4d %4d %4d\n" % tuple([k + 1] + p[0] + p[1]) for k, p in enumerate(parts))
        fs["r/ptv_is.%d" % num] = "%d\n" % n + "".join("%4d %4d %10.3f %10.3f %10.3f\n" % tuple([-1, -2] + p[0]) for p in parts)
        prio = r.random() < 0.5
        if prio: fs["r/added.%d" % num] = "%d\n" % n + "".join("%4d %4d %10.3f %10.3f %10.3f %d\n" % tuple([-1, -2] + p[0] + [r.randint(0, 4)]) for p in parts)
        bases = []
        for c, m in enumerate(cams):
            TargetArray(0).write(b"u/", num); x = [x for x in _sim.files() if x.startswith("u/")][0]; _sim.delete(x); fs["r/cam%d." % c + x[2:]] = self.targets_text(m); bases.append(b"r/cam%d." % c)
        return nc, num, prio, bases, fs, dict(parts=parts, cams=cams)
    def new_frame(self, r): return self.op_frame(r, 0, True)
    def check_frame(self, h):
        o, m = h.obj, h.model
        if m is None: return
        check("wrong-value", "Frame.positions", o.positions().ravel(), [x for p in m["parts"] for x in p[0]])
        for c, cam in enumerate(m["cams"]):
            want = [x for p in m["parts"] for x in ((cam[p[1][c]][1], cam[p[1][c]][2]) if p[1][c] >= 0 else (float("nan"),) * 2)]
            check("wrong-value", "Frame.target_positions_for_camera(%d)" % c, o.target_positions_for_camera(c).ravel(), want)
    def op_frame(self, r, f, fresh=False):
        nc, n, prio, bases, fs, m = self.frame_files(r); l = [] if fresh else [h for h in self.of("frame") if h.nc == nc]; pb = b"r/added" if prio else None
        for k in [x for x in _sim.files() if x.startswith("r/")]: _sim.delete(k)
        for k, v in fs.items(): _sim.put(k, v)
        bad = None
        if f and not fresh: bad = r.choice(sorted(fs)); damage(r, bad, fs[bad])
        if l and r.random() < 0.6:
            h = r.choice(l); ok = None
            try: ok = h.obj.read(b"r/rt_is", b"r/ptv_is", bases, n, pb)
            except Exception as e:
                if not bad: raise
                e = None; ok = 0
            if bool(ok) != (bad is None): fail("not-reported", "Frame.read returned %r with %s" % (ok, "the file %s damaged" % bad if bad else "all files in order"))
            h.model = m if not bad else None   # not specified what it contains then
        elif bad:
            self.must_raise("Frame() from a damaged file (%s)" % bad, lambda: Frame(nc, b"r/rt_is", b"r/ptv_is", pb, bases, n), []); _sim.heal(); return None
        else:
            if r.random() < 0.3: o = Frame(nc); ok = o.read(b"r/rt_is", b"r/ptv_is", bases, n, pb)
            else: o = Frame(nc, b"r/rt_is", b"r/ptv_is", pb, bases, n)
            for x in self.of("frame")[:-1]: self.pool.remove(x)     # they are big
            h = self.keep("frame", o, m); h.nc = nc
        _sim.heal(); self.verify(h); return h

    # -------- what the library computes
    def rig(self, r, nc=None, simple=None):
        return _sim.rig(r.getrandbits(40), nc or r.randint(1, 4), r.random() < 0.5)
    def objects(self, r, g):
        nc = int(g[0]); cals = [self.set_cal(r, g[23 + 19 * k: 42 + 19 * k]) for k in range(nc)]
        c = ControlParams(nc, flags=["hp", "headers"] + (["allcam"] if g[22] else []), image_size=(int(g[1]), int(g[2])), pixel_size=(g[4], g[5]), cam_side_n=g[6], wall_ns=[g[7]], wall_thicks=[g[9]], object_side_n=g[8]); c.set_chfield(int(g[3]))
        v = VolumeParams(x_span=g[10:12], z_spans=[(g[12], g[14]), (g[13], g[15])], pixels_tot=g[16], pixels_x=g[17], pixels_y=g[18], ref_gray=g[19], epipolar_band=g[20], min_correlation=g[21])
        return cals, c, v
    def flat(self, a): return [float(x) for x in np.asarray(a).ravel()]
    def points(self, r, g, n): return [[r.uniform(g[10], g[11]), r.uniform(-20, 20), r.uniform(max(g[12], g[13]), min(g[14], g[15]))] for _ in range(n)]
    def op_transform(self, r, f):
        g = self.rig(r, 1); cals, c, v = self.objects(r, g); n = r.choice([0, 1, 3, 10]); k = r.randrange(5)
        if k == 0: fn, name, arg, a = transforms.convert_arr_pixel_to_metric, "pixel_to_metric", c, [[r.uniform(-10, g[1]), r.uniform(-10, g[2])] for _ in range(n)]
        else: fn, name, arg, a = [(transforms.convert_arr_metric_to_pixel, "metric_to_pixel", c), (transforms.correct_arr_brown_affine, "correct_brown_affin", cals[0]), (transforms.distort_arr_brown_affine, "distort_brown_affin", cals[0]), (transforms.distorted_to_flat, "dist_to_flat", cals[0])][k - 1] + ([[r.uniform(-5, 5), r.uniform(-5, 5)] for _ in range(n)],)
        a = np.array(a, dtype=float).reshape(n, 2); x = lay(r, a); kw = {}; pre = []
        if k == 4: tol = r.choice([1e-5, 1e-3, 1e-8]); pre = [tol if r.random() < 0.5 else 1e-5]; kw = {} if pre[0] == 1e-5 and r.random() < 0.5 else {"tol": pre[0]}
        want = _sim.lib(name, g, pre + self.flat(a)); how = r.randrange(3)
        if f and r.random() < 0.5:
            self.must_raise(name + " of three columns", lambda: fn(np.zeros((4, 3)), arg), [])
            self.must_raise(name + " into an array of other shape", lambda: fn(np.zeros((4, 2)), arg, out=np.zeros((3, 2))), []); return
        if how == 0: out = fn(x, arg, **kw)
        else:
            out = x if how == 1 else lay(r, np.full((n, 2), -5.0)); ret = fn(x, arg, out=out, **kw)
            if ret is not out: fail("wrong-result", name + " did not return the array it was given for its result")
        check("wrong-result", name, self.flat(out), want)
        if how != 1: check("changed-input", name, self.flat(x), self.flat(a))
    def op_project(self, r, f):
        g = self.rig(r, 1); cals, c, v = self.objects(r, g); n = r.choice([0, 1, 3, 8]); a = np.array(self.points(r, g, n)).reshape(n, 3); x = lay(r, a); m = c.get_multimedia_params()
        fn, name = r.choice([(imgcoord.flat_image_coordinates, "flat_image_coord"), (imgcoord.image_coordinates, "img_coord")])
        if f and r.random() < 0.5:
            self.must_raise(name + " of two columns", lambda: fn(np.zeros((4, 2)), cals[0], m), []); self.must_raise(name + " into fewer rows", lambda: fn(np.zeros((4, 3)), cals[0], m, np.zeros((3, 2))), []); return
        want = _sim.lib(name, g, self.flat(a)); del c
        if r.random() < 0.5: out = fn(x, cals[0], m)
        else:
            out = lay(r, np.full((n, 2), -5.0))
            if fn(x, cals[0], m, out) is not out: fail("wrong-result", name + " did not return the array it was given for its result")
        check("wrong-result", name, self.flat(out), want); check("changed-input", name, self.flat(x), self.flat(a))
    def op_epipolar(self, r, f):
        g = self.rig(r, 2); cals, c, v = self.objects(r, g); n = r.randint(2, 9); p = [r.uniform(0, g[1]), r.uniform(0, g[2])]
        out = epipolar.epipolar_curve(lay(r, p, float), cals[0], cals[1], n, c, v)
        check("wrong-result", "epipolar_curve", self.flat(out), _sim.lib("epipolar", g, p + self.flat(np.linspace(g[12], g[14], n))))
    def op_position(self, r, f):
        nc = r.randint(1, 4); g = self.rig(r, nc); cals, c, v = self.objects(r, g); n = r.choice([0, 1, 4, 9]); a = np.array([[[r.uniform(-5, 5), r.uniform(-5, 5)] for _ in range(nc)] for _ in range(n)]).reshape(n, nc, 2)
        if nc > 2 and n: a[r.randrange(n), r.randrange(nc)] = UNUSED
        x = lay(r, a)
        if f:
            self.must_raise("point_positions without cameras", lambda: orientation.point_positions(x, c, [], v), [])
            if nc > 1: self.must_raise("point_positions of %d cameras with %d calibrations" % (nc, nc - 1) , lambda: orientation.point_positions(np.ones((3, nc + 1, 2)), c, cals, v), [])
            return
        pos, rcm = orientation.point_positions(x, c, r.choice([list, tuple])(cals) if False else cals, v)
        if nc == 1: want = _sim.lib("epi_mm_2D", g, self.flat(a)); check("wrong-result", "point_positions of one camera", self.flat(pos), want); check("wrong-result", "rcm", rcm, [0.0] * n)
        else:
            w = np.array(_sim.lib("point_position", g, self.flat(a))).reshape(n, 4); check("wrong-result", "point_positions", self.flat(pos), self.flat(w[:, :3])); check("wrong-result", "convergence of point_positions", rcm, w[:, 3])
        check("changed-input", "point_positions", self.flat(x), self.flat(a))
    def op_dumbbell(self, r, f):
        nc = r.randint(2, 4); g = self.rig(r, nc); cals, c, v = self.objects(r, g); n = 2 * r.randint(1, 5); a = np.array([[[r.uniform(-5, 5), r.uniform(-5, 5)] for _ in range(nc)] for _ in range(n)]); x = lay(r, a); L, wt = r.randint(1, 50), r.uniform(0, 5)
        if f: self.must_raise("dumbbell_target_func of more cameras than calibrations", lambda: orientation.dumbbell_target_func(np.ones((4, nc + 1, 2)), c, cals, L, wt), []); return
        rows = np.ascontiguousarray(a)
        if r.random() < 0.08:    # coordinates kept camera by camera: the finding in known_findings.txt
            cam = np.ascontiguousarray(a.transpose(1, 0, 2)); got = orientation.dumbbell_target_func(cam.transpose(1, 0, 2), c, cals, L, wt); want = _sim.lib("dumbbell", g, [n, L, wt] + self.flat(a))[0]
            mem = cam.ravel(); mis = [x for k in range(n) for x in mem[2 * k:2 * k + 2 * nc]]
            if same(got, want): return
            if len(mis) == 2 * nc * n and same(got, _sim.lib("dumbbell", g, [n, L, wt] + mis)[0]): _sim.known("dumbbell-row-layout", "%d targets of %d cameras: %r, must be %r" % (n, nc, got, want)); return
            fail("wrong-result", "dumbbell_target_func of targets kept camera by camera: %r, must be %r" % (got, want))
        out = np.full((n + 2, nc, 2), 7.0)[1:n + 1] if r.random() < 0.5 else np.full((2 * n, nc, 2), 7.0)[::-2]; out[...] = rows; x = out
        check("wrong-result", "dumbbell_target_func", [orientation.dumbbell_target_func(x, c, cals, L, wt)], _sim.lib("dumbbell", g, [n, L, wt] + self.flat(a)))
    def calibration_case(self, r):
        g = self.rig(r, 1); n = r.choice([4, 6, 12, 25]); p = self.points(r, g, n); m = _sim.lib("metric_to_pixel", g, _sim.lib("img_coord", g, [x for q in p for x in q])); px = [m[2 * k:2 * k + 2] for k in range(n)]
        g2 = list(g)      # where the calibration begins
        for k in range(3): g2[23 + k] += r.uniform(-5, 5); g2[26 + k] += r.uniform(-0.02, 0.02)
        if r.random() < 0.1: g2[23:29] = [num(r) for _ in range(6)]
        return g, g2, n, p, px
    def op_external(self, r, f):
        g, g2, n, p, px = self.calibration_case(r); cals, c, v = self.objects(r, g2)
        if f: self.must_raise("external_calibration of %d reference points with %d image points" % (n, n - 2), lambda: orientation.external_calibration(cals[0], np.array(p), np.array(px[:-2]), c), [H("cal", cals[0], g2[23:42])]); return
        ok = orientation.external_calibration(cals[0], lay(r, p, float), lay(r, px, float), c); w = _sim.lib("raw_orient", g2, [n] + [x for q in p for x in q] + [x for q in px for x in q])
        if bool(ok) != bool(w[0]): fail("wrong-result", "external_calibration returned %r, the library %r" % (ok, w[0]))
        self.check_same_cal("external_calibration", cals[0], w[1:])
        if ok: self.keep("cal", cals[0], w[1:20])
    def check_same_cal(self, what, cal, w):
        check("wrong-result", what, self.cal_now(cal), w[:19], 1e-7); check("wrong-result", what + ": rotation matrix", self.flat(cal.get_rotation_matrix()), w[19:28], 1e-7)
    FL = ["cc", "xh", "yh", "k1", "k2", "k3", "p1", "p2", "scale", "shear"]
    def op_full(self, r, f):
        g, g2, n, p, px = self.calibration_case(r); cals, c, v = self.objects(r, g2); fl = [k for k in range(10) if r.random() < 0.25]
        t = [[k, px[k][0], px[k][1], 9, 3, 3, 90, -1] for k in range(n)]
        for k in range(n):
            if r.random() < 0.1: t[k][0] = PT_UNUSED
        arr = self.new_tarr(r, n); arr.model = t; [self.fill(arr.obj[k], t[k]) for k in range(n)]
        if f: self.must_raise("full_calibration of %d reference points with %d targets" % (n + 2, n), lambda: orientation.full_calibration(cals[0], np.array(p + p[:2]), arr.obj, c, [self.FL[k] for k in fl]), [H("cal", cals[0], g2[23:42]), arr]); return
        w = _sim.lib("orient", g2, [sum(1 << k for k in fl), n] + [x for q in p for x in q] + [x for q in t for x in q]); NP = len(w) - 29 - (2 * n if w[0] else 0) - n
        try: ret, used, err = orientation.full_calibration(cals[0], lay(r, p, float), arr.obj, c, [self.FL[k] for k in fl])
        except ValueError:
            if w[0]: fail("wrong-result", "full_calibration failed, the library did not")
            _sim.log("no convergence"); self.verify(H("cal", cals[0], g2[23:42])); self.check_same_cal("full_calibration that failed", cals[0], w[1:]); return
        if not w[0]: fail("not-reported", "full_calibration: the library did not converge")
        self.check_same_cal("full_calibration", cals[0], w[1:]); check("wrong-result", "error estimates of full_calibration", self.flat(err)[:NP], w[29:29 + NP], 1e-6)
        check("wrong-result", "residuals of full_calibration", self.flat(ret), w[29 + NP:29 + NP + 2 * n], 1e-6); check("wrong-result", "targets used by full_calibration", used, w[-n:])
        for k in range(n): t[k][0] = int(w[-n + k])
        self.verify(arr)
    def op_sortgrid(self, r, f):
        g, g2, n, p, px = self.calibration_case(r); cals, c, v = self.objects(r, g); m = n + r.randint(0, 4); eps = r.choice([1, 5, 25]); t = [[k, (px[k][0] if k < n else r.uniform(0, g[1])) + r.uniform(-2, 2), (px[k][1] if k < n else r.uniform(0, g[2])) + r.uniform(-2, 2), 9, 3, 3, 90, -1] for k in range(m)]; r.shuffle(t)
        for k in range(m): t[k][0] = k
        arr = self.new_tarr(r, m); arr.model = t; [self.fill(arr.obj[k], t[k]) for k in range(m)]
        w = _sim.lib("sortgrid", g, [eps, n] + [x for q in p for x in q] + [x for q in t for x in q]); out = orientation.match_detection_to_ref(cals[0], lay(r, p, float), arr.obj, c, eps)
        got = [self.now(q) for q in out]; want = [w[8 * k:8 * k + 8] for k in range(n)]
        if len(got) != n: fail("wrong-result", "match_detection_to_ref: %d targets for %d points" % (len(got), n))
        for k in range(n):
            if want[k][0] == PT_UNUSED: want[k][1:] = [None] * 7
            check("wrong-result", "match_detection_to_ref: target %d" % k, got[k], want[k])
        arr.model = [w[8 * n + 8 * k:8 * n + 8 * k + 8] for k in range(m)]; self.verify(arr); self.keep("tarr", out, [[int(x) if x is not None and i not in (1, 2) else x for i, x in enumerate(q)] for q in want])
    def image(self, r, w, h, many=False):
        a = np.zeros((h, w), dtype=np.uint8)
        if many: a[1:-1:2, 1:-1:2] = 200; return a
        if r.random() < 0.3: a[...] = r.randint(0, 30)
        for _ in range(r.choice([0, 1, 3, 8, 20])):
            x, y = r.randrange(w), r.randrange(h); q = r.randint(0, 3); a[max(0, y - q):y + q + 1, max(0, x - q):x + q + 1] = r.randint(1, 255)
        for _ in range(r.choice([0, 5, 40])): a[r.randrange(h), r.randrange(w)] = r.randint(0, 255)
        return a
    def op_segment(self, r, f):
        many = r.random() < 0.004; w, h = (290, 296) if many else (r.randint(3, 40), r.randint(3, 40)); a = self.image(r, w, h, many); nc = r.randint(1, 4); g = self.rig(r, nc); g[1:4] = [w, h, 0]; cals, c, v = self.objects(r, g); cam = r.randrange(nc)
        tv = [r.choice([0, 5, 50, 255])] + [r.randint(1, 120) for _ in range(4)] + [r.choice([1, 1, 4]), r.choice([2, 20, 500]), 1, r.choice([3, 40]), 1, r.choice([3, 40]), r.choice([0, 30]), 2]
        if many: tv = [10, 50, 50, 50, 50, 1, 100, 1, 9, 1, 9, 1, 2]
        tp = TargetParams(discont=tv[0], gvthresh=tv[1:5], pixel_count_bounds=tv[5:7], xsize_bounds=tv[7:9], ysize_bounds=tv[9:11], min_sum_grey=tv[11], cross_size=tv[12])
        if f:
            k = r.randrange(5)
            if k == 0: self.must_raise("target_recognition of an image of other size", lambda: segmentation.target_recognition(a[:-1], tp, cam, c), [])
            elif k == 1: self.must_raise("target_recognition in a narrower image", lambda: segmentation.target_recognition(np.ascontiguousarray(a[:, :-1]), tp, cam, c, subrange_x=(0, w - 1), subrange_y=(0, h)), [])
            elif k == 2: self.must_raise("target_recognition in a lower image", lambda: segmentation.target_recognition(np.ascontiguousarray(a[:-1]), tp, cam, c, subrange_x=(0, w), subrange_y=(0, h - 1)), [])
            elif k == 3: self.must_raise("target_recognition beyond the image", lambda: segmentation.target_recognition(a, tp, cam, c, **r.choice([dict(subrange_x=(0, w + 1)), dict(subrange_y=(0, h + 3)), dict(subrange_x=(-1, w)), dict(subrange_y=(-2, h))])), [])
            else: self.must_raise("target_recognition for a fifth camera", lambda: segmentation.target_recognition(a, tp, r.choice([4, 5, -1]), c), [])
            return
        x0, x1, y0, y1 = (r.randint(0, w // 2), r.randint(w // 2 + 1, w), r.randint(0, h // 2), r.randint(h // 2 + 1, h)) if r.random() < 0.3 else (0, w, 0, h); kw = {} if (x0, x1, y0, y1) == (0, w, 0, h) and r.random() < 0.5 else dict(subrange_x=(x0, x1), subrange_y=(y0, y1))
        img = lay(r, a); out = segmentation.target_recognition(img, tp, cam, c, **kw); wl, _ = _sim.lib("targ_rec", g, [cam, x0, x1, y0, y1] + tv, a.tobytes())
        want = [wl[k:k + 8] for k in range(0, len(wl), 8)]; n = len(want)
        if len(out) != n: fail("wrong-result", "target_recognition: %d targets, the library finds %d" % (len(out), n))
        for k in (range(n) if not many else (0, n - 1)): check("wrong-result", "target_recognition: target %d" % k, self.now(out[k]), want[k])
        if (img != a).any(): fail("changed-input", "target_recognition")
        if not many: self.keep("tarr", out, [[int(x) if i not in (1, 2) else x for i, x in enumerate(q)] for q in want])
        _sim.stat("targets", )
    def op_prepare(self, r, f):
        w, h = r.randint(5, 40), r.randint(5, 40); a = self.image(r, w, h); g = self.rig(r, 1); g[1:4] = [w, h, 0]; cals, c, v = self.objects(r, g); lp = r.randint(1, 2); hp = r.choice([0, 0, 1, 2]); kw = {}
        fl = [r.choice([0, 1, 1, 2, -1]) if False else r.randint(0, 3) for _ in range(9)]; fl[4] = max(1, fl[4]); _sim.put("f/filter.par", "".join("%d %d %d\n" % tuple(fl[3 * k:3 * k + 3]) for k in range(3)))
        if hp == 2: kw["filter_file"] = r.choice(["f/filter.par", b"f/filter.par"])
        img = lay(r, a)
        if f:
            k = r.randrange(4)
            if k == 0: self.must_raise("preprocess_image with a result of other size", lambda: image_processing.preprocess_image(img, hp, c, lp, output_img=np.zeros((h, w + 1), dtype=np.uint8), **kw), [])
            elif k == 1: self.must_raise("preprocess_image of an image smaller than the parameters say", lambda: image_processing.preprocess_image(img[:-1], hp, c, lp, **kw), [])
            elif k == 2 and hp == 2: damage(r, "f/filter.par", "1 1 1 1 1 1 1 1 1\n"); self.must_raise("preprocess_image with a damaged filter file", lambda: image_processing.preprocess_image(img, hp, c, lp, **kw), []); _sim.heal()
            else:
                _sim.oom(r.randint(0, 3), r.random() < 0.5); failed = False
                try: image_processing.preprocess_image(img, hp, c, lp, **kw)
                except Exception as e: failed = True; e = None
                if _sim.fired() and not failed: fail("not-reported", "preprocess_image without memory did not raise an exception")
                _sim.heal()
            if (img != a).any(): fail("changed-input", "preprocess_image that failed")
            return
        ok, want = _sim.lib("prepare_image", g, [lp, hp], a.tobytes()); want = np.frombuffer(want, dtype=np.uint8).reshape(h, w)
        if not ok[0]: return
        give = r.random() < 0.4; out = lay(r, np.full((h, w), 9, dtype=np.uint8)) if give else None
        res = image_processing.preprocess_image(img, hp, c, lp, output_img=out, **kw) if give else image_processing.preprocess_image(img, hp, c, lp, **kw)
        if res.shape != (h, w) or (np.asarray(res) != want).any(): fail("wrong-result", "preprocess_image: other pixels than the library's")
        if give and (out != want).any(): fail("wrong-result", "preprocess_image: the result is not in the array given for it")
        if (img != a).any(): fail("changed-input", "preprocess_image")
    def op_match(self, r, f):
        nc = r.choice([1, 2, 2, 3, 3, 4, 4]); g = self.rig(r, nc); g[20] = r.choice([g[20], 0.5]); cals, c, v = self.objects(r, g); p = self.points(r, g, r.choice([0, 1, 4, 10])); per = []
        for k in range(nc):
            gk = g[:23] + g[23 + 19 * k: 42 + 19 * k]; gk[0] = 1; px = _sim.lib("metric_to_pixel", gk, _sim.lib("img_coord", gk, [x for q in p for x in q])) if p else []
            t = [[0, px[2 * i], px[2 * i + 1], 25, 5, 5, 250, -1] for i in range(len(p)) if r.random() < 0.85 and abs(px[2 * i]) < 1e5 and abs(px[2 * i + 1]) < 1e5] + [[0, r.uniform(0, g[1]), r.uniform(0, g[2]), 25, 5, 5, 250, -1] for _ in range(r.randint(0, 2))]
            r.shuffle(t)
            for i in range(len(t)): t[i][0] = i if r.random() < 0.9 else 77; t[i][7] = -1
            per.append(t)
        tol = 1e-5; w = _sim.lib("correspondences", g, [tol] + [x for t in per for x in [len(t)] + [y for q in t for y in q]]); arrs = []
        for t in per:
            o = TargetArray(len(t)); [self.fill(o[i], t[i]) for i in range(len(t))]; arrs.append(self.keep("tarr", o, t))
        if f and r.random() < 0.4: self.unfit_match(r, nc, g, per, arrs, cals, c, v); return
        if f:
            _sim.oom(r.randint(0, 12), r.random() < 0.6); failed = False
            try: mcs = [corr.MatchedCoords(a.obj, c, cals[k]) for k, a in enumerate(arrs)]; res = corr.correspondences([a.obj for a in arrs], mcs, cals, v, c)
            except MemoryError: failed = True
            n = _sim.fired(); _sim.heal()
            if n and not failed: fail("not-reported", "correspondences without memory did not raise MemoryError")
            for a in arrs:
                for i, m in enumerate(a.model): m[0] = a.obj[i].pnr(); m[7] = a.obj[i].tnr()
                self.verify(a)
            if not n: return
        reset = True; mcs = [corr.MatchedCoords(a.obj, c, cals[k], reset_numbers=reset) for k, a in enumerate(arrs)]; pos = 0
        for k, t in enumerate(per):
            for i in range(len(t)): t[i][0] = i
            xy, nr = mcs[k].as_arrays(); q = np.array(w[pos:pos + 3 * len(t)]).reshape(-1, 3); pos += 3 * len(t)
            if len(set(q[:, 0])) == len(q): check("wrong-result", "MatchedCoords.as_arrays of camera %d" % k, self.flat(xy), self.flat(q[:, :2])); check("wrong-result", "numbers of MatchedCoords", nr, q[:, 2])
            ask = [i for i in range(len(t)) if r.random() < 0.5] + [1000]; r.shuffle(ask); d = {int(x[2]): x[:2] for x in q}
            check("wrong-result", "MatchedCoords.get_by_pnrs", self.flat(mcs[k].get_by_pnrs(lay(r, ask, np.int_))), [x for i in ask for x in (d[i] if i in d else (UNUSED, UNUSED))])
        sp, sc, n = corr.correspondences([a.obj for a in arrs], mcs, cals, v, c)
        if nc == 1:
            q = np.array(w).reshape(-1, 3); ids = [int(x) for x in q[:, 2]]
            check("wrong-result", "identifiers of one camera", self.flat(sc[0]), ids); check("wrong-result", "positions of one camera", self.flat(sp[0]), [x for i in ids for x in per[0][i][1:3]]); check("wrong-result", "number of targets of one camera", [n], [len(ids)])
            for j, i in enumerate(ids): per[0][i][7] = j
        else:
            if not w[pos]: return
            mc = [int(x) for x in w[pos + 1:pos + 5]]; pos += 5; ids = [int(x) for x in w[pos:pos + nc * mc[3]]]; pos += nc * mc[3]; at = 0
            check("wrong-result", "total number of matches, %d cameras" % nc, [n], [mc[3]])
            for kind in range(nc - 1):
                m = mc[4 - nc + kind]; part = np.array(ids[nc * at:nc * (at + m)]).reshape(m, nc).T; at += m
                if sc[kind].shape != (nc, m) or sp[kind].shape != (nc, m, 2): fail("wrong-result", "correspondences: shape %r for %d matches" % (sp[kind].shape, m))
                check("wrong-result", "identifiers of matches %d" % kind, self.flat(sc[kind]), self.flat(part)); check("wrong-result", "positions of matches %d" % kind, self.flat(sp[kind]), [x for k in range(nc) for i in part[k] for x in (per[k][i][1:3] if i >= 0 else (PT_UNUSED,) * 2)])
            for t in per:
                for q in t: q[7] = int(w[pos]); pos += 1
        for a in arrs: self.verify(a)
        if r.random() < 0.3: self.keep("mcoord", mcs[0], None)
    def unfit_match(self, r, nc, g, per, arrs, cals, c, v):
        mcs = [corr.MatchedCoords(a.obj, c, cals[k], reset_numbers=True) for k, a in enumerate(arrs)]; objs = [a.obj for a in arrs]; k = r.randrange(5); cam = r.randrange(nc)
        for t in per:
            for i in range(len(t)): t[i][0] = i
        if k == 0: self.must_raise("correspondences of fewer target arrays than cameras", lambda: corr.correspondences(objs[:-1], mcs, cals, v, c), arrs)
        elif k == 1: self.must_raise("correspondences of fewer coordinates than cameras", lambda: corr.correspondences(objs, mcs[:-1], cals, v, c), arrs)
        elif k == 2: objs[cam] = TargetArray(len(per[cam]) + r.choice([1, -1]) if per[cam] else 1); self.must_raise("correspondences of a target array and coordinates of other length", lambda: corr.correspondences(objs, mcs, cals, v, c), arrs)
        elif k == 3:
            o = ControlParams(nc % 4 + 1, image_size=(100, 100), pixel_size=(0.01, 0.01)); self.must_raise("correspondences of %d cameras with control parameters for %d" % (nc, nc % 4 + 1), lambda: corr.correspondences(objs, mcs, cals, v, o), arrs)
        elif per[cam] and nc > 1:
            i = r.randrange(len(per[cam])); n = len(per[cam]) + r.choice([0, 1, 100, 10 ** 6]); objs[cam][i].set_pnr(n); per[cam][i][0] = n
            m = list(mcs); m[cam] = corr.MatchedCoords(objs[cam], c, cals[cam], reset_numbers=False); self.must_raise("correspondences of a target numbered %d of %d" % (n, len(per[cam])), lambda: corr.correspondences(objs, m, cals, v, c), arrs)
    def op_fresh(self, r, f):
        """objects made without values, and objects that could not be made"""
        k = r.randrange(6); n = r.randint(1, 4)
        if k == 0: check("wrong-value", "new MultimediaParams", [MultimediaParams().get_nlay()], [1])
        elif k == 1: o = SequenceParams(num_cams=n); check("wrong-value", "names of new SequenceParams", [o.get_img_base_name(i) for i in range(n)], [b""] * n)
        elif k == 2: o = ControlParams(n); check("wrong-value", "names and flags of new ControlParams", [o.get_img_base_name(i) for i in range(n)] + [o.get_cal_img_base_name(i) for i in range(n)] + [o.get_hp_flag(), o.get_allCam_flag(), o.get_tiff_flag(), o.get_chfield(), o.get_num_cams()], [b""] * 2 * n + [False, False, False, 0, n])
        elif k == 3: check("wrong-value", "new Calibration", self.cal_now(Calibration()), [0] * 17 + [1, 0]); check("wrong-value", "its rotation matrix", self.flat(Calibration().get_rotation_matrix()), [1, 0, 0, 0, 1, 0, 0, 0, 1])
        elif k == 4: check("wrong-value", "new TargetParams", self.targ_now(TargetParams()), [0, 0, 0, 0, 0, 0, 1000, 0, 100, 0, 100, 0, 2])
        else: check("wrong-value", "new TargetArray", [len(TargetArray()), len(list(TargetArray(0)))], [0, 0]); o = Frame(n); check("wrong-value", "empty Frame", list(o.positions().shape) + list(o.target_positions_for_camera(n - 1).shape), [0, 3, 0, 2])
        if f:
            bad = [("ControlParams()", lambda: ControlParams()), ("SequenceParams()", lambda: SequenceParams()), ("Target without values", lambda: Target(pnr=1)), ("Tracker()", lambda: Tracker()), ("Frame()", lambda: Frame()), ("MatchedCoords()", lambda: corr.MatchedCoords()), ("Calibration of a short position", lambda: Calibration(pos=np.zeros(2))),
                   ("MultimediaParams of 4 layers", lambda: MultimediaParams(n2=[1.] * 4, d=[1.] * 4)), ("ControlParams of 4 layers", lambda: ControlParams(2, wall_ns=[1.] * 4, wall_thicks=[1.] * 4)), ("VolumeParams of 3 limits", lambda: VolumeParams(x_span=[1., 2., 3.])), ("TargetParams of 5 thresholds", lambda: TargetParams(gvthresh=[1] * 5)),
                   ("SequenceParams with a name that is too long", lambda: SequenceParams(image_base=["x" * 240])), ("ControlParams of one image dimension", lambda: ControlParams(1, image_size=(3,)))]
            what, call = r.choice(bad); self.must_raise(what, call, [])
    def check_mcoord(self, h): h.obj.as_arrays()
    def op_tracker(self, r, f):
        for x in [x for x in _sim.files()]: _sim.delete(x)
        s = _sim.scene(r.getrandbits(40), 0)
        if s is None: return
        g = s["rig"]; cals, c, v = self.objects(r, g); dv = s["dv"]; tp = TrackingParams(accel_lim=s["dacc"], angle_lim=s["dangle"], velocity_lims=[dv[0:2], dv[2:4], dv[4:6]], add_particle=s["add"]); sq = SequenceParams(image_base=s["img"], frame_range=(s["first"], s["last"]))
        back = r.random() < 0.4; want = _sim.track(back); nm = dict(corres=b"" + s["corres"][:1] + s["corres"][1:], linkage=s["linkage"][:1] + s["linkage"][1:], prio=s["prio"][:1] + s["prio"][1:])
        if f:
            k = r.choice(sorted(nm)); bad = dict(nm); del bad[k]; self.must_raise("Tracker without a name for " + k, lambda: Tracker(c, v, tp, sq, cals, bad, s["tol"]), [])
        t = Tracker(c, v, tp, sq, cals, nm, s["tol"])
        if r.random() < 0.7: del nm, c, v, tp, sq; s.clear(); cals.pop(); cals.append(None) if False else None; gc.collect()
        trash = [bytes([65 + r.randrange(26)]) * n for n in (9, 10, 11, 12, 13, 14, 15, 16, 20, 24)]   # what used to be free memory is written to
        for again in range(2 if r.random() < 0.3 else 1):
            if again:
                self.same_disk(want); want = _sim.track(back)
            if r.random() < 0.5: t.full_forward()
            else:
                t.restart(); n = t.current_step(); k = 0
                while t.step_forward():
                    k += 1
                    if t.current_step() != n + k: fail("wrong-result", "Tracker.current_step")
                t.finalize()
            if back: t.full_backward()
        del t, trash
        self.same_disk(want)
        for x in _sim.files(): _sim.delete(x)
    def same_disk(self, want):
        got = {x: _sim.get(x) for x in _sim.files()}
        for x in sorted(set(got) | set(want)):
            if got.get(x) != want.get(x): fail("wrong-result", "Tracker: the file %s is not what the library writes: %r / %r" % (x, (got.get(x) or b"-")[:80], (want.get(x) or b"-")[:80]))
    def op_forget(self, r, f):
        for _ in range(r.randint(1, 4)):
            if self.pool: self.pool.pop(r.randrange(len(self.pool)))
        gc.collect()
    def op_look(self, r, f):
        for h in self.pool: self.verify(h)


OPS = {"C25": dict(mm=2, track=2, seq=2, vol=2, ctrl=3, targ=2, cal=4, tarr=3, target=1, frame=1, transform=5, project=4, epipolar=2, position=4, dumbbell=2, external=2, full=2, sortgrid=2, segment=4, prepare=4, match=4, tracker=1, forget=2, look=2, fresh=1),
       "C26": dict(mm=2, track=3, seq=3, vol=4, ctrl=5, targ=3, cal=5, tarr=6, target=2, frame=1.2, transform=1, project=1, position=1, dumbbell=1, external=1, full=1, sortgrid=1, segment=2, prepare=3, match=3, tracker=0.3, forget=8, look=5, fresh=3)}


def gen(prop, seed, tier):
    r = random.Random(seed); o = OPS[prop]; names = sorted(o); wts = [o[n] for n in names]
    l = ["prop " + prop, "env %d %d %d %d" % (r.getrandbits(30), r.getrandbits(30), r.choice([0, 0, 1, 7, 64]), r.randrange(3))]
    pf = 0.04 if prop == "C25" else r.choice([0, 0.2, 0.5])
    for _ in range(r.randint(3, 12) if not tier else r.randint(3, 30)):
        l.append("op %s %d %d" % (r.choices(names, wts)[0], r.getrandbits(31), r.random() < pf))
    return "\n".join(l) + "\n"


def run(text):
    gc.collect(); w = W(); viol = msg = ""; n = 0
    try:
        for line in text.splitlines():
            t = line.split()
            if not t or t[0] != "op": continue
            f = getattr(w, "op_" + t[1], None)
            if f is None: return "", "", False, True
            f(random.Random(int(t[2])), int(t[3])); n += 1; _sim.stat("op." + t[1])
            _sim.heal()
            if _sim.bad(): fail("memory", "%s: %s" % (t[1], _sim.bad()))
            if _sim.open_files(): fail("file-left-open", "after %s" % line)
            _sim.log("%s %d" % (line, len(w.pool)))
        for h in w.pool: w.verify(h)
        order = random.Random(len(text)); order.shuffle(w.pool)
        while w.pool: w.pool.pop()
    except Violation as e: viol, msg = e.cls, e.msg
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        viol, msg = "unexpected-exception", "%s: %s (%s)" % (type(e).__name__, e, " < ".join("%s:%d" % (x.name, x.lineno) for x in reversed(tb[-3:])))
    w.pool = []; h = w = None
    sys.exc_info(); gc.collect()
    _sim.heal()
    if not viol:
        if _sim.bad(): viol, msg = "memory", _sim.bad()
        elif _sim.live(): viol, msg = "leak", "memory is not released after every object is gone: " + _sim.leaks()
    return viol, msg, n == 0, False
