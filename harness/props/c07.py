import os
import numpy as np
from harness import gen, rec as R, world as W, zygote
from harness.props import c14, detworld as T, diffworld as D

CFG = "SPECIFICATION Spec\nCONSTANTS Emit = TRUE\nDepth = %d\nCHECK_DEADLOCK FALSE\nINVARIANT SameShown\nPROPERTIES Kept Inert\n"
ASSUMPTIONS = ["sessions are those of the model up to its depth and longer random ones; samples, beams, detectors and scans are drawn at random",
               "a reference is computed by a process in which the package was only imported",
               "random sampling inside the renderer starts from the same seed for both"]
HOW = ["macro/1", "micro/1", "micro/3", "nano/2", "auto/2", "macro/2", "macro/3", "micro/2"]
LOOKS = [dict(k="sample", who="P"), dict(k="sample", who="Q"), dict(k="beam"), dict(k="detector", det="1"), dict(k="detector", det="2"), dict(k="scan", scan="1"), dict(k="scan", scan="2")]


def scenarios(ctx):
    r = ctx.rng
    hs = ctx.cases("Session", CFG % ctx.n(4, 5), workers=6)
    full = ctx.n(220, 2500)
    pick = r.sample(hs, min(full, len(hs)))
    out = []
    for n, h in enumerate(pick):
        sub = {"2": r.choice("2355"), "1": "1"}
        how = r.choice(HOW)
        for o in h:
            if o["k"] == "diffract":
                o["bounds"] = sub[o["bounds"]]
            if o["k"] == "render":
                o["how"] = how
        out.append(scn(r, "model-%d" % n, h))
    for n in range(ctx.n(110, 1200)):
        out.append(scn(r, "walk-%d" % n, walk(r, r.randint(6, 12))))
    return out


def walk(r, n):
    h, res = [], 0
    for _ in range(n):
        k = r.choice(["move", "reshape", "diffract", "diffract", "diffract", "scribble", "save"] + (["render"] * 4 + ["hits"] * 2 if res else []))
        if k == "move":
            h.append(dict(k=k, who=r.choice("PPQ"), m=r.choice("ab")))
        elif k == "reshape":
            h.append(dict(k=k, m=r.choice("012")))
        elif k == "diffract":
            h.append(dict(k=k, who=r.choice("PPQ"), beam=r.choice("AAAB"), bounds=r.choice("123455"), scan=r.choice("112")))
            res += 1
        elif k == "render":
            h.append(dict(k=k, r=r.randint(1, res), det=r.choice("12"), how=r.choice(HOW)))
        elif k == "hits":
            h.append(dict(k=k, r=r.randint(1, res), det=r.choice("12"), how=str(r.choice([1, 2, 5]))))
        else:
            h.append(dict(k=k))
    return h


def scn(r, name, h):
    w = D.rich(r, spread=0.7)
    co = w["poly"]["mesh"]["coord"]
    cen = [sum(x[k] for x in co) / len(co) for k in range(3)]
    n = len(w["poly"]["mesh"]["enod"])
    ph = w["poly"]["phases"]
    if r.random() < 0.4:
        ph[-1]["atoms"] = gen.atoms(r, r.randint(1, 2), ph[-1]["sg"])
    w["hi"] = D.bragg(r, ph, w["beam"]["lam"], 30)
    w["lo"] = r.choice([0.0, w["hi"] * 0.7])
    w["q"] = dict(U=[gen.rotation(r) for _ in range(n)], pmap=[r.randrange(len(ph)) for _ in range(n)])
    w["dets"] = {}
    for k in "12":
        d = D.detector(r, w["beam"], cen, w["hi"], dist=r.choice([40.0, 100.0]), n=[r.randint(5, 12), r.randint(5, 12)], wide=True)
        d.update(use_lorentz=r.random() < 0.7, use_polarization=r.random() < 0.7, use_structure_factor=r.random() < 0.5, gaussian_sigma=r.choice([1.0, 0.6]))
        w["dets"][k] = d
    w["scans"] = {"1": w["motion"], "2": gen.motion(r, 1.0)}
    w["moves"] = dict(a=dict(scan="1", t=1.0), b=dict(scan=r.choice("12"), t=r.choice([0.4, 0.0, 1.0])))
    e0 = [sum(co[i][k] for i in w["poly"]["mesh"]["enod"][0]) / 4 for k in range(3)]
    w["shapes"] = {"0": w["beam"]["verts"], "1": gen.beam(r, 0.7, e0)["verts"], "2": gen.beam(r, r.choice([1.0, 4.0]), co[0])["verts"]}
    w["beamb"] = dict(w["beam"], verts=w["beam"]["verts"], lam=round(w["beam"]["lam"] * r.choice([0.7, 1.02]), 4))
    looks = [dict(x) for x in LOOKS]
    nres = sum(o["k"] == "diffract" for o in h)
    looks += [dict(k="result", r=i + 1) for i in range(nres)]
    r.shuffle(looks)
    w.update(name=name, hist=h + looks[:r.randint(4, len(looks))], kind=r.choice(["np", "torch"]), pmapf=r.random() < 0.5, pts=[gen.vec(r, 2.0) for _ in range(2)])
    # detectors see much of the crystals' range of sizes
    v = gen._vol6([co[i] for i in w["poly"]["mesh"]["enod"][0]]) / 6
    w["limits"] = r.choice([[None, None], [abs(v) * 0.9, abs(v) * 0.5], [abs(v) * 2, abs(v) * 1.1]])
    return w


class Bench:
    """The objects of a session, with the arrays that the caller keeps."""

    def __init__(self, w, beam="0", kind="np"):
        from xrd_simulator.polycrystal import Polycrystal
        from xrd_simulator.beam import Beam
        from xrd_simulator.detector import Detector
        from xrd_simulator.motion import RigidBodyMotion
        self.w, self.kind, self.kept = w, kind, []
        self.talk = lambda: dict(verbose=False)
        p = w["poly"]
        self.phases = [W.phase(x, "%s/%d.cif" % (W.scratch(), i)) for i, x in enumerate(p["phases"])]
        self.mesh = W.mesh(p["mesh"])
        E = self.a(p["E"])
        pm = p["pmap"] if p.get("pmap") is not None else [0] * len(p["mesh"]["enod"])
        # a phase map of whole numbers, or of decimal ones that may be used without conversion
        self.pmaps = [self.a([float(x) for x in v]) if w.get("pmapf") else np.array(v) for v in (pm, w["q"]["pmap"])]
        self.kept += self.pmaps
        self.s = dict(P=Polycrystal(self.mesh, self.a(p["U"]), E, self.phases, element_phase_map=self.pmaps[0]),
                      Q=Polycrystal(self.mesh, self.a(w["q"]["U"]), E, self.phases, element_phase_map=self.pmaps[1]))
        b = w["beam"]
        self.beam = Beam(self.a(w["shapes"]["0" if beam == "B" else beam]), self.a(b["dir"]), b["lam"], self.a(b["pol"]))
        b = w["beamb"]
        self.beamb = Beam(self.a(b["verts"]), self.a(b["dir"]), b["lam"], self.a(b["pol"]))
        self.dets = {}
        for k, d in w["dets"].items():
            o = {n: d[n] for n in ("gaussian_sigma", "use_lorentz", "use_polarization", "use_structure_factor")}
            self.dets[k] = Detector(self.a(d["c0"]), self.a(d["c1"]), self.a(d["c2"]), n_pixels=tuple(d["n_pixels"]), **o)
        self.scans = {}
        for k, m in w["scans"].items():
            o = dict(origin=self.a(m["org"])) if m["org"] is not None else {}
            self.scans[k] = RigidBodyMotion(self.a(m["axis"]), m["ang"], self.a(m["tr"]), **o)

    def a(self, x):
        v = W.conv(x, self.kind)
        self.kept.append(v)
        return v

    def move(self, who, m):
        m = self.w["moves"][m]
        self.s[who].transform(self.scans[m["scan"]], m["t"])

    def reshape(self, m):
        v = W.conv(self.w["shapes"][m], "torch")
        self.kept.append(v)
        self.beam.set_beam_vertices(v)

    def diffract(self, who, bounds, scan, beam):
        w = self.w
        k = dict(min_bragg_angle=w["lo"], max_bragg_angle=w["hi"])
        if bounds == "2":
            k = dict(min_bragg_angle=0.0, max_bragg_angle=0.8 * w["hi"])
        elif bounds == "3":
            k = dict(detector=self.dets["2"], max_bragg_angle=w["hi"])
        elif bounds == "5":
            k["min_bragg_angle"] = 0.0
        elif bounds == "4":
            k = dict(min_bragg_angle=w["lo"] * 0.5, max_bragg_angle=w["hi"] * 0.95)
        return self.s[who].diffract(self.beamb if beam == "B" else self.beam, self.scans[scan], **self.talk(), **k)

    def render(self, pd, det, how):
        m, k = how.split("/")
        W.seed(11)
        q = {}
        if m == "auto" and self.w["limits"][0] is not None:
            q = dict(macro_grain_limit=self.w["limits"][0], micro_grain_limit=self.w["limits"][1])
        return self.dets[det].render(pd, frames_to_render=int(k), method=m, **self.talk(), **q)

    def hits(self, pd, det, how):
        return self.dets[det].peaks_detector_intersection(pd, frames_to_render=int(how), **self.talk())


def peaks(pd):
    return c14.peaks_obs(pd) + [dict(n="columns " + " ".join(str(c) for c in pd["columns"]), v=R.arr(R.tonp(pd["peaks"]).shape)),
                                dict(n="incident vector", v=R.flt(pd["incident_vector"])), dict(n="wavelength", v=R.flt(pd["wavelength"])), dict(n="rotation axis", v=R.flt(pd["rotation_axis"]))]


def look_sample(o):
    s = [dict(n="%s %s" % (a, x["n"]), v=x["v"]) for a in ("lab", "sample") for x in c14.snap("mesh", getattr(o, "mesh_" + a), None, None)]
    return s + c14.attrs(o, ["orientation_lab", "orientation_sample", "strain_lab", "strain_sample", "element_phase_map"]) + [dict(n="cell of a phase", v=R.flt(p.unit_cell)) for p in o.phases]


def look_beam(o):
    return c14.attrs(o, ["wave_vector", "wavelength", "polarization_vector", "vertices", "centroid", "halfspaces"])


DET = ["det_corner_0", "det_corner_1", "det_corner_2", "zdhat", "ydhat", "normal", "zmax", "ymax", "pixel_size_z", "pixel_size_y", "pixel_coordinates", "gaussian_sigma", "kernel_threshold", "gaussian_kernel",
       "lorentz_factor", "polarization_factor", "structure_factor", "max_gaussian_kernel_radius"]


def look_scan(o, w):
    return c14.attrs(o, ["rotation_axis", "rotation_angle", "translation", "origin"]) + [dict(n="moved", v=R.flt(o(np.array(w["pts"]), 0.3)))]


def pristine(q):
    """What a reference of the model is: everything made afresh, and only what the reference needs."""
    w, (what, *rest) = q["w"], q["key"].split(" ")
    if what == "sample":
        who, moves = rest[0].split(".")
        b = Bench(w)
        for m in moves:
            b.move(who, m)
        return look_sample(b.s[who])
    if what == "beam":
        return look_beam(Bench(w, rest[0]).beam)
    if what == "detector":
        return c14.attrs(Bench(w).dets[rest[0]], DET)
    if what == "scan":
        return look_scan(Bench(w).scans[rest[0]], w)
    who, moves, beam, bounds, scan = rest[0].split(".")
    b = Bench(w, beam)
    for m in moves:
        b.move(who, m)
    pd = b.diffract(who, bounds, scan, "B" if beam == "B" else "A")
    if what == "peaks":
        return peaks(pd)
    if what == "hits":
        return peaks(b.hits(pd, rest[1], rest[2]))
    img, out = b.render(pd, rest[1], rest[2])
    return [dict(n="image", v=R.flt(img))] + peaks(out)


def key(st, o):
    """The reference that the model names (the judge decides by the model's own name)."""
    k = o["k"]
    if k == "diffract":
        return "peaks " + meaning(st, o)
    if k == "result":
        return "peaks " + st["results"][o["r"] - 1]
    if k in ("render", "hits"):
        return "%s %s %s %s" % ("image" if k == "render" else "hits", st["results"][o["r"] - 1], o["det"], o["how"])
    if k == "sample":
        return "sample %s.%s" % (o["who"], st[o["who"]])
    return {"beam": "beam " + st["beam"], "detector": "detector " + o.get("det", ""), "scan": "scan " + o.get("scan", "")}.get(k, "")


def meaning(st, o):
    return ".".join((o["who"], st[o["who"]], "B" if o["beam"] == "B" else st["beam"], o["bounds"], o["scan"]))


def run(w, rec):
    st = dict(P="", Q="", beam="0", results=[])
    keys = []
    for o in w["hist"]:
        k = key(st, o)
        if k and k not in keys:
            keys.append(k)
        if o["k"] == "move":
            st[o["who"]] += o["m"]
        elif o["k"] == "reshape":
            st["beam"] = o["m"]
        elif o["k"] == "diffract":
            st["results"].append(meaning(st, o))
    refs = [dict(key=k, snap=rec.must(zygote.ask, dict(w=w, key=k))) for k in keys]
    rec.ev("session_begin", refs=refs, rel="1e-9")
    b = rec.must(Bench, w, "0", w["kind"])
    b.talk = rec.talk
    res, given = [], []
    for o in w["hist"]:
        k, snap = o["k"], []
        if k == "move":
            rec.must(b.move, o["who"], o["m"])
        elif k == "reshape":
            rec.must(b.reshape, o["m"])
        elif k == "diffract":
            res.append(rec.must(b.diffract, o["who"], o["bounds"], o["scan"], o["beam"]))
            snap = peaks(res[-1])
        elif k == "render":
            img, out = rec.must(b.render, res[o["r"] - 1], o["det"], o["how"])
            snap = [dict(n="image", v=R.flt(img))] + peaks(out)
            given += [img, out["peaks"]]
        elif k == "hits":
            out = rec.must(b.hits, res[o["r"] - 1], o["det"], o["how"])
            snap = peaks(out)
            given.append(out["peaks"])
        elif k == "result":
            snap = peaks(res[o["r"] - 1])
        elif k == "sample":
            snap = look_sample(b.s[o["who"]])
        elif k == "beam":
            snap = look_beam(b.beam)
        elif k == "detector":
            snap = c14.attrs(b.dets[o["det"]], DET)
        elif k == "scan":
            snap = look_scan(b.scans[o["scan"]], w)
        elif k == "scribble":
            scribble(b, given)
        elif k == "save":
            d = W.scratch()
            for n, x in (("p", b.s["P"]), ("b", b.beam), ("d", b.dets["1"]), ("m", b.scans["1"])):
                rec.must(x.save, os.path.join(d, n))
        rec.ev("session_step", o=o, snap=snap)


def scribble(b, given):
    """The caller goes on using the arrays and the mesh that were passed in, and what was returned."""
    for a in b.kept + given:
        try:
            a[...] = 1 if "int" in str(a.dtype) else 7.25
        except (ValueError, RuntimeError):
            pass  # not writable
    b.mesh.translate(np.array([3.0, 1.0, -2.0]))
    b.mesh.rotate(np.array([0.0, 0.0, 1.0]), 0.3)
