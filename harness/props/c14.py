import os
import numpy as np
from harness import gen, rec as R, world as W
from harness.props import detworld as T, diffworld as D

CFG = "SPECIFICATION Spec\nCONSTANTS Emit = TRUE\nDepth = %d\nMoves = {\"a\", \"b\", \"use\"}\nFiles = {\"f\", \"g\"}\nCHECK_DEADLOCK FALSE\nINVARIANTS RoundTrip OnlySaved Idempotent\n"
ASSUMPTIONS = ["histories of moves, saves and loads are those of the model up to its depth and longer random ones; the objects, moves and names are sampled",
               "the .xdmf files have the .h5 companion that meshio writes"]
EXT = dict(motion=".motion", beam=".beam", detector=".det", polycrystal=".pc", mesh=".xdmf")
STEMS = ["x", "run.1", "run.2", "with space", "x.old", "a.b.c", "UPPER", "x.pc.bak", "m.motion.old", "det", "x_1", "beam", ".hidden", "x.PC"]
CLASSES = ["motion", "beam", "detector", "polycrystal", "mesh"]


def scenarios(ctx):
    r = ctx.rng
    out = []
    hs = ctx.cases("Store", CFG % ctx.n(4, 5), workers=6)
    r.shuffle(hs)
    n = ctx.n(50, 600)
    for ci, c in enumerate(CLASSES):
        for k in range(n):
            h = [dict(x) for x in hs[(ci * n + k) % len(hs)]]
            out.append(scn(r, "%s-%d" % (c, k), c, h))
        for k in range(ctx.n(8, 120)):  # longer walks through the model
            h, have = [], []
            for _ in range(r.randint(6, 10)):
                ops = ["a", "b", "use", "save", "save"] + (["load", "load"] if have else [])
                o = r.choice(ops)
                f = r.choice("fg") if o == "save" else r.choice(have) if o == "load" else ""
                if o == "save" and f not in have:
                    have.append(f)
                h.append(dict(op=o, file=f))
            out.append(scn(r, "%s-walk-%d" % (c, k), c, h))
    return out


def scn(r, name, c, h):
    st = r.sample(STEMS, 2)
    names = dict(f=st[0], g=st[1])
    for x in h:
        if x["op"] == "save":
            # with and without the extension, which makes no difference
            x["bare"] = r.random() < 0.5
            x["pic"] = r.random() < 0.7
            x["data"] = r.random() < 0.5
    w = D.rich(r, spread=0.7, **(dict(n=40, budget=8) if r.random() < 0.02 else {}))
    co = w["poly"]["mesh"]["coord"]
    cen = [sum(x[k] for x in co) / len(co) for k in range(3)]
    w["det"] = D.detector(r, w["beam"], cen, w["hi"], dist=100.0, n=[r.randint(4, 9), r.randint(4, 9)], wide=True)
    w["det"].update(use_lorentz=r.random() < 0.5, use_polarization=r.random() < 0.5, use_structure_factor=r.random() < 0.3, gaussian_sigma=r.choice([1.0, 0.7]),
                    kernel_threshold=r.choice([0.02, 0.1]), max_gaussian_kernel_radius=r.choice([1, 2, 3]))
    w.update(name=name, cls=c, hist=h, names=names, moves={k: dict(motion=gen.motion(r, 1.0), t=gen.time(r), v=gen.vec(r), axis=gen.axis(r), ang=gen.angle(r), verts=gen.beam(r, 2.0, cen)["verts"]) for k in "ab"},
             dirname=r.choice(["plain", "dir.with.dots", "dir x"]), seed=r.randrange(1000))
    if c == "mesh":
        w["mesh"] = gen.mesh(r, r.choice([1, 2, 3]) if r.random() < 0.97 else 200, 1.0, q=0.08)
    if c == "motion":
        w["pts"] = [gen.vec(r, 2.0) for _ in range(3)]
    return w


def attrs(o, names):
    return [dict(n=n, v=R.arr(getattr(o, n))) for n in names if hasattr(o, n)]


GROUPS = [("indices", 0, 5), ("structure_factors", 5, 6), ("times", 6, 7), ("G0", 7, 10), ("G", 10, 13), ("K_out", 13, 16), ("source", 16, 19), ("lorentz", 19, 20), ("polarization", 20, 21), ("volumes", 21, 22), ("2theta", 22, 23), ("scherrer", 23, 24),
          ("peak_index", 24, 25), ("detector columns", 25, 30)]


def peaks_obs(pd):
    p = R.tonp(pd["peaks"])
    return [dict(n="peaks " + n, v=R.flt(p[:, a:b])) for n, a, b in GROUPS if p.ndim == 2 and p.shape[1] >= b]


def snap(c, o, w, fixed):
    """Everything that is observed of an object; fixed: other objects to use it with."""
    if c == "motion":
        p = np.array(w["pts"])
        i = o.inverse()
        return attrs(o, ["rotation_axis", "rotation_angle", "translation", "origin"]) + [dict(n=n, v=R.flt(f)) for n, f in (
            ("moved", o(p, 0.3)), ("rotated", o.rotate(p, 0.7)), ("translated", o.translate(p, 0.2)), ("moved back", i(p, 0.4)), ("inverse axis", i.rotation_axis), ("inverse translation", i.translation))]
    if c == "beam":
        pd = fixed["pc"].diffract(o, fixed["motion"], min_bragg_angle=w["lo"], max_bragg_angle=w["hi"], verbose=False)
        return attrs(o, ["wave_vector", "wavelength", "polarization_vector", "vertices", "centroid", "halfspaces"]) + peaks_obs(pd) + macro(fixed["det"], pd)
    if c == "detector":
        out = attrs(o, ["det_corner_0", "det_corner_1", "det_corner_2", "zdhat", "ydhat", "normal", "zmax", "ymax", "pixel_size_z", "pixel_size_y", "pixel_coordinates", "gaussian_sigma", "kernel_threshold", "gaussian_kernel",
                        "lorentz_factor", "polarization_factor", "structure_factor"])
        for m in ("micro", "nano"):
            img, q = o.render(dict(fixed["pd"]), frames_to_render=2, method=m, verbose=False)
            out += [dict(n=m + " image", v=R.flt(img))] + [dict(n=m + " " + x["n"], v=x["v"]) for x in peaks_obs(q)]
        return out + macro(o, fixed["pd"])
    if c == "mesh":
        return attrs(o, ["coord", "enod", "dof", "efaces", "enormals", "ecentroids", "eradius", "espherecentroids", "evolumes", "centroid", "number_of_elements"])
    pd = o.diffract(fixed["beam"], fixed["motion"], min_bragg_angle=w["lo"], max_bragg_angle=w["hi"], verbose=False)
    s = [dict(n="%s %s" % (a, x["n"]), v=x["v"]) for a in ("lab", "sample") for x in snap("mesh", getattr(o, "mesh_" + a), w, fixed)]
    ph = [dict(n="phase %d %s" % (i, n), v=R.arr(np.array(getattr(p, n), dtype=float))) for i, p in enumerate(o.phases) for n in ("unit_cell",)]
    return s + ph + attrs(o, ["orientation_lab", "orientation_sample", "strain_lab", "strain_sample", "element_phase_map"]) + peaks_obs(pd) + macro(fixed["det"], pd)


def macro(det, pd):
    # small shadows are sampled at random: only the total survives rounding
    W.seed(5)
    img = R.tonp(det.render(dict(pd), frames_to_render=2, method="macro", verbose=False)[0])
    return [dict(n="macro image", v=R.flt(img.sum(axis=(1, 2)))), dict(n="shape of a macro image", v=R.arr(np.array(img.shape)))]


def build(c, w):
    if c == "motion":
        return W.motion(w["motion"])
    if c == "beam":
        return W.beam(w["beam"])
    if c == "detector":
        return W.detector(w["det"])
    if c == "mesh":
        return W.mesh(w["mesh"])
    return W.polycrystal(w["poly"])


def fixed_of(c, w):
    f = dict(motion=W.motion(w["motion"]), beam=W.beam(w["beam"]), det=W.detector(w["det"]), pc=W.polycrystal(w["poly"])) if c not in ("motion", "mesh") else {}
    if c == "detector":
        f["pd"] = f["pc"].diffract(f["beam"], f["motion"], min_bragg_angle=w["lo"], max_bragg_angle=w["hi"], verbose=False)
    return f


def act(c, o, m, w):
    """A move; returns the object afterwards."""
    v = w["moves"][m]
    if c == "motion":
        return o.inverse()
    if c == "beam":
        o.set_beam_vertices(W.conv(v["verts"], "torch"))
    elif c == "detector":
        a = "lorentz_factor" if m == "a" else "polarization_factor"
        setattr(o, a, not getattr(o, a))
    elif c == "mesh":
        if m == "a":
            o.translate(np.array(v["v"]))
        else:
            o.rotate(np.array(v["axis"]), v["ang"])
    else:
        o.transform(W.motion(v["motion"]), v["t"])
    return o


def use(c, o, w, fixed):
    if c == "mesh":
        o.save(os.path.join(W.scratch(), "y"))
    elif c == "motion":
        o(np.array(w["pts"]), 0.9)
    elif c == "beam":
        fixed["pc"].diffract(o, fixed["motion"], max_bragg_angle=w["hi"] * 0.9, verbose=False)
    elif c == "detector":
        o.render(dict(fixed["pd"]), frames_to_render=3, method="auto", verbose=False)
    else:
        o.diffract(fixed["beam"], fixed["motion"], max_bragg_angle=w["hi"] * 0.9, verbose=False)


def run(w, rec):
    c = w["cls"]
    # the states that the history passes through
    keys, cur, store = [[]], [], {}
    for x in w["hist"]:
        if x["op"] in "ab":
            cur = cur + [x["op"]]
        elif x["op"] == "save":
            store[x["file"]] = cur
        elif x["op"] == "load":
            cur = store[x["file"]]
        if cur not in keys:
            keys.append(cur)

    def reference(k):
        o = build(c, w)
        for m in k:
            o = act(c, o, m, w)
        return snap(c, o, w, fixed_of(c, w))
    refs = [dict(key=k, snap=rec.must(reference, k)) for k in keys]
    o = rec.must(build, c, w)
    fixed = fixed_of(c, w)
    ext = EXT[c]
    rec.ev("store_begin", refs=refs, rel="1e-11", exts=[ext], snap=rec.must(snap, c, o, w, fixed))
    d = os.path.join(W.scratch(), w["dirname"])
    os.mkdir(d)
    cls = type(o)
    for x in w["hist"]:
        op = x["op"]
        e = dict(act=op, stem="", exts=[], dir=[], passed=0, passed_after=0)
        if op in ("a", "b"):
            o = rec.must(act, c, o, op, w)
        elif op == "use":
            rec.must(use, c, o, w, fixed)
        else:
            stem = w["names"][x["file"]]
            path = os.path.join(d, stem + ext)
            e["stem"] = stem
            if op == "save":
                k = {}
                e["exts"] = [ext]
                if c == "polycrystal":
                    k["save_mesh_as_xdmf"] = x["pic"]
                    if x["pic"]:
                        e["exts"] = [ext, ".xdmf", ".h5"]
                if c == "mesh":
                    e["exts"] = [ext, ".h5"]
                    if x["data"]:
                        k["element_data"] = {"one": np.arange(o.number_of_elements) + 0.5, "two": [float(i) for i in range(o.number_of_elements)]}
                        e["passed"] = seen(k["element_data"])
                rec.must(o.save, os.path.join(d, stem) if x["bare"] else path, **k)
                if "element_data" in k:
                    e["passed_after"] = seen(k["element_data"])
                if c == "polycrystal" and x["pic"]:
                    picture(rec, o, os.path.join(d, stem + ".xdmf"))
            else:
                o = rec.must(cls.load, path)
            e["dir"] = sorted(os.listdir(d))
        e["snap"] = rec.must(snap, c, o, w, fixed)
        rec.ev("store_step", **e)


def seen(data):
    return [[k, type(v).__name__, [R.num(x) for x in v] if all(np.ndim(x) == 0 for x in v) else "nested"] for k, v in data.items()]


def picture(rec, pc, path):
    import meshio
    m, err = rec.call(meshio.read, path)
    f = [dict(n=k, v=R.flt(np.array(v[0], dtype=float).reshape(-1))) for k, v in (m.cell_data.items() if not err else [])]
    rec.ev("xdmf", ok=not err, fields=f, strain=R.flt(pc.strain_sample), U=R.flt(pc.orientation_sample), pmap=[int(v) for v in R.tonp(pc.element_phase_map)], coord=R.flt(pc.mesh_sample.coord), enod=R.arr(pc.mesh_sample.enod),
           xcoord=R.flt(m.points if not err else []), xenod=R.arr(np.array(m.cells_dict["tetra"], dtype=int) if not err else []))
