import copy
import math
import os
import shutil
import numpy as np
from harness import gen, rec as R, world as W
from harness.props import c14, diffworld as D

CFG = "SPECIFICATION Spec\nCONSTANTS Emit = TRUE\nDepth = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Inert Exactly\nPROPERTIES Step1\n"
ASSUMPTIONS = ["values within the tolerances of the checks (a rotation axis off by 1e-9..5e-5, a polarization off by 1e-13..1e-5, Bragg bounds within 1e-6 of each other) may be accepted or rejected",
               "which values stand for a kind of argument is sampled"]
KEYS = ["detector_distance", "number_of_detector_pixels_z", "number_of_detector_pixels_y", "detector_center_pixel_z", "detector_center_pixel_y", "pixel_side_length_z",
        "pixel_side_length_y", "wavelength", "beam_side_length_z", "beam_side_length_y", "rotation_step", "rotation_axis"]
EXT = dict(motion=".motion", beam=".beam", detector=".det", polycrystal=".pc")


def scenarios(ctx):
    r = ctx.rng
    cs = ctx.cases("Contract", CFG % ctx.n(3, 4), workers=6)
    single = [c["h"][0] for c in cs if len(c["h"]) == 1]
    walks = [c["h"] for c in cs if len(c["h"]) > 1]
    r.shuffle(walks)
    out = []
    for rep in range(ctx.n(4, 30)):
        calls = [dict(o) for o in single]
        r.shuffle(calls)
        for n in range(0, len(calls), 14):
            h = calls[n:n + 14]
            out.append(scn(r, "calls-%d-%d" % (rep, n // 14), h))
    for n, h in enumerate(walks[:ctx.n(250, 4000)]):
        out.append(scn(r, "walk-%d" % n, h))
    for n in range(ctx.n(60, 600)):  # longer ones, mixing everything
        h = [dict(r.choice(single)) for _ in range(6)] + [dict(o) for o in r.choice(walks)] + [dict(r.choice(single)) for _ in range(6)] + [dict(o) for o in r.choice(walks)]
        out.append(scn(r, "mixed-%d" % n, h))
    return out


def scn(r, name, h):
    n = r.choice([2, 4])
    w = D.rich(r, n=n, phases=r.choice([1, 2]), spread=0.7, budget=20)
    co = w["poly"]["mesh"]["coord"]
    cen = [sum(x[k] for x in co) / len(co) for k in range(3)]
    w["det"] = D.detector(r, w["beam"], cen, w["hi"], dist=100.0, n=[r.randint(3, 5), r.randint(3, 5)], wide=True)
    far = 2.5 * max(math.dist(cen, x) for x in co) + 1
    w["verts"] = {m: gen.beam(r, far * r.uniform(0.8, 1.2), cen)["verts"] for m in "ab"}
    w["turn"] = dict(axis=gen.axis(r), ang=gen.angle(r))
    w["cone"] = cone(w, cen)
    far2 = [c + 30 * far for c in cen]
    w["dark"] = gen.beam(r, far, far2, w["beam"]["lam"])
    w["dark"]["dir"], w["dark"]["pol"] = w["beam"]["dir"], w["beam"]["pol"]
    w["mesh"] = gen.mesh(r, n, 1.0, q=0.08)
    w["par"] = dict(detector_distance=r.uniform(50, 200), number_of_detector_pixels_z=r.randint(3, 5), number_of_detector_pixels_y=r.randint(3, 5), detector_center_pixel_z=r.uniform(1, 3),
                    detector_center_pixel_y=r.uniform(1, 3), pixel_side_length_z=r.uniform(1, 5), pixel_side_length_y=r.uniform(1, 5), wavelength=w["beam"]["lam"],
                    beam_side_length_z=r.uniform(1, 5), beam_side_length_y=r.uniform(1, 5))
    w.update(name=name, calls=[dict(o=o, a=args(r, w, o), kind=r.choice(["np", "torch", "list"])) for o in h], seed=r.randrange(1000))
    return w


def cone(w, cen):
    d = w["det"]
    c3 = [a + b - o for a, b, o in zip(d["c1"], d["c2"], d["c0"])]
    k = w["beam"]["dir"]
    nk = math.sqrt(sum(x * x for x in k))
    out = []
    for c in (d["c0"], d["c1"], d["c2"], c3):
        v = [a - b for a, b in zip(c, cen)]
        out.append(math.acos(sum(a * b for a, b in zip(v, k)) / nk / math.sqrt(sum(a * a for a in v))))
    return max(out) / 2


def axis(r, x):
    a = list(gen.axis(r))
    if x == "zero":
        return [0.0, 0.0, 0.0]
    if x == "nan":
        a[r.randrange(3)] = float(r.choice(["nan", "inf"]))
        return a
    f = dict(unit=1.0, long=r.choice([1.01, 2.0, 100.0]), short=r.choice([0.99, 0.5, 1e-3]), near=1 + r.choice([-1, 1]) * r.choice([1e-4, 1e-3, 5e-3]))[x]
    return [f * y for y in a]


def angle(r, x):
    return dict(inside=gen.angle(r), tiny=10 ** r.uniform(-12, -6), close=math.pi - 10 ** r.uniform(-12, -6), zero=r.choice([0.0, -0.0, 0]), pi=math.pi, above=r.choice([math.pi * (1 + 1e-12), 3.2, 2 * math.pi, 7.0, 180.0, math.inf]),
                negative=-r.choice([1e-12, 0.3, math.pi / 2, 3.0]), nan=math.nan)[x]


def verts(r, good, x):
    v = copy.deepcopy(good)
    if x == "three":
        v = v[:r.choice([1, 2, 3])]
    elif x == "interior":
        wts = [r.uniform(0.2, 1) for _ in v]
        s = sum(wts)
        v.append([sum(a * p[k] for a, p in zip(wts, v)) / s for k in range(3)])
    elif x in ("edge", "face"):
        # an axis-parallel box, so that the extra point lies exactly on it
        o = [round(y * 4) / 4 for y in v[0]]
        s = [r.choice([1.0, 2.0, 8.0]) for _ in range(3)]
        v = [[a + b * c for a, b, c in zip(o, s, (i, j, k))] for i in (-1, 1) for j in (-1, 1) for k in (-1, 1)]
        p = [r.choice([-1.0, 1.0]) for _ in range(3)]
        p[r.randrange(3)] = r.choice([0.0, 0.5, -0.25])
        if x == "face":
            i = r.choice([i for i in range(3) if abs(p[i]) == 1.0])
            p[i] = r.choice([0.0, 0.25, -0.5])
        v.append([a + b * c for a, b, c in zip(o, s, p)])
    elif x == "duplicate":
        v.append(list(r.choice(v)))
    elif x == "flat":
        i = r.randrange(3)
        v = [[0.5 if k == i else y for k, y in enumerate(p)] for p in v]
    if x != "corners":
        r.shuffle(v)
    return v


def pol(r, b, x):
    p = [y / math.sqrt(sum(z * z for z in b["pol"])) for y in b["pol"]]
    k = [y / math.sqrt(sum(z * z for z in b["dir"])) for y in b["dir"]]
    if x == "zero":
        return [0.0, 0.0, 0.0]
    if x == "along":
        return [r.choice([-1.0, 1.0, 3.0]) * y for y in k]
    f = dict(perp=0.0, scaled=0.0, slight=r.choice([-1, 1]) * r.choice([1e-4, 1e-3]), tilted=r.choice([-1, 1]) * r.uniform(0.01, 2))[x]
    g = r.choice([0.1, 7.0]) if x == "scaled" else 1.0
    return [g * (a + f * c) for a, c in zip(p, k)]


def stack(r, x, n, one):
    m = np.array([one() for _ in range(n + 1)])
    if x == "one":
        return m[0].tolist()
    return {"each": m[:n], "fewer": m[:n - 1], "more": m, "flat9": m[:n].reshape(n, 9), "swapped": np.transpose(m[:n], (1, 2, 0)), "vector": m[0][0], "row": m[:1]}[x].tolist()


def args(r, w, o):
    """Values that stand for the kinds of arguments of a call."""
    k = o["k"]
    if k == "motion":
        return dict(axis=axis(r, o["axis"]), ang=angle(r, o["ang"]), tr=gen.vec(r))
    if k == "turn":
        good = o["axis"] == "unit" and o["ang"] == "inside"
        return dict(axis=w["turn"]["axis"] if good else axis(r, o["axis"]), ang=w["turn"]["ang"] if good else angle(r, o["ang"]))
    if k == "beam":
        b = gen.beam(r, r.choice([1.0, 50.0]), gen.vec(r, 3.0))
        return dict(verts=verts(r, b["verts"], o["verts"]), dir=b["dir"], lam=b["lam"], pol=pol(r, b, o["pol"]))
    if k == "reshape":
        return dict(verts=verts(r, w["verts"][o["m"]], o["verts"]))
    if k == "poly":
        n = len(w["mesh"]["enod"])
        np_ = 1 if o["ph"] in ("one", "list") else 2
        return dict(U=stack(r, o["U"], n, lambda: gen.rotation(r)), E=stack(r, o["E"], n, lambda: gen.strain(r)), phases=[gen.phase(r) for _ in range(np_)],
                    pmap=[r.randrange(2) for _ in range(n)] if o["ph"] == "two" else None)
    if k == "template":
        p = dict(w["par"], rotation_axis=axis(r, o["axis"]), rotation_step=angle(r, o["ang"]))
        if o["missing"] == 13:
            p["a_comment"] = "x"
        elif o["missing"]:
            del p[KEYS[o["missing"] - 1]]
            if r.random() < 0.3:
                p[KEYS[o["missing"] - 1].upper()] = 1.0
        ks = list(p)
        r.shuffle(ks)
        return dict(par={n: p[n] for n in ks})
    if k == "render":
        return dict(how=r.choice(["Micro", "MACRO", "", "centroid", "micro ", "automatic", "gauss", "nan", "projected", "airy"]) if o["how"] == "unknown" else o["how"])
    if k == "load":
        e = EXT[o["cls"]]
        return dict(name={"right": r.choice(["x" + e, "x.old" + e, e]), "other": "x" + r.choice([y for c, y in EXT.items() if c != o["cls"]]), "none": "x", "upper": "x" + e.upper(), "inner": "x" + e + r.choice([".bak", "2", ".pkl"]),
                          "glued": "x" + e[1:]}[o["name"]])
    if k == "diffract":
        c = w["cone"] if o["hi"] in ("none", "default") else w["cone"] * r.choice([0.5, 0.95, 1.5])
        if o["hi"] == "small":
            c = w["cone"] * r.uniform(0.2, 0.4)
        c = min(c, 1.5)
        hi = {"default": None, "none": "none"}.get(o["hi"], c)
        top = min(c, w["cone"])
        lo = {"zero": None if r.random() < 0.5 else 0.0, "some": 0.6 * top, "negative": -r.choice([1e-9, 0.1, 1.0]), "beyond": top * r.choice([1.2, 2.0]), "equal": c, "nan": math.nan}[o["lo"]]
        return dict(lo=lo, hi=hi)
    if k == "detector":
        return dict(n=dict(none=None, one=4, pair=[3, 4])[o["n"]], size=dict(none=None, one=r.uniform(1, 3), pair=[r.uniform(1, 3), r.uniform(1, 3)])[o["size"]])
    if k == "level":
        return dict(f=o["f"], rad=r.uniform(0.5, 0.8))


BEAM = ["wave_vector", "wavelength", "polarization_vector", "vertices", "centroid", "halfspaces"]
MESH = ["coord", "enod", "efaces", "enormals", "ecentroids", "eradius", "espherecentroids", "evolumes", "centroid", "number_of_elements"]
POLY = ["orientation_lab", "orientation_sample", "strain_lab", "strain_sample", "element_phase_map"]
DET = ["det_corner_0", "det_corner_1", "det_corner_2", "zdhat", "ydhat", "normal", "zmax", "ymax", "pixel_size_z", "pixel_size_y", "pixel_coordinates", "gaussian_kernel", "lorentz_factor", "polarization_factor", "structure_factor"]
MOTION = ["rotation_axis", "rotation_angle", "translation", "origin"]


def snap(L):
    """All live objects."""
    out = []
    for who, names in (("beam", BEAM), ("mesh", MESH), ("pc", POLY), ("det", DET), ("motion", MOTION), ("dark", BEAM)):
        out += [dict(n=who + " " + x["n"], v=as_float(x["v"])) for x in c14.attrs(L[who], names)]
    out += [dict(n="pc " + x["n"], v=as_float(x["v"])) for a in ("lab", "sample") for x in c14.attrs(getattr(L["pc"], "mesh_" + a), MESH)]
    out += c14.peaks_obs(L["pd"]) + [dict(n="keys of the peaks", v=R.arr(len(L["pd"])))]
    out.append(dict(n="phases", v=R.flt([len(L["pc"].phases)] + [x for p in L["pc"].phases for x in p.unit_cell])))
    return out


def as_float(v):
    # a mesh that a polycrystal was made from holds tensors afterwards: only the numbers count
    return dict(v, k="float", d=floats(v["d"])) if v["k"] in ("int", "bool") else v


def floats(d):
    return [floats(x) for x in d] if isinstance(d, list) else R.num(d)


def live(w):
    L = dict(beam=W.beam(w["beam"]), dark=W.beam(w["dark"]), mesh=W.mesh(w["mesh"]), pc=W.polycrystal(w["poly"]), det=W.detector(w["det"]), motion=W.motion(w["motion"]))
    L["pd"] = L["pc"].diffract(L["beam"], L["motion"], min_bragg_angle=w["lo"], max_bragg_angle=w["hi"], verbose=False)
    return L


def look(L, w):
    pd = L["pc"].diffract(L["beam"], L["motion"], min_bragg_angle=w["lo"], max_bragg_angle=w["hi"], verbose=False)
    img = L["det"].render(dict(L["pd"]), frames_to_render=2, method="micro", verbose=False)[0]
    L["mesh"].translate(np.array([0.5, 0.25, -1.0]))
    return c14.peaks_obs(pd) + [dict(n="image", v=R.flt(img))] + [dict(n="mesh " + x["n"], v=as_float(x["v"])) for x in c14.attrs(L["mesh"], MESH)]


def fine(c):
    o = c["o"]
    return (o["k"] == "reshape" and o["verts"] == "corners") or (o["k"] == "turn" and o["axis"] == "unit" and o["ang"] == "inside")


def run(w, rec):
    D.begin(w, rec)
    # references for the states that the calls lead to
    beam, mesh, keys = "0", "", [("0", "")]
    for c in w["calls"]:
        if fine(c):
            if c["o"]["k"] == "reshape":
                beam = c["o"]["m"]
            else:
                mesh += c["o"]["m"]
            if (beam, mesh) not in keys:
                keys.append((beam, mesh))
    refs = []
    for b, m in keys:
        L = rec.must(live, w)
        if b != "0":
            rec.must(L["beam"].set_beam_vertices, W.conv(w["verts"][b], "torch"))
        for _ in m:
            rec.must(L["mesh"].rotate, np.array(w["turn"]["axis"]), w["turn"]["ang"])
        refs.append(dict(key=b + "|" + m, snap=snap(L)))
        if (b, m) == (beam, mesh):
            refs.append(dict(key="look " + b + "|" + m, snap=rec.must(look, L, w)))
    L = rec.must(live, w)
    rec.ev("contract_begin", refs=refs, rel="1e-9")
    cur = dict(beam=w["beam"])
    d = W.scratch()
    for c in w["calls"]:
        f = CALL[c["o"]["k"]](c["o"], c["a"], c["kind"], L, w, cur, d)
        fn, fields = f
        _, err = rec.call(fn)
        if fine(c) and c["o"]["k"] == "reshape":
            cur["beam"] = dict(w["beam"], verts=c["a"]["verts"])
        rec.ev("contract_call", o=c["o"], err=err or "", snap=snap(L), **fields)
    rec.ev("contract_look", snap=rec.must(look, L, w))


def c_motion(o, a, kind, L, w, cur, d):
    from xrd_simulator.motion import RigidBodyMotion
    return lambda: RigidBodyMotion(W.conv(a["axis"], kind), a["ang"], W.conv(a["tr"], kind)), dict(axis=R.flt(a["axis"]), ang=R.num(a["ang"]))


def c_turn(o, a, kind, L, w, cur, d):
    return lambda: L["mesh"].rotate(np.array(a["axis"]), a["ang"]), dict(axis=R.flt(a["axis"]), ang=R.num(a["ang"]))


def c_beam(o, a, kind, L, w, cur, d):
    return lambda: W.beam(a, kind), dict(verts=R.flt(a["verts"]), dir=R.flt(a["dir"]), pol=R.flt(a["pol"]))


def c_reshape(o, a, kind, L, w, cur, d):
    return lambda: L["beam"].set_beam_vertices(W.conv(a["verts"], "torch")), dict(verts=R.flt(a["verts"]))


def c_poly(o, a, kind, L, w, cur, d):
    from xrd_simulator.polycrystal import Polycrystal
    ph = [W.phase(p) for p in a["phases"]]
    k = dict(element_phase_map=np.array(a["pmap"])) if a["pmap"] else {}
    U, E = W.conv(a["U"], kind), W.conv(a["E"], kind)
    return lambda: Polycrystal(L["mesh"], U, E, ph[0] if o["ph"] == "one" else ph, **k), dict(ush=list(np.shape(a["U"])), esh=list(np.shape(a["E"])), n=len(w["mesh"]["enod"]), phases=len(ph), mapped=bool(k))


def c_template(o, a, kind, L, w, cur, d):
    from xrd_simulator import templates
    p = dict(a["par"])
    if "rotation_axis" in p:
        p["rotation_axis"] = np.array(p["rotation_axis"])
    one = [1.0, 0.0, 0.0]
    return lambda: templates.s3dxrd(p), dict(keys=list(a["par"]), axis=R.flt(a["par"].get("rotation_axis", one)), ang=R.num(a["par"].get("rotation_step", 1.0)))


def c_render(o, a, kind, L, w, cur, d):
    pd = L["pd"]
    if o["what"] == "none":
        pd = dict(pd, peaks=pd["peaks"][:0])
    return lambda: L["det"].render(pd, frames_to_render=o["frames"], method=a["how"], verbose=False), dict(how=a["how"])


def c_load(o, a, kind, L, w, cur, d):
    x = dict(motion=L["motion"], beam=L["beam"], detector=L["det"], polycrystal=L["pc"])[o["cls"]]
    path = os.path.join(d, "saved" + EXT[o["cls"]])
    if o["cls"] == "polycrystal":
        x.save(path, save_mesh_as_xdmf=False)
    else:
        x.save(path)
    to = os.path.join(d, a["name"])
    shutil.copyfile(path, to)
    n = len(EXT[o["cls"]])
    return lambda: type(x).load(to), dict(tail=to[-n:])


def c_diffract(o, a, kind, L, w, cur, d):
    lit = o["lit"] == "yes"
    k = {}
    if a["lo"] is not None:
        k["min_bragg_angle"] = a["lo"]
    if a["hi"] is not None:
        k["max_bragg_angle"] = None if a["hi"] == "none" else a["hi"]
    return (lambda: L["pc"].diffract(L["beam"] if lit else L["dark"], L["motion"], detector=L["det"], verbose=False, **k),
            dict(beam=W.beam_rec(cur["beam"] if lit else w["dark"]), lo=R.num(a["lo"] or 0.0), hi="none" if a["hi"] == "none" else R.num(math.pi / 2 if a["hi"] is None else a["hi"]), has_det=True, det=W.det_rec(w["det"])))


def c_detector(o, a, kind, L, w, cur, d):
    return lambda: W.detector(dict(w["det"], n_pixels=a["n"], pixel_size=a["size"]), kind), dict(n_given=a["n"] is not None, size_given=a["size"] is not None)


def c_level(o, a, kind, L, w, cur, d):
    from xrd_simulator.mesh import TetraMesh
    f = {"ball": lambda x: np.linalg.norm(x) - a["rad"], "outside": lambda x: np.linalg.norm(x) + 0.1, "inside": lambda x: np.linalg.norm(x) - 10.0, "constant": lambda x: 1.0}[a["f"]]
    g = [f(np.array([x, y, z])) for x in (-1, 0, 1) for y in (-1, 0, 1) for z in (-1, 0, 1)]
    return lambda: TetraMesh.generate_mesh_from_levelset(f, 1.0, 0.6), dict(least=R.num(min(g)), most=R.num(max(g)))


CALL = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}
