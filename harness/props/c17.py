import math
from harness import gen, rec as R, world as W
from harness.props import detworld as T, diffworld as D

CFG = "SPECIFICATION Spec\nCONSTANT Emit = TRUE\nCHECK_DEADLOCK FALSE\nINVARIANTS Symmetric Additive Complete\n"
ASSUMPTIONS = ["symmetry operations are those of the xfab tables, for 32 space groups of all crystal systems",
               "reflections within 1e-8 (relative) of a bound may be reported or not"]


def scenarios(ctx):
    r = ctx.rng
    cs = ctx.cases("BraggBounds", CFG)
    out = []
    for rep in range(ctx.n(1, 12)):
        for k, c in enumerate(cs):
            w = D.world(r, budget=r.choice([15, 60]), lit=1.0, mscale=1.0, groups=[g for g, _ in gen.GROUPS] if rep % 2 else gen.SMALL)
            co = w["poly"]["mesh"]["coord"]
            mid = [sum(x[i] for x in co) / len(co) for i in range(3)]
            far = max(math.dist(mid, x) for x in co)
            if c["lit"] == "part":
                w["beam"] = gen.beam(r, far * 0.7, co[0], w["beam"]["lam"])
            elif c["lit"] == "none":
                w["beam"] = gen.beam(r, far, [m + 30 * far for m in mid], w["beam"]["lam"])
            full = w["hi"]
            w["lo"] = {"zero": 0.0, "some": full * 0.4, "near": full * 0.8}[c["lo"]]
            if c["det"] != "no":
                if c["hi"] != "default":
                    cone = full * r.uniform(0.9, 1.05) if c["hi"] == "none" else full * r.choice([0.85, 0.95, 1.5])
                else:
                    cone = full
                w["det"] = cornered(r, w["beam"], mid, cone)
                if c["det"] == "axis":
                    put_corner(r, w, c["lit"], mid, cone)
            w["hi"] = {"default": None, "given": full, "none": "none", "small": max(full * 0.83, w["lo"] * 1.02)}[c["hi"]]
            w["pre"] = [dict(motion=gen.motion(r, 2.0), t=gen.time(r)) for _ in range(c["steps"])]
            if c["steps"]:  # keep the detector around the moved sample's direction
                w["pre"][0]["motion"]["tr"] = [0.0, 0.0, 0.0]
                w["pre"][0]["motion"]["org"] = mid
            w["again"] = r.random() < 0.3
            w["name"] = "call-%d-%d" % (rep, k)
            out.append(w)
    for k in range(ctx.n(3, 40)):  # every group
        for g, sys in gen.GROUPS:
            w = D.world(r, budget=ctx.n(100, 250), lit=1.0, mscale=0.0, n=1, phases=1)
            ph = dict(sg=g, cell=gen.cell(r, sys, 3.0, 7.0))
            w["poly"]["phases"] = [ph]
            w["hi"] = D.bragg(r, [ph], w["beam"]["lam"], ctx.n(100, 250))
            w["lo"] = r.choice([0.0, w["hi"] * 0.5, w["hi"] * 0.9])
            w["pre"] = []
            w["again"] = False
            w["name"] = "group-%d-%s" % (k, g)
            out.append(w)
    for k in range(ctx.n(3, 20)):  # many
        w = D.world(r, budget=100, lit=1.0, mscale=0.0, n=1, phases=1)
        g, sys = [("P1", "tri"), ("Fm-3m", "cubic"), ("P21/c", "mono"), ("P63/mmc", "hex")][k % 4]
        ph = dict(sg=g, cell=gen.cell(r, sys, 3.0, 12.0))
        w["poly"]["phases"] = [ph]
        w["beam"]["lam"] = round(r.uniform(0.05, 0.2), 4)
        w["hi"] = D.bragg(r, [ph], w["beam"]["lam"], ctx.n(1500, 4000))
        w.update(lo=r.choice([0.0, w["hi"] * 0.9]), pre=[], again=False, name="many-%d" % k)
        out.append(w)
    for k in range(ctx.n(30, 200)):  # samples with many nodes, wide compared to the distance of the detector
        w = D.world(r, budget=60, lit=1.0, mscale=0.0, n=r.choice([5, 9, 20, 80]), spread=r.choice([3.0, 6.0]), phases=1, groups=["P1", "P-1", "Pm-3m"])
        co = w["poly"]["mesh"]["coord"]
        mid = [sum(x[i] for x in co) / len(co) for i in range(3)]
        far = max(math.dist(mid, x) for x in co)
        part = r.random() < 0.6
        if part:
            w["beam"] = gen.beam(r, far * r.choice([0.3, 0.6]), r.choice(co), w["beam"]["lam"])
        w["det"] = D.detector(r, w["beam"], mid, w["hi"], dist=far * r.choice([4.0, 10.0]))
        w.update(hi=r.choice([None, "none"]), lo=0.0, pre=[], again=False, name="wide-%d" % k)
        out.append(w)
    for k in range(ctx.n(16, 200)):  # detectors beside and behind the sample
        w = D.world(r, budget=60, lit=1.0, mscale=0.0, spread=0.5)
        co = w["poly"]["mesh"]["coord"]
        mid = [sum(x[i] for x in co) / len(co) for i in range(3)]
        b = w["beam"]["dir"]
        u, a = gen.unit(r), math.radians(r.uniform(50, 175))
        n = math.sqrt(sum(x * x for x in b))
        b = [x / n for x in b]
        v = gen.cross(b, u)
        n = math.sqrt(sum(x * x for x in v))
        d = T.place(r, r.choice([100.0, 1000.0]), 1.0, 1.0, 0.3, d=[math.cos(a) * x + math.sin(a) * y / n for x, y in zip(b, v)])
        s = math.sqrt(sum(x * x for x in d["c0"])) * r.uniform(0.1, 1.5)
        e = {c: [(1 - s) * o + s * x + m for o, x, m in zip(d["c0"], d[c], mid)] for c in ("c0", "c1", "c2")}
        w["det"] = dict(e, n_pixels=[3, 4])
        cone = max(angle(b, [x - y for x, y in zip(c, mid)]) for c in (e["c0"], e["c1"], e["c2"], [x + y - o for x, y, o in zip(e["c1"], e["c2"], e["c0"])])) / 2
        stl = min((60 / (4 / 3 * math.pi * 8 * p["cell"][0] * p["cell"][1] * p["cell"][2])) ** (1 / 3) for p in w["poly"]["phases"])
        w["beam"]["lam"] = round(math.sin(cone) / stl, 4)
        w.update(hi=r.choice([None, "none", math.pi / 2, cone * 0.9]), lo=r.choice([0.0, 0.5 * cone]), pre=[], again=False, name="beside-%d" % k)
        out.append(w)
    for k in range(ctx.n(8, 80)):  # so oblique that the longest rows of reflections lie between the axes
        w = D.world(r, budget=100, lit=1.0, mscale=0.0, n=1, phases=1)
        g, sys = r.choice([("P1", "tri"), ("P-1", "tri"), ("P21/c", "mono")] if "P21/c" in dict(gen.GROUPS) else [("P1", "tri")])
        for _ in range(60):
            ph = dict(sg=g, cell=gen.cell(r, sys, 3.0, 7.0))
            w["hi"] = D.bragg(r, [ph], w["beam"]["lam"], ctx.n(150, 250))
            if between_axes(ph["cell"], 2 * math.sin(w["hi"]) / w["beam"]["lam"]):
                break
        w["poly"]["phases"] = [ph]
        w.update(lo=r.choice([0.0, w["hi"] * 0.5]), pre=[], again=False, name="oblique-%d" % k)
        out.append(w)
    return out


def angle(a, b):
    return math.acos(max(-1.0, min(1.0, sum(x * y for x, y in zip(a, b)) / math.sqrt(sum(x * x for x in a) * sum(x * x for x in b)))))


def between_axes(cell, g):
    """Whether some reflection of at most 1/d = g has an index larger than any along the axes."""
    import numpy as np
    al, be, ga = (math.radians(x) for x in cell[3:])
    A = np.array([[cell[0], 0, 0], [cell[1] * math.cos(ga), cell[1] * math.sin(ga), 0], [0, 0, 0.0]])
    A[2, 0] = cell[2] * math.cos(be)
    A[2, 1] = cell[2] * (math.cos(al) - math.cos(be) * math.cos(ga)) / math.sin(ga)
    A[2, 2] = math.sqrt(cell[2] ** 2 - A[2, 0] ** 2 - A[2, 1] ** 2)
    S = np.linalg.inv(A)  # columns: reciprocal axes
    n = [int(g * x) + 1 for x in cell[:3]]
    h = np.stack(np.meshgrid(*[np.arange(-m, m + 1) for m in n]), -1).reshape(-1, 3)
    h = h[np.linalg.norm(h @ S.T, axis=1) <= g]
    return bool((np.abs(h).max(axis=0) > np.ceil(g / np.linalg.norm(S, axis=0))).any())


def cornered(r, beam, centre, cone):
    """A detector whose outermost corner is seen from centre under twice the angle cone."""
    d = D.detector(r, beam, centre, cone, dist=r.choice([300.0, 3000.0]))
    n = math.sqrt(sum(x * x for x in beam["dir"]))
    k = [x / n for x in beam["dir"]]

    def ang(c):
        v = [a - b for a, b in zip(c, centre)]
        return math.acos(max(-1, min(1, sum(a * b for a, b in zip(v, k)) / math.sqrt(sum(a * a for a in v)))))
    lo, hi = 0.0, 1.0
    c = [(a + b) / 2 for a, b in zip(d["c1"], d["c2"])]

    def scaled(f):
        e = {n: [m + f * (x - m) for x, m in zip(d[n], c)] for n in ("c0", "c1", "c2")}
        cs = [e["c0"], e["c1"], e["c2"], [a + b - o for a, b, o in zip(e["c1"], e["c2"], e["c0"])]]
        return e, max(ang(x) for x in cs)
    f = 1.0
    for _ in range(60):
        e, a = scaled(f)
        if a > 2 * cone:
            f *= 0.9
        elif a < 1.9 * cone:
            f *= 1.05
        else:
            break
    d.update(scaled(f)[0])
    return d


def put_corner(r, w, lit, mid, cone):
    """Put a corner of the detector on the beam axis behind the illuminated part: the detector covers a quadrant."""
    n = math.sqrt(sum(x * x for x in w["beam"]["dir"]))
    k = [x / n for x in w["beam"]["dir"]]
    if lit == "none":
        m = w["poly"]["mesh"]
        cs = [[sum(m["coord"][j][i] for j in e) / 4 for i in range(3)] for e in m["enod"]]
        mid = [sum(c[i] for c in cs) / len(cs) for i in range(3)]
    dist = r.choice([300.0, 3000.0])
    y = gen.cross(k, gen.unit(r))
    ny = math.sqrt(sum(x * x for x in y))
    y = [x / ny for x in y]
    z = gen.cross(k, y)
    half = dist * math.tan(2 * cone) / math.sqrt(2)
    at = [m + dist * x for m, x in zip(mid, k)]
    fy, fz = r.choice([(0, 0), (1, 0), (0, 1), (1, 1)])  # which corner
    c0 = [a - half * (fy * u + fz * v) for a, u, v in zip(at, y, z)]
    w["det"].update(c0=c0, c1=[a + half * u for a, u in zip(c0, y)], c2=[a + half * u for a, u in zip(c0, z)])


def run(scn, rec):
    pc = D.begin(scn, rec)
    for p in scn["pre"]:
        D.transform(rec, pc, p["motion"], p["t"])
    for lo, hi, det in [(scn["lo"], scn["hi"], scn.get("det"))] + ([(0.0, scn["lo"] or 0.05, None), (scn["lo"], scn["hi"], scn.get("det"))] if scn["again"] else []):
        pd = W.diffract(rec, pc, scn["beam"], scn["motion"], lo, hi, det, want=("hkl", "complete"), may=True)
        if pd is None:
            continue
        e = W.diffract_rec(pd, scn["beam"], scn["motion"], lo, hi, det, ("hkl", "complete"))
        sets = [getattr(p, "miller_indices", None) for p in pc.phases]
        if all(x is not None for x in sets):
            e = {k: e[k] for k in ("beam", "lo", "hi", "has_det", "det")}
            rec.ev("hkl_set", hkl=[R.arr(R.tonp(x)) for x in sets], **e)
