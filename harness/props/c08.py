import math
import numpy as np
from harness import gen, rec as R, world as W

CFG = "SPECIFICATION Spec\nCONSTANT Emit = TRUE\nCHECK_DEADLOCK FALSE\nINVARIANTS TwoDefinitions VerticesAreCorners SelfCommon\n"
ASSUMPTIONS = ["points within 4e-6 of the beam's reach of its surface may go either way", "the time limit of the linear program is lifted",
               "common parts thinner than 2e-4 may be found or not; their corners are compared to 1e-4 of the reach"]
SHAPES = dict(
    box=[(1, 2, 3), (-1, 2, 3), (1, -2, 3), (-1, -2, 3), (1, 2, -3), (-1, 2, -3), (1, -2, -3), (-1, -2, -3)], tet=[(3, 0, 0), (-1, 2, 0), (-1, -2, 1), (0, 0, -3)],
    oct=[(2, 0, 0), (-1, 0, 0), (0, 3, 0), (0, -2, 0), (0, 0, 1), (0, 0, -4)], prism=[(3, 0, 4), (-2, 2, 4), (-2, -2, 4), (3, 0, -4), (-2, 2, -4), (-2, -2, -4)],
    skew=[(1, 1, 5), (-1, 1, 5), (1, -1, 5), (-1, -1, 5), (3, 3, -2), (1, 3, -2), (3, 1, -2), (1, 1, -2)])


def place(r, c):
    v = [list(map(float, p)) for p in SHAPES[c["shape"]]]
    s = {"tiny": 0.05, "unit": 1.0, "large": 200.0}[c["size"]]
    if c["place"] != "centred":
        M = gen.rotation(r) if c["place"] == "rotated" else [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]
        o = gen.vec(r, 5.0)
        v = [[x + y for x, y in zip(gen.mv(M, p), o)] for p in v]
    v = [[s * x for x in p] for p in v]
    if c["order"] == "reversed":
        v.reverse()
    elif c["order"] == "shuffled":
        r.shuffle(v)
    return v


def scenarios(ctx):
    r = ctx.rng
    out = []
    cs = ctx.cases("BeamGrid", CFG, workers=6)
    for rep in range(ctx.n(1, 8)):
        for k, c in enumerate(cs):
            out.append(probe(r, place(r, c), c["how"], "grid-%d-%d-%s" % (rep, k, c["how"])))
    for k in range(ctx.n(120, 2500)):
        v = gen.polyhedron(r, r.choice([0.1, 1.0, 30.0]), gen.vec(r, 5.0))
        out.append(probe(r, v, r.choice(["batch", "intersect", "clip", "clip", "replaced"]), "random-%d" % k))
    return out


def probe(r, v, how, name):
    c = [sum(p[i] for p in v) / len(v) for i in range(3)]
    ext = max(math.dist(c, p) for p in v)
    pts = []

    def inside():
        w = [r.expovariate(1) for _ in v]
        s = sum(w)
        return [sum(a * p[i] for a, p in zip(w, v)) / s for i in range(3)]
    for _ in range(24):
        z = r.random()
        if z < 0.3:
            pts.append(inside())
        elif z < 0.6:
            pts.append([a + ext * r.uniform(-1.2, 1.2) for a in c])
        elif z < 0.8:  # close to the surface, on either side
            a, b, d = r.sample(v, 3)
            w = [r.random() for _ in range(3)]
            q = [(w[0] * x + w[1] * y + w[2] * z_) / sum(w) for x, y, z_ in zip(a, b, d)]
            f = 1 + r.choice([-1, 1]) * r.choice([1e-3, 1e-4, 3e-5])
            pts.append([m + f * (x - m) for x, m in zip(q, c)])
        elif z < 0.9:  # close to a corner or along an edge
            a, b = r.sample(v, 2)
            w = r.choice([0.0, 0.5, 0.9])
            f = 1 + r.choice([-1, 1]) * 1e-3
            pts.append([m + f * ((1 - w) * x + w * y - m) for x, y, m in zip(a, b, c)])
        else:
            pts.append([m + 50 * ext * x for m, x in zip(c, gen.unit(r))])
    polys = []
    if how in ("intersect", "clip"):
        for _ in range(4):
            s = ext * r.choice([0.1, 0.5, 1.0, 3.0, 8.0]) if how == "clip" else ext * 0.3
            z = r.random()
            o = inside() if z < 0.4 else [m + ext * r.uniform(-1.5, 1.5) for m in c] if z < 0.8 else r.choice(v)
            t = gen.tet(r, 1.0, 0.1) if r.random() < 0.8 else gen.polyhedron(r, 0.6, [0.0, 0.0, 0.0])
            g = [sum(p[i] for p in t) / len(t) for i in range(3)] if r.random() < 0.5 else [0.0, 0.0, 0.0]
            polys.append([[x * s - y * s + q for x, y, q in zip(p, g, o)] for p in t])
        # slabs that the beam passes through without reaching its corners, and thin splinters
        far = 6 * ext
        polys.append([[x * far + q for x, q in zip(p, [m + 0.2 * ext for m in c])] for p in gen.tet(r, 1.0, 0.2)])
    return dict(name=name, verts=v, pts=pts, polys=polys, how=how, old=gen.polyhedron(r, 3.0, gen.vec(r, 3.0)))


def run(scn, rec):
    v = scn["old"] if scn["how"] == "replaced" else scn["verts"]
    b = rec.must(W.beam, dict(verts=v, dir=[1.0, 0.0, 0.0], lam=0.5, pol=[0.0, 1.0, 0.0]), "np" if scn["how"] == "numpy" else "torch")
    if scn["how"] == "replaced":
        import torch
        rec.must(b.set_beam_vertices, torch.tensor(scn["verts"]))
    fn = R.private(b, "_contains", "points")
    if fn is not None:
        P = np.array(scn["pts"])
        if scn["how"] == "one":
            got = [bool(rec.must(fn, W.conv(p, "torch"))) for p in scn["pts"]]
        else:
            got = [bool(x) for x in R.tonp(rec.must(fn, W.conv(P.T, "np" if scn["how"] == "numpy" else "torch")))]
        rec.ev("beam_contains", verts=R.flt(scn["verts"]), pts=R.flt(P), inside=got, how=scn["how"])
    fn = R.private(b, "_intersect", "vertices")
    if fn is not None:
        for p in scn["polys"]:
            h = rec.must(fn, W.conv(p, "torch"))
            if h is not None and not (hasattr(h, "points") and hasattr(h, "vertices")):
                break  # not the form known here
            hv = np.zeros((0, 3)) if h is None else np.asarray(h.points)[h.vertices]
            rec.ev("beam_intersect", verts=R.flt(scn["verts"]), poly=R.flt(p), none=h is None, hull=R.flt(hv))
