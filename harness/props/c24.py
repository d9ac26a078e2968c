import math
import os
import numpy as np
from harness import gen, rec as R, world as W
from harness.props import c14

CFG = "SPECIFICATION Spec\nCONSTANTS Emit = TRUE\nCHECK_DEADLOCK FALSE\nINVARIANTS Proper Locked Twofold MeanKnown MeanProper MeanClosest AnglesKnown\n"
ASSUMPTIONS = ["the pictures are read with meshio", "where the mean orientation is nearly ambiguous only relations between the misorientations are judged", "orientations are rotations to within 1e-9"]
BEFORE = ["as made", "moved", "loaded", "moved and loaded"]


def rot(k, a):
    c, s = math.cos(a), math.sin(a)
    return {"x": [[1.0, 0, 0], [0, c, -s], [0, s, c]], "y": [[c, 0, s], [0, 1.0, 0], [-s, 0, c]], "z": [[c, -s, 0], [s, c, 0], [0, 0, 1.0]]}[k]


def mul(*m):
    a = np.eye(3)
    for x in m:
        a = a @ np.array(x)
    return a.tolist()


def orientations(c):
    g = {k: math.radians(c[k]) for k in ("p1", "P", "p2", "d")}
    b = mul(rot("z", g["p1"]), rot("x", g["P"]), rot("z", g["p2"]))
    d = g["d"]
    return {"one": [b], "pair": [mul(b, rot("z", d)), mul(b, rot("z", -d))], "triple": [mul(b, rot("x", d)), b, mul(b, rot("x", -d))],
            "cross": [mul(b, rot("x", d)), mul(b, rot("y", d)), mul(b, rot("x", -d)), mul(b, rot("y", -d))], "off": [b, b, mul(b, rot("y", d))]}[c["arr"]]


def nearly(r, U):
    """U as it comes out of a few operations that are exact on paper."""
    k = r.choice([0, 0, 1, 2, 3])
    if k == 1:
        for _ in range(r.randint(1, 4)):
            M = gen.rotation(r)
            U = mul(M, np.array(M).T, U)
    elif k == 2:
        return (np.array(U) + np.array([[r.uniform(-1, 1) * 10 ** -r.randint(10, 15) for _ in range(3)] for _ in range(3)])).tolist()
    elif k == 3:
        n = r.choice([3, 7, 12])  # a full turn in steps
        for _ in range(n):
            U = mul(rot("z", 2 * math.pi / n), U)
    return U


def scenarios(ctx):
    r = ctx.rng
    out = []
    cs = ctx.cases("PictureGrid", CFG, workers=6)
    r.shuffle(cs)
    for k, c in enumerate(cs[:ctx.n(900, len(cs))]):
        out.append(scn(r, "grid-%d" % k, [nearly(r, U) for U in orientations(c)], c["before"]))
    for k in range(ctx.n(120, 2500)):
        n = r.randint(1, 7) if k % 40 else r.choice([60, 200])
        b, s = gen.rotation(r), r.choice([1e-9, 1e-4, 0.05, 0.5, 4.0])
        Us = [mul(b, rot(r.choice("xyz"), r.uniform(-s, s)), rot(r.choice("xyz"), r.uniform(-s, s))) for _ in range(n)]
        if r.random() < 0.3:  # small middle angles
            Us = [mul(rot("z", r.uniform(0, 6.3)), rot("x", r.choice([0.0, math.pi]) + r.uniform(-1, 1) * 10 ** -r.uniform(2, 12)), rot("z", r.uniform(0, 6.3))) for _ in range(n)]
        out.append(scn(r, "random-%d" % k, Us, r.choice(BEFORE)))
    for k in range(ctx.n(60, 800)):
        n = r.randint(1, 8)
        m = gen.mesh(r, n, r.choice([1.0, 0.01, 50.0]))
        data = []
        for j in range(r.randint(0, 4)):
            kind = r.choice(["list", "np", "int", "torch", "ints", "vectors"])
            x = [r.randint(-5, 90) for _ in range(n)] if kind in ("int", "ints") else [[r.uniform(-3, 3) for _ in range(3)] for _ in range(n)] if kind == "vectors" else [r.uniform(-1, 1) * 10 ** r.uniform(-6, 6) for _ in range(n)]
            data.append(dict(n=r.choice(["grain size %d", "b%d", "Very long name [unit] %d"]) % j, kind=kind, x=x))
        out.append(dict(name="mesh-%d" % k, mesh=m, data=data, bare=r.random() < 0.5, moves=[dict(v=gen.vec(r), axis=gen.axis(r), ang=gen.angle(r)) for _ in range(r.choice([0, 1]))], seed=k))
    return out


def scn(r, name, Us, before):
    n = len(Us)
    w = gen.poly(r, n, phases=r.choice([1, 2, 3]))
    w["U"] = Us[0] if n == 1 and r.random() < 0.5 else Us
    if r.random() < 0.5:
        w["E"] = [gen.strain(r, 0.02) for _ in range(n)]
    if len(w["phases"]) > 1:
        w["pmap"] = [r.randrange(len(w["phases"])) for _ in range(n)]
    return dict(name=name, poly=w, before=before, stem=r.choice(c14.STEMS), bare=r.random() < 0.5, kind=r.choice(["np", "np", "torch"]), moves=[dict(m=gen.motion(r, 1.0), t=gen.time(r)) for _ in range(r.randint(1, 3))], twice=r.random() < 0.3, seed=1)


def run(w, rec):
    (pictures if "poly" in w else meshes)(w, rec)


def pictures(w, rec):
    d = W.scratch()
    p = w["poly"]
    n = len(p["mesh"]["enod"])
    pc = rec.must(W.polycrystal, p, w["kind"])
    path = os.path.join(d, w["stem"] + ("" if w["bare"] else ".pc"))
    file = os.path.join(d, w["stem"] + ".xdmf")
    if "moved" in w["before"]:
        for m in w["moves"]:
            rec.must(pc.transform, W.motion(m["m"]), m["t"])
    if "loaded" in w["before"]:
        rec.must(pc.save, os.path.join(d, "first"), save_mesh_as_xdmf=False)
        pc = rec.must(type(pc).load, os.path.join(d, "first.pc"))
    if w["twice"]:  # over an earlier picture
        rec.must(pc.save, path)
        rec.must(pc.transform, W.motion(w["moves"][0]["m"]), w["moves"][0]["t"])
    rec.must(pc.save, path)
    q = W.poly_rec(p)
    look(rec, file, strain=q["E"], U=q["U"], pmap=q["pmap"], coord=q["coord"], enod=q["enod"])


def look(rec, path, op="xdmf", **f):
    import meshio
    m, err = rec.call(meshio.read, path)
    fields = [dict(n=k, v=R.flt(np.array(v[0], dtype=float))) for k, v in (m.cell_data.items() if not err else [])]
    for x in fields:  # one number per element may be stored as a column
        if len(x["v"]["sh"]) == 2 and x["v"]["sh"][1] == 1:
            x["v"] = R.flt(np.array(m.cell_data[x["n"]][0], dtype=float).reshape(-1))
    rec.ev(op, ok=not err, fields=fields, xcoord=R.flt(m.points if not err else []), xenod=R.arr(np.array(m.cells_dict["tetra"], dtype=int) if not err else []), **f)


def meshes(w, rec):
    import torch
    d = W.scratch()
    m = rec.must(W.mesh, w["mesh"])
    for x in w["moves"]:
        rec.must(m.rotate, np.array(x["axis"]), x["ang"])
        rec.must(m.translate, np.array(x["v"]))
    mk = dict(list=list, np=np.array, int=np.array, torch=lambda x: torch.tensor(x, dtype=torch.float64), ints=list, vectors=np.array)
    data = {x["n"]: mk[x["kind"]](x["x"]) for x in w["data"]}
    path = os.path.join(d, "m" + ("" if w["bare"] else ".xdmf"))
    rec.must(m.save, path, **(dict(element_data=data) if data else {}))
    look(rec, os.path.join(d, "m.xdmf"), op="xdmf_mesh", data=[dict(n=x["n"], v=R.flt(np.array(x["x"], dtype=float))) for x in w["data"]], coord=R.flt(m.coord), enod=R.arr(m.enod))
