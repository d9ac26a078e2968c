from harness import gen, rec as R, world as W

CFG = "SPECIFICATION Spec\nCONSTANT Emit = TRUE\nCHECK_DEADLOCK FALSE\nINVARIANTS Closed VolumeByFlux BoundSound CircumEqual OrderFree\n"
ASSUMPTIONS = ["elements of quality (6V / longest side cubed) above 1e-6 for given meshes; generated meshes: positive volume and tolerances that grow with flatness"]
LEVELS = ["ball", "box", "ellipsoid", "torus", "capsule", "two_balls"]


def region(r, name, R):
    """A region well inside the bounding radius R (MeshTrace!Depth)."""
    if name == "ball":
        q = r.uniform(0.45, 0.7)
        return [dict(k="ball", c=[R * r.uniform(-0.2, 0.2) for _ in range(3)], r=R * q)]
    if name == "box":
        return [dict(k="box", c=[R * r.uniform(-0.2, 0.2) for _ in range(3)], h=[R * q for q in r.sample([0.35, 0.45, 0.6], 3)])]
    if name == "ellipsoid":
        return [dict(k="ellipsoid", c=[R * r.uniform(-0.15, 0.15) for _ in range(3)], h=[R * q for q in r.sample([0.4, 0.55, 0.75], 3)])]
    if name == "torus":
        return [dict(k="torus", c=[0.0, 0.0, 0.0], axis=r.randrange(3), r=R * 0.6, s=R * 0.25)]
    if name == "capsule":
        d = gen.unit(r)
        q, c = R * r.uniform(0.25, 0.35), [R * r.uniform(-0.1, 0.1) for _ in range(3)]
        return [dict(k="capsule", p=[x - q * y for x, y in zip(c, d)], q=[x + q * y for x, y in zip(c, d)], r=R * r.uniform(0.33, 0.4))]
    d = gen.unit(r)
    return [dict(k="ball", c=[0.5 * R * x for x in d], r=R * 0.4), dict(k="ball", c=[-0.48 * R * x for x in d], r=R * r.uniform(0.35, 0.4))]


def level(parts):
    """Positive inside, negative outside."""
    import numpy as np

    def one(x, g):
        x = np.asarray(x, float)
        if g["k"] == "capsule":
            p, q = np.array(g["p"]), np.array(g["q"])
            t = np.clip((x - p) @ (q - p) / ((q - p) @ (q - p)), 0, 1)
            return g["r"] - np.linalg.norm(x - p - t * (q - p))
        d = x - np.array(g["c"])
        if g["k"] == "ball":
            return g["r"] - np.linalg.norm(d)
        if g["k"] == "box":
            return np.min(np.array(g["h"]) - np.abs(d))
        if g["k"] == "ellipsoid":
            return min(g["h"]) * (1 - np.linalg.norm(d / np.array(g["h"])))
        along = d[g["axis"]]
        return g["s"] - np.hypot(np.sqrt(max(d @ d - along * along, 0.0)) - g["r"], along)
    return lambda x: max(one(x, g) for g in parts)


def scenarios(ctx):
    r = ctx.rng
    shapes = [c["p"] for c in ctx.cases("TetShapes", CFG, workers=6)]
    out = []
    # every shape of the grid, in a random node order, at several scales, several elements per mesh
    for rep in range(ctx.n(1, 24)):
        r.shuffle(shapes)
        k = 0
        while k < len(shapes):
            n = r.choice([1, 2, 3, 10, 20])
            sc = r.choice([1.0, 1.0, 0.001, 1000.0])
            off = gen.vec(r, r.choice([0.0, 5.0]))
            coord, enod = [], []
            for p in shapes[k:k + n]:
                e = list(range(len(coord), len(coord) + 4))
                r.shuffle(e)
                enod.append(e)
                coord += [[sc * (x + o) for x, o in zip(v, off)] for v in p]
            k += n
            out.append(dict(name="grid-%d-%d" % (rep, k), mesh=dict(coord=coord, enod=enod)))
    for k in range(ctx.n(60, 1500)):
        q = r.choice([0.05, 0.01, 0.001])
        sc = r.choice([1.0, 1.0, 1e-4, 1e4])
        out.append(dict(name="random-%d" % k, mesh=gen.mesh(r, r.choice([1, 1, 2, 5, 12]), sc, q=q, spread=r.choice([0.0, 3.0, 30.0]))))
    for k in range(ctx.n(3, 30)):  # many elements
        out.append(dict(name="large-%d" % k, mesh=gen.mesh(r, r.choice([150, 300, 700]), 1.0, q=0.01, spread=5.0)))
    for k in range(ctx.n(6, 30)):
        name = LEVELS[k % len(LEVELS)]
        rad = r.choice([1.0, 1.0, 250.0, 0.02])
        cell = rad * (r.uniform(0.18, 0.25) if k % 3 == 1 else r.uniform(0.3, 0.7))
        out.append(dict(name="levelset-%s-%d" % (name, k), parts=region(r, name, rad), rad=rad, cell=cell))
    return out


def run(scn, rec):
    from xrd_simulator.mesh import TetraMesh
    if "mesh" in scn:
        d = scn["mesh"]
        m = rec.must(W.mesh, d)
        rec.ev("mesh_new", coord=R.flt(d["coord"]), enod=R.arr(d["enod"]), c03=True, g=W.mesh_snap(m))
    else:
        m = rec.must(TetraMesh.generate_mesh_from_levelset, level(scn["parts"]), scn["rad"], scn["cell"])
        rec.ev("mesh_made", parts=[{k: R.flt(v)["d"] if isinstance(v, (float, list)) else v for k, v in g.items()} for g in scn["parts"]],
               rad=R.num(scn["rad"]), cell=R.num(scn["cell"]), g=W.mesh_snap(m))
