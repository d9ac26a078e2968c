import os
from harness import gen, rec as R, world as W

CFG = "SPECIFICATION Spec\nCONSTANTS Emit = TRUE\nDepth = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS CachesAgree Rigid Composed\n"
ASSUMPTIONS = ["all histories of 6 kinds of move up to the depth are executed; their parameters and the meshes are sampled"]


def scenarios(ctx):
    r = ctx.rng
    hs = [c["hist"] for c in ctx.cases("MeshHistory", CFG % ctx.n(3, 4))]
    extra = ctx.n(30, 300)  # longer random walks through the same model
    for _ in range(extra):
        hs.append([r.choice(["translate", "rotate", "update0", "updateMid", "update1", "reload"]) for _ in range(r.randint(5, 9))])
    out = []
    for k, h in enumerate(hs):
        sc = r.choice([1.0, 1.0, 50.0, 0.02])
        n = r.choice([1, 1, 2, 3]) if k % 25 else r.choice([40, 300])
        mv = []
        for name in h:
            if name == "translate":
                mv.append(dict(k="translate", v=gen.vec(r, sc), kind=r.choice(["np", "torch"])))
            elif name == "rotate":
                mv.append(dict(k="rotate", axis=gen.axis(r), ang=gen.angle(r), kind=r.choice(["np", "torch"])))
            elif name == "reload":
                mv.append(dict(k="reload"))
            else:
                t = {"update0": 0.0, "update1": 1.0, "updateMid": r.uniform(0.05, 0.95)}[name]
                mv.append(dict(k="update", motion=gen.still(r, gen.motion(r, sc)), t=t, kind=r.choice(["np", "torch"])))
        out.append(dict(name="history-%d-%s" % (k, "-".join(x[0] + x[-1] for x in h)), mesh=gen.mesh(r, n, sc), moves=mv))
    return out


def run(scn, rec):
    from xrd_simulator.mesh import TetraMesh
    d = scn["mesh"]
    m = rec.must(W.mesh, d)
    rec.ev("mesh_new", coord=R.flt(d["coord"]), enod=R.arr(d["enod"]), c03=False, g=W.mesh_snap(m))
    dirn = None
    for mv in scn["moves"]:
        if mv["k"] == "translate":
            v = W.conv(mv["v"], mv["kind"])
            rec.must(m.translate, v)
            rec.ev("mesh_move", kind="translate", v=R.flt(mv["v"]), g=W.mesh_snap(m))
        elif mv["k"] == "rotate":
            rec.must(m.rotate, W.conv(mv["axis"], mv["kind"]), mv["ang"])
            rec.ev("mesh_move", kind="rotate", axis=R.flt(mv["axis"]), ang=R.num(mv["ang"]), g=W.mesh_snap(m))
        elif mv["k"] == "update":
            rec.must(m.update, W.motion(mv["motion"], mv["kind"]), mv["t"])
            rec.ev("mesh_move", kind="update", motion=W.motion_rec(mv["motion"]), t=R.num(mv["t"]), g=W.mesh_snap(m))
        else:
            dirn = dirn or W.scratch()
            p = os.path.join(dirn, "m.xdmf")
            rec.must(m.save, p)
            m = rec.must(TetraMesh.load, p)
            rec.ev("mesh_move", kind="reload", g=W.mesh_snap(m))
