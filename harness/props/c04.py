from harness import gen, rec as R, world as W
from harness.props import diffworld as D

CFG = "SPECIFICATION Spec\nCONSTANTS Emit = TRUE\nDepth = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS KeptLattice SampleKept ProperOrientation SameCrystal Rigid FollowsOwn Sym\n"
ASSUMPTIONS = ["all histories of four kinds of transform, diffraction, a transform of a second polycrystal made of the same parts and a move of the mesh both were made from, up to the depth, are executed; parameters, samples and beams are sampled",
               "what is diffracted after a history is compared with what the specification says the moved state diffracts"]
NAMES = ["a0", "aMid", "a1", "b", "diffract", "twin", "mesh"]


def scenarios(ctx):
    r = ctx.rng
    hs = [c["hist"] for c in ctx.cases("PolyHistory", CFG % ctx.n(3, 4))]
    hs += [[r.choice(NAMES) for _ in range(r.randint(4, 8))] for _ in range(ctx.n(15, 300))]
    out = []
    for k, h in enumerate(hs):
        w = D.world(r, budget=r.choice([10, 40]), lit=0.7, mscale=r.choice([0.0, 1.0, 3.0]), strainsize=r.choice([0.0, 0.01, 0.08]))
        a, b, c = [gen.still(r, gen.motion(r, r.choice([0.5, 3.0]))) for _ in range(3)]
        mid = r.uniform(0.05, 0.95) if r.random() < 0.85 else 10 ** -r.uniform(2, 8)
        w["ops"] = []
        for n in h:
            if n == "diffract":
                w["ops"].append(dict(k="diffract", motion=gen.motion(r, 1.0)))
            elif n == "twin":
                w["ops"].append(dict(k="twin", motion=c, t=r.uniform(0.1, 1), diffract=r.random() < 0.5))
            elif n == "mesh":
                w["ops"].append(dict(k="mesh", v=[r.uniform(-3, 3) for _ in range(3)]))
            else:
                w["ops"].append(dict(k="transform", motion=b if n == "b" else a, t={"a0": 0.0, "a1": 1.0, "aMid": mid, "b": r.uniform(0.1, 1)}[n]))
        # a second polycrystal of the same mesh, orientations, strains and phases
        w["twin"] = any(n in ("twin", "mesh") for n in h) or r.random() < 0.2
        # a result of the final state is always looked at
        w["kind"] = r.choice(["np", "torch"])
        w["name"] = "history-%d-%s" % (k, "-".join(h) if len(h) < 5 else "long")
        out.append(w)
    for k in range(ctx.n(2, 12)):  # many elements
        w = D.large(r, r.choice([0, 3, 5]))
        w.update(ops=[dict(k="transform", motion=gen.motion(r, 1.0), t=gen.time(r)) for _ in range(2)], twin=False, kind="np", name="large-%d" % k)
        out.append(w)
    return out


def look_all(scn, rec, pc, twin, m, when):
    """The second polycrystal and the mesh both were made from did not follow."""
    rec.ev("poly_park", name="first")
    rec.ev("poly_pick", name="second")
    rec.ev("poly_look", when="of the second one " + when, obs=W.poly_snap(twin))
    rec.ev("poly_pick", name="first")
    rec.ev("mesh_move", kind="reload", g=W.mesh_snap(m))


def run(scn, rec):
    if not scn["twin"]:
        pc = D.begin(scn, rec, scn["kind"])
        twin = None
    else:
        parts = W.poly_parts(scn["poly"], scn["kind"])
        m = parts[0]
        d = scn["poly"]
        rec.ev("mesh_new", coord=R.flt(d["mesh"]["coord"]), enod=R.arr(d["mesh"]["enod"]), c03=False, g=W.mesh_snap(m))
        twin = rec.must(W.polycrystal, d, parts=parts)
        rec.ev("poly_new", obs=W.poly_snap(twin), **W.poly_rec(d))
        rec.ev("poly_park", name="second")
        pc = rec.must(W.polycrystal, d, parts=parts)
        rec.ev("poly_new", obs=W.poly_snap(pc), **W.poly_rec(d))
    for o in scn["ops"]:
        if o["k"] == "transform":
            D.transform(rec, pc, o["motion"], o["t"], scn["kind"])
            if twin is not None:
                look_all(scn, rec, pc, twin, m, "after a transform of the first")
        elif o["k"] == "twin":
            rec.ev("poly_park", name="first")
            rec.ev("poly_pick", name="second")
            D.transform(rec, twin, o["motion"], o["t"], scn["kind"])
            if o["diffract"]:
                W.diffract(rec, twin, scn["beam"], scn["motion"], 0.5 * (scn["lo"] + scn["hi"]), scn["hi"], want=("row", "complete"))
            rec.ev("poly_park", name="second")
            rec.ev("poly_pick", name="first")
            rec.ev("poly_look", when="of the first one after a transform of the second", obs=W.poly_snap(pc))
        elif o["k"] == "mesh":
            rec.must(m.translate, W.conv(o["v"], scn["kind"]))
            rec.ev("mesh_move", kind="translate", v=R.flt(o["v"]), g=W.mesh_snap(m))
            rec.ev("poly_look", when="after a move of the mesh it was made from", obs=W.poly_snap(pc))
            look_all(scn, rec, pc, twin, m, "after a move of the mesh")
        else:
            W.diffract(rec, pc, scn["beam"], o["motion"], scn["lo"], scn["hi"], want=("row", "complete"))
            rec.ev("poly_look", when="after diffraction", obs=W.poly_snap(pc))
    W.diffract(rec, pc, scn["beam"], scn["motion"], scn["lo"], scn["hi"], want=("row", "complete", "hkl"))
    if twin is not None:
        look_all(scn, rec, pc, twin, m, "at the end")
