import numpy as np
from harness import gen, rec as R, world as W
from harness.props import diffworld as D

CFG = "SPECIFICATION Spec\nCONSTANT Emit = TRUE\nCHECK_DEADLOCK FALSE\nINVARIANTS Solves Sound AtMostTwo\n"
ASSUMPTIONS = ["solutions within 1e-9 of the ends of the scan, of tangency, or within 4e-6 of the beam surface may be reported or not, except in the exact cases of LaueRoots",
               "experiments are sampled; coefficients of the Laue equation are exhaustive over the LaueRoots grid"]


def scenarios(ctx):
    r = ctx.rng
    out = []
    cs = ctx.cases("LaueRoots", CFG, workers=6)
    # exact coefficients one at a time, all scan angles
    for k in range(0, len(cs), 60):
        out.append(dict(name="roots-%d" % k, exact=[[c["r0"], c["r1"], c["r2"]] for c in cs[k:k + 60]]))
    # the same equation in batches of any shape
    for k in range(ctx.n(30, 300)):
        T, H = r.choice([(1, 1), (1, 7), (5, 1), (3, 4), (2, 9), (0, 3), (3, 0)])
        s = r.choice([0.3, 1.0, 3.0])
        out.append(dict(name="batch-%d" % k, T=T, H=H, f=[gen.vec(r, s) for _ in range(3)], ang=gen.angle(r), seed=r.randrange(10**6)))
    for k in range(ctx.n(110, 2500)):
        w = D.world(r, budget=r.choice([4, 20, 60, 120]))
        w["name"] = "world-%d" % k
        w["pre"] = [dict(motion=gen.motion(r, 2.0), t=gen.time(r)) for _ in range(r.choice([0, 0, 0, 1, 2]))]
        out.append(w)
    for k in range(ctx.n(6, 40)):  # many elements, many reflections
        w = D.large(r, k if ctx.quick else r.randrange(6))
        w.update(name="large-%d" % k, pre=[])
        out.append(w)
    return out


def solver():
    from xrd_simulator import laue
    return R.private(laue, "_find_solutions_to_tangens_half_angle_equation", "G_0", "rho_0_factor", "rho_1_factor", "rho_2_factor", "delta_omega")


def batch(rec, G, f, ang, exact):
    fn = solver()
    if fn is None:
        return
    import torch
    res = rec.must(fn, torch.tensor(G), *[torch.tensor(x) for x in f], torch.tensor(ang))
    if not isinstance(res, (tuple, list)) or len(res) != 4:
        return  # not the form known here
    rec.ev("laue_batch", G=R.flt(G), f0=R.flt(f[0]), f1=R.flt(f[1]), f2=R.flt(f[2]), ang=R.num(ang), exact=exact,
           grains=R.arr(res[0]), planes=R.arr(res[1]), times=R.flt(res[2]), out=R.flt(res[3]))


def run(scn, rec):
    if "exact" in scn:
        for q in scn["exact"]:
            # G = (1,0,0): rho_0 = f0[0], rho_1 = f1[0], rho_2 = f2[0] + 1/2
            f = [np.array([float(q[0]), 0.3, -0.2]), np.array([float(q[1]), -1.0, 0.1]), np.array([q[2] - 0.5, 0.7, 0.9])]
            batch(rec, np.array([[[1.0], [0.0], [0.0]]]), f, [0.01, 0.5, 1.57, 3.0, 3.14][(q[0] + 2 * q[1] + 3 * q[2]) % 5], True)
    elif "T" in scn:
        g = np.random.default_rng(scn["seed"])
        batch(rec, g.uniform(-1.5, 1.5, (scn["T"], 3, scn["H"])), [np.array(x) for x in scn["f"]], scn["ang"], False)
    else:
        pc = D.begin(scn, rec)
        for p in scn["pre"]:
            D.transform(rec, pc, p["motion"], p["t"])
        W.diffract(rec, pc, scn["beam"], scn["motion"], scn["lo"], scn["hi"], want=("complete",))
