import math
import numpy as np
from harness import gen, rec as R, world as W
from harness.props import diffworld as D

CFG = "SPECIFICATION Spec\nCONSTANTS Emit = TRUE\nBatches = {%s}\nCHECK_DEADLOCK FALSE\nINVARIANTS AngleBack EtaBack LorentzWhere LorentzAtLeastOne LorentzMirror LorentzDef PolRange WidthFalls\n"
ASSUMPTIONS = ["rays within 1e-7 degrees of the half-degree tolerance may have either Lorentz factor", "within 1e-3 degrees of straight back the Lorentz factor may be infinite or any number above 1000"]
AXES = dict(perp=[0, 0, 1.0], perpDown=[0, 0, -1.0], tilt=[0.6, 0, 0.8], back=[-0.28, 0.96, 0], along=[1.0, 0, 0])


def ray(th, et, ax, kn):
    """Scattering angle 2 th, azimuth et from the projected axis, beam along x."""
    w = [0.0, ax[1], ax[2]]
    n = math.hypot(w[1], w[2])
    e1 = [0, w[1] / n, w[2] / n] if n > 1e-9 else [0, 0, 1.0]
    e2 = [0.0, -e1[2], e1[1]]
    return [kn * math.cos(2 * th)] + [kn * math.sin(2 * th) * (math.cos(et) * e1[i] + math.sin(et) * e2[i]) for i in (1, 2)]


def turned(M, v):
    return gen.mv(M, v)


def scenarios(ctx):
    r = ctx.rng
    out = []
    for rep in range(ctx.n(1, 6)):
        for c in ctx.cases("FactorGrid", CFG % ctx.n("1, 2, 5", "1, 2, 3, 4, 7"), workers=6):
            lam = round(r.uniform(0.2, 2.0), 4)
            kn = 2 * math.pi / lam
            ax = AXES[c["axis"]]
            M = gen.rotation(r) if r.random() < 0.6 else [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]
            sp = ray(math.radians(c["theta"] / 10), math.radians(c["eta"] / 10), ax, kn)
            rays = []
            for j in range(c["n"]):
                if c["pos"] == "all" or (c["pos"] == "first" and j == 0) or (c["pos"] == "last" and j == c["n"] - 1):
                    rays.append(sp)
                else:
                    rays.append(ray(math.radians(r.uniform(0.6, 88)), r.uniform(0, 2 * math.pi), ax, kn))
            out.append(scn(r, rays, ax, M, lam, "grid-%d-%s-%d-%d-%d-%s" % (rep, c["axis"], c["theta"], c["eta"], c["n"], c["pos"])))
    for k in range(ctx.n(60, 2000)):
        lam = round(r.uniform(0.2, 2.0), 4)
        ax = gen.axis(r)
        n = r.choice([1, 2, 3, 3, 10, 40])
        rays = [ray(math.radians(r.choice([r.uniform(0.0, 1), r.uniform(0.6, 88)])), r.choice([r.uniform(0, 2 * math.pi), math.radians(r.uniform(-1, 1))]), ax, 2 * math.pi / lam) for _ in range(n)]
        out.append(scn(r, rays, ax, gen.rotation(r), lam, "random-%d" % k))
    for k in range(ctx.n(25, 500)):
        w = D.world(r, budget=80, lit=1.0, size=r.choice([1.0, 0.003, 100.0, 0.0003]))
        w["name"] = "world-%d" % k
        out.append(w)
    return out


def scn(r, rays, ax, M, lam, name):
    p = gen.unit(r) if r.random() < 0.3 else None
    k = [2 * math.pi / lam, 0.0, 0.0]
    q = r.uniform(0, 6.3)
    p = [0.0, math.cos(q), math.sin(q)] if r.random() < 0.6 else [0.0, 0.0, 1.0]
    return dict(name=name, k=turned(M, k), axis=turned(M, ax), pol=turned(M, p), lam=lam, ko=[turned(M, x) for x in rays], vol=[10 ** r.choice([r.uniform(-9, 6), r.uniform(-18, 15)]) for _ in rays])


def run(scn, rec):
    if "poly" in scn:
        pc = D.begin(scn, rec, "np")
        W.diffract(rec, pc, scn["beam"], scn["motion"], scn["lo"], scn["hi"], want=("row",))
        return
    import torch
    from xrd_simulator import scattering_factors as S
    t = lambda x: torch.tensor(x, dtype=torch.float64)
    k, ax, pol, ko, vol = t(scn["k"]), t(scn["axis"]), t(scn["pol"]), t(scn["ko"]), t(scn["vol"])
    co = np.array(scn["ko"]) @ np.array(scn["k"]) / (np.linalg.norm(scn["ko"], axis=1) * np.linalg.norm(scn["k"]))
    tth = np.arccos(np.clip(co, -1, 1))
    n = len(scn["ko"])
    e = dict(k=R.flt(k), axis=R.flt(ax), pol=R.flt(pol), lam=R.num(scn["lam"]), ko=R.flt(ko), vol=R.flt(vol), tth=R.flt(tth), has=[])

    def one(x):
        return R.num(R.tonp(x).reshape(-1)[0])
    for key, name, ps, args in (("lor", "_lorentz", ("k_in", "k_out", "rot_axis"), lambda s: (k, ko[s], ax)), ("pola", "_polarization", ("k_out", "pol_vec"), lambda s: (ko[s], pol)), ("wid", "_scherrer", ("volumes", "two_theta", "wavelength"), lambda s: (vol[s], t(tth)[s], scn["lam"]))):
        fn = R.private(S, name, *ps)
        if fn is None:
            continue
        e["has"].append(key)
        e[key] = R.flt(rec.must(fn, *args(slice(None))))
        e["alone_" + key] = [one(rec.must(fn, *args(slice(j, j + 1)))) for j in range(n)]
    rec.ev("factor_batch", **e)
