import itertools, math
import numpy as np
from harness import gen, rec as R, world as W
from harness.props import detworld as T, diffworld as D
from harness.props.c10 import tetworld

CFG = "SPECIFICATION Spec\nCONSTANT Emit = TRUE\nCHECK_DEADLOCK FALSE\nINVARIANTS ShownWhenEnabledAreGood NoneIsOne Factorises Independent\n"
ASSUMPTIONS = ["a product of factors agrees to one part in 1e12"]
VALUES = dict(pos=2.5, small=1e-12, big=1e9, zero=0.0, inf=math.inf, nan=math.nan, neg=-1.5)


def scenarios(ctx):
    r = ctx.rng
    out = []
    cs = ctx.cases("FactorToggles", CFG, workers=6)
    cs.sort(key=lambda c: (c["lor"], c["pol"], c["sf"]))
    for rep in range(ctx.n(1, 6)):
        for (lo, po, sf), g in itertools.groupby(cs, key=lambda c: (c["lor"], c["pol"], c["sf"])):
            g = list(g)
            r.shuffle(g)
            for n in range(0, len(g), 20):
                d = T.place(r, 80.0, 30.0, 40.0, 0.2)
                d.update(n_pixels=[9, 12], use_lorentz=lo, use_polarization=po, use_structure_factor=sf)
                rows = []
                for i, c in enumerate(g[n:n + 20]):
                    src = gen.vec(r, 0.3)
                    v = {k: (x if k == "neg" else x * r.choice([1.0, r.uniform(0.5, 2)])) if x and math.isfinite(x) else x for k, x in VALUES.items()}
                    rows.append(T.row(r, i, kout=T.aimed(d, src, r.uniform(-0.1, 1.1), r.uniform(0.1, 0.9), 0.1), src=src, lorentz_factors=v[c["l"]], polarization_factors=v[c["p"]], structure_factors=v[c["f"]],
                                      volumes=r.choice([1e-4, 0.5, 500.0]), scherrer_fwhm=1e-5))
                out.append(dict(name="switches-%d-%d%d%d-%d" % (rep, lo, po, sf, n), det=d, rows=rows, k=r.choice([1, 3]), world=tetworld(r), method=r.choice(["micro", "nano", "macro", "auto"])))
    for n in range(ctx.n(25, 300)):
        w = D.world(r, budget=25, lit=1.0, mscale=1.0)
        c = [sum(x[k] for x in w["poly"]["mesh"]["coord"]) / len(w["poly"]["mesh"]["coord"]) for k in range(3)]
        w.update(name="diffracted-%d" % n, det=D.detector(r, w["beam"], c, w["hi"], n=[r.randint(3, 9), r.randint(3, 9)]), k=r.randint(1, 3), method=r.choice(["micro", "nano", "macro", "auto"]))
        w["det"].update(use_lorentz=r.random() < 0.5, use_polarization=r.random() < 0.5, use_structure_factor=r.random() < 0.5)
        if r.random() < 0.5:  # in the plane of the rotation axis the Lorentz factor is infinite
            k = w["beam"]["dir"]
            q = math.sqrt(sum(x * x for x in k))
            w["motion"]["axis"] = [x / q for x in k]
        if r.random() < 0.5:
            w["poly"]["phases"][0].update(atoms=gen.atoms(r, sg=w["poly"]["phases"][0]["sg"]))
        out.append(w)
    return out


def run(scn, rec):
    d = scn["det"]
    det = rec.must(W.detector, d)
    W.seed(3)
    if "rows" in scn:
        T.render(rec, det, d, T.peaks_dict(scn["rows"], scn["world"]), scn["k"], scn["method"], world=scn["world"])
        if scn["method"] in ("micro", "nano"):
            # hidden peaks leave no trace
            pd = T.peaks_dict(scn["rows"], scn["world"])
            img, out = T.render(rec, det, d, pd, scn["k"], scn["method"], emit=False)
            vis = {int(x) for x in R.tonp(out["peaks"])[:, 24]}
            rows = [x for x in scn["rows"] if int(x[24]) in vis]
            part, _ = T.render(rec, det, d, T.peaks_dict(rows), scn["k"], scn["method"], emit=False)
            P = R.tonp(out["peaks"])
            rec.ev("render_parts", what="of the visible peaks", whole=R.flt(img), parts=[dict(img=R.flt(part), idx=list(range(len(P))))], n=len(P), total=R.num(float((P[:, 29] * P[:, 21]).sum()) or 1.0), tol="1e-9")
    else:
        pc = rec.must(W.polycrystal, scn["poly"])
        pd = W.diffract(rec, pc, scn["beam"], scn["motion"], scn["lo"], scn["hi"], emit=False)
        T.render(rec, det, d, pd, scn["k"], scn["method"], world=dict(mesh=scn["poly"]["mesh"], motion=scn["motion"], beam=scn["beam"]))
