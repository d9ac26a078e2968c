import math
import numpy as np
from harness import gen, rec as R, world as W
from harness.props import detworld as T, diffworld as D

CFG = "SPECIFICATION Spec\nCONSTANTS Emit = TRUE\nMaxK = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Partition Sound Ordered Refines\n"
ASSUMPTIONS = ["a time within rounding of an edge i/k that is not a double may belong to either frame"]


def times(r, k, where):
    e = [i / k for i in range(1, k)] or [0.5]
    if len(e) > 14:
        e = r.sample(e, 14)
    if where == "zero":
        return [0.0, 0.0]
    if where == "one":
        return [1.0, 1.0]
    if where == "edge":
        return e
    if where == "middle":
        return [(i + r.random()) / k for i in range(k)][:20]
    s = -1 if where == "below" else 1
    return [float(np.nextafter(t, t + s)) if r.random() < 0.3 else t + s * r.choice([1e-9, 1e-6]) / k for t in e]


def scenarios(ctx):
    r = ctx.rng
    out = []
    cs = ctx.cases("FrameBins", CFG % ctx.n(16, 100), workers=6)
    for rep in range(ctx.n(1, 4)):
        for n, c in enumerate(cs):
            ts = times(r, c["k"], c["where"])
            if c["where"] == "middle" and rep % 2 == 0:
                ts = ts[::2]  # some frames stay blank
            out.append(case(r, "grid-%d-%d-%s" % (rep, c["k"], c["where"]), c["k"], ts, intersect=True))
    for n in range(ctx.n(8, 60)):  # long scans
        k = r.choice([256, 300, 1000, 3601, 65537])
        for where in ("edge", "near", "middle"):
            ts = [x for i in r.sample(range(k), 12) for x in ([(i + 1) / k] if where == "edge" else [(i + r.random()) / k] if where == "middle" else [float(np.nextafter(i / k, 2.0)), float(np.nextafter((i + 1) / k, 0.0))])]
            out.append(case(r, "long-%d-%d-%s" % (n, k, where), k, ts, intersect=True))
    for n in range(ctx.n(40, 400)):
        k = r.choice([1, 2, 3, 4, 5, 7, 8, r.randint(9, 40)])
        m = r.choice([0, 1, 2, 5, 12])
        out.append(case(r, "stack-%d" % n, k, [gen.time(r) for _ in range(m)], stack=r.choice(["micro", "nano", "macro", "auto"])))
    for n in range(ctx.n(3, 30)):
        out.append(case(r, "crowd-%d" % n, r.choice([1, 5, 30]), [gen.time(r) for _ in range(r.choice([150, 400]))], stack=["micro", "nano", "auto"][n % 3]))
    for n in range(ctx.n(4, 30)):
        out.append(case(r, "long-stack-%d" % n, r.choice([130, 260, 300]), [gen.time(r) for _ in range(20)], stack=["micro", "nano", "macro", "auto"][n % 4]))
    for n in range(ctx.n(15, 200)):
        w = D.world(r, budget=30, lit=1.0, mscale=1.0)
        c = [sum(x[k] for x in w["poly"]["mesh"]["coord"]) / len(w["poly"]["mesh"]["coord"]) for k in range(3)]
        w.update(name="diffracted-%d" % n, det=D.detector(r, w["beam"], c, w["hi"], n=[r.randint(3, 9), r.randint(3, 9)]), k=r.randint(1, 9), method=r.choice(["micro", "nano", "macro", "auto"]))
        out.append(w)
    for k in (0, -3):  # less than one frame is one frame
        out.append(case(r, "clamped%d" % k, k, [0.0, 0.3, 1.0], stack="micro"))
    return out


def tetworld(r):
    """One element near the origin, all in the beam."""
    return dict(mesh=dict(coord=gen.tet(r, 1.0, 0.1), enod=[[0, 1, 2, 3]]), motion=gen.motion(r, 0.3), beam=dict(verts=[[x, y, z] for x in (-9.0, 9.0) for y in (-9.0, 9.0) for z in (-9.0, 9.0)],
                dir=[1.0, 0.0, 0.0], lam=0.5, pol=[0.0, 1.0, 0.0]))


def case(r, name, k, ts, intersect=False, stack=None):
    d = T.place(r, 100.0, 30.0, 24.0, 0.2)
    d["n_pixels"] = [10, 8]
    d["gaussian_sigma"] = r.choice([0.3, 1.0])
    rows = []
    for i, t in enumerate(ts):
        src = gen.vec(r, 0.3)
        rows.append(T.row(r, i, kout=T.aimed(d, src, r.uniform(0.05, 0.95), r.uniform(0.05, 0.95), 0.1), src=src, diffraction_times=t,
                          volumes=r.choice([1e-4, 0.5, 500.0]) if stack == "auto" else 0.5, scherrer_fwhm=r.choice([1e-6, 0.05])))
    r.shuffle(rows)
    for i, x in enumerate(rows):
        x[24] = float(i)
    return dict(name=name, det=d, rows=rows, k=k, intersect=intersect, stack=stack, world=tetworld(r), dtype=r.choice([None, "float32", "float64"]))


def run(scn, rec):
    d = scn["det"]
    det = rec.must(W.detector, d)
    if "rows" in scn:
        if scn["intersect"]:
            T.intersect(rec, det, d, scn["rows"], scn["k"])
            return
        w = scn["world"]
        pd = T.peaks_dict(scn["rows"], w)
        W.seed(7)
        img, out = T.render(rec, det, d, pd, scn["k"], scn["stack"], scn["dtype"], world=w)
        # every frame alone, as an image of one frame of its peaks
        fr = [int(x) for x in R.tonp(out["peaks"])[:, 28]]
        frames(rec, det, d, pd, out, img, scn, fr)
    else:
        pc = rec.must(W.polycrystal, scn["poly"])
        pd = W.diffract(rec, pc, scn["beam"], scn["motion"], scn["lo"], scn["hi"], emit=False)
        w = dict(mesh=scn["poly"]["mesh"], motion=scn["motion"], beam=scn["beam"])
        img, out = T.render(rec, det, d, pd, scn["k"], scn["method"], world=w)
        if len(R.tonp(out["peaks"])) < 60:
            frames(rec, det, d, pd, out, img, dict(scn, stack=scn["method"]), [int(x) for x in R.tonp(out["peaks"])[:, 28]])


def frames(rec, det, d, pd, out, img, scn, fr):
    if scn["stack"] in ("macro", "auto"):
        return
    P = R.tonp(out["peaks"])
    one = []
    for f in range(max(scn["k"], 1)):
        sub = [i for i in range(len(P)) if fr[i] == f]
        q = dict(pd)
        q["peaks"] = out["peaks"][sub]
        q["columns"] = list(out["columns"])
        one.append(T.render(rec, det, d, q, 1, scn["stack"], scn.get("dtype"), emit=False)[0])
    a = np.concatenate([R.tonp(x) for x in one]).astype(float) if one else np.zeros(R.tonp(img).shape)
    tot = float((P[:, 29] * P[:, 21]).sum()) or 1.0
    rec.ev("render_parts", what="frame by frame", whole=R.flt(img), parts=[dict(img=R.flt(a), idx=list(range(len(P))))], n=len(P), total=R.num(tot), tol="1e-4" if scn.get("dtype") == "float32" else "1e-9")
