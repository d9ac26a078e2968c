import itertools, math
from harness import gen, rec as R, world as W
from harness.props import detworld as T, diffworld as D

CFG = "SPECIFICATION Spec\nCONSTANT Emit = TRUE\nCHECK_DEADLOCK FALSE\nINVARIANTS HitsAim Forward InsideIffBetween Shifted Swapped\n"
ASSUMPTIONS = ["a ray that meets the edge of the detector to within rounding may be kept or dropped", "rays within 1e-9 of grazing may be kept or dropped"]
PLACES = dict(front=[[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]], turned=[[0.6, -0.8, 0], [0.8, 0.6, 0], [0, 0, 1.0]],
              tilted=[[1 / 3, 2 / 3, 2 / 3], [2 / 3, 1 / 3, -2 / 3], [-2 / 3, 2 / 3, -1 / 3]], behind=[[-1.0, 0, 0], [0, -1.0, 0], [0, 0, 1.0]])
SRC = dict(origin=[0.0, 0.0, 0.0], near=[0.5, -1 / 3, 0.2], far=[-20.0, 7.0, 5.0])


def scenarios(ctx):
    r = ctx.rng
    out = []
    cs = ctx.cases("DetHits", CFG, workers=6)
    cs.sort(key=lambda c: (c["place"], c["flip"], c["shape"]))
    for rep in range(ctx.n(1, 3)):
        for (pl, fl, sh), g in itertools.groupby(cs, key=lambda c: (c["place"], c["flip"], c["shape"])):
            M, g = PLACES[pl], list(g)
            zl, yl = (40.0 if sh == "square" else 16.0), 40.0
            c0 = gen.mv(M, [100.0, -15.0, -12.0])
            c1, c2 = gen.mv(M, [100.0, yl - 15, -12.0]), gen.mv(M, [100.0, -15.0, zl - 12])
            d = dict(c0=c0, c1=c2 if fl else c1, c2=c1 if fl else c2, n_pixels=[r.randint(1, 9), r.randint(1, 9)])
            rays = [[T.aimed(d, SRC[c["src"]], c["a"] / 1000, c["b"] / 1000, r.choice([1.0, 0.01, 30.0]) * (1 if c["way"] == "forward" else -1)), SRC[c["src"]]] for c in g]
            r.shuffle(rays)
            if ctx.quick:
                rays = rays[::2]
            for n in range(0, len(rays), 81):
                out.append(case(r, "grid-%d-%s-%s-%s-%d" % (rep, pl, fl, sh, n), d, rays[n:n + 81]))
    for n in range(ctx.n(60, 1500)):
        zl, yl = r.choice([0.02, 1.0, 40.0, 2000.0]) * r.uniform(0.5, 2), r.choice([0.02, 1.0, 40.0, 2000.0]) * r.uniform(0.5, 2)
        dist = r.choice([0.3, 5.0, 1e4, 1e6])
        d = T.place(r, dist, zl, yl, r.choice([0.0, 0.5, 1.5]))
        d["n_pixels"] = r.randint(1, 5)
        z, y, _, _, nrm = T.basis(d)
        rays = []
        for _ in range(r.choice([1, 1, 2, 30])):
            src = gen.vec(r, r.choice([0.0, 1.0, dist]))
            q = r.random()
            if q < 0.7:
                f = [r.choice([r.uniform(-0.3, 1.3), r.random(), -1e-6, 1 + 1e-6, 1 - 1e-6, 1e-6, -1e-8, 1e-8, 1 + 1e-8, 1 - 1e-8]) for _ in range(2)]
                v = T.aimed(d, src, *f, scale=r.choice([1, 1, 1, -1]) * r.choice([1e-4, 1.0]))
            elif q < 0.85:  # straight along the normal
                s = r.choice([-1, 1]) * r.choice([1.0, 7.3, 12.56])
                v = [s * x for x in nrm]
                src = [a - s * 3 * b for a, b in zip(T.at(d, r.random(), r.random()), nrm)]
            else:
                v = gen.unit(r)
            rays.append([v, src])
        out.append(case(r, "random-%d" % n, d, rays))
    for n in range(ctx.n(25, 300)):  # what diffraction reports
        w = D.world(r, budget=40, lit=1.0, mscale=1.0)
        c = [sum(x[k] for x in w["poly"]["mesh"]["coord"]) / len(w["poly"]["mesh"]["coord"]) for k in range(3)]
        w.update(name="diffracted-%d" % n, det=D.detector(r, w["beam"], c, w["hi"]), k=r.choice([1, 1, 3, 7]))
        out.append(w)
    for n in range(ctx.n(3, 20)):  # many peaks
        d = T.place(r, 50.0, 30.0, 20.0, 0.5)
        d["n_pixels"] = r.randint(1, 5)
        out.append(case(r, "many-%d" % n, d, [[T.aimed(d, s, r.uniform(-0.2, 1.2), r.uniform(-0.2, 1.2), r.choice([1.0, 1.0, 1.0, -1.0])), s] for s in [gen.vec(r, 2.0) for _ in range(r.choice([400, 1500]))]]))
    out.append(case(r, "none", d, []))
    return out


def case(r, name, d, rays):
    rows = [T.row(r, i, kout=v, src=s, grain_index=r.randrange(9)) for i, (v, s) in enumerate(rays)]
    return dict(name=name, det=d, rows=rows, k=r.choice([1, 1, 4]), kind=r.choice(["np", "torch"]))


def run(scn, rec):
    d = scn["det"]
    det = rec.must(W.detector, d, scn.get("kind", "np"))
    if "rows" in scn:
        T.intersect(rec, det, d, scn["rows"], scn["k"])
    else:
        pc = rec.must(W.polycrystal, scn["poly"])
        pd = W.diffract(rec, pc, scn["beam"], scn["motion"], scn["lo"], scn["hi"], emit=False)
        out = T.intersect(rec, det, d, None, scn["k"], pd)
        T.intersect(rec, det, d, None, scn["k"] + 1, out)  # what was intersected before may be intersected again
