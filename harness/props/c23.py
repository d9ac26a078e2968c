import math
from harness import gen, rec as R, world as W
from harness.props import detworld as T

CFG = "SPECIFICATION Spec\nCONSTANTS Emit = TRUE\nMaxPeaks = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Total Monotone OnLimit Default Parts\n"
ASSUMPTIONS = ["limits given in the wrong order: crystals above the macro limit are projected", "volumes within rounding of the default limit may fall on either side"]
TET = [[0.0, 0, 0], [1.0, 0.1, 0], [0.2, 1.0, 0.1], [0.1, 0.2, 1.0]]


def limits(r, kind, pz, py):
    p3 = min(pz, py) ** 3
    return dict(default=(None, None), apart=(p3 * 2, p3 / 50), equal=(p3, p3), crossed=(p3 / 10, p3 * 3), nomacro=(1e20, p3), nonano=(p3, 0.0))[kind]


def scenarios(ctx):
    r = ctx.rng
    out = []
    cs = ctx.cases("SizeClasses", CFG % ctx.n(2, 3), workers=6)
    r.shuffle(cs)
    for k, c in enumerate(cs[:ctx.n(150, 1500)]):
        out.append(mixture(r, "mixture-%d" % k, list(c["peaks"]), c["limits"], 8, 1))
    for k in range(ctx.n(40, 600)):
        m = r.choice([3, 4, 6])
        if k % 20 == 19:
            m = 40
        ws = [r.choice(["tiny", "micro-", "micro+", "macro-", "macro+", "huge", "any"]) for _ in range(m)]
        out.append(mixture(r, "frames-%d" % k, ws, r.choice(["default", "apart", "crossed", "nonano"]), 8, r.choice([0, 1, 2, 3])))
    for k in range(ctx.n(40, 500)):  # type and shape, also of nothing
        m = r.choice([0, 0, 1, 3])
        s = mixture(r, "kind-%d" % k, [r.choice(["tiny", "macro-", "huge"]) for _ in range(m)], r.choice(["default", "apart"]), r.choice([6, 9]), r.choice([0, 1, 2, 5]))
        s["methods"] = ["auto", "micro", "nano", "macro"]
        out.append(s)
    return out


def mixture(r, name, where, lim, n, k):
    p = r.choice([0.05, 0.2, 0.5, 20.0])
    asp = r.choice([1.0, 1.5, 0.7])
    # the crystal covers some pixels, whatever volume its peaks report
    size = p * 6 * max(asp, 1)
    d = T.place(r, 30 * n * p, n * p, n * p * asp, r.choice([0.0, 0.3]))
    d.update(n_pixels=[n, n], gaussian_sigma=r.choice([0.3, 1.0]))
    z, y, zl, yl, _ = T.basis(d)
    pz, py = zl / n, yl / n
    ma, mi = limits(r, lim, pz, py)
    a = min(pz, py) ** 3 if ma is None else ma
    i = 0.1 ** 3 if mi is None else mi
    rows = []
    for j, w in enumerate(where):
        v = {"tiny": 1e-9 * min(a, i or a), "huge": 1e3 * max(a if a < 1e19 else i, i), "any": math.exp(r.uniform(math.log(1e-7), math.log(1e3)))}.get(w)
        if v is None:
            b = i if w.startswith("micro") else a
            v = b * {"-": 1 - 1e-10, "=": 1.0, "+": 1 + 1e-10}[w[-1]]
            if b == 0.0:
                v = 1e-7
        off = [r.uniform(-1, 1) * size * 0.1 for _ in range(3)]
        src = [sum(q[c] for q in TET) / 4 * size + 0 for c in range(3)]
        # keep some of the peaks at the border
        f = [r.uniform(0.3, 0.7), r.uniform(0.3, 0.7)] if r.random() < 0.8 else [r.random(), r.random()]
        rows.append(T.row(r, j, kout=T.aimed(d, src, *f), src=src, grain_index=j, volumes=v, scherrer_fwhm=pz * r.choice([0.2, 1.0, 2.0]) / (30 * n * p), diffraction_times=r.random()))
    mesh = dict(coord=[[size * x for x in q] for _ in range(max(1, len(where))) for q in TET], enod=[[4 * e + v for v in range(4)] for e in range(max(1, len(where)))])
    world = dict(mesh=mesh, motion=dict(axis=[0.0, 0, 1.0], ang=0.01, tr=[0.0, 0, 0], org=None),
                 beam=dict(verts=[[size * 50 * a2, size * 50 * b, size * 50 * c] for a2 in (-1, 1) for b in (-1, 1) for c in (-1, 1)], dir=[1.0, 0, 0], lam=0.5, pol=[0.0, 1.0, 0.0]))
    return dict(name=name, det=d, rows=rows, macro=ma, micro=mi, k=k, dtype=r.choice([None, None, "float32", "float64"]), world=world)


def run(scn, rec):
    d = scn["det"]
    det = rec.must(W.detector, d)
    if scn.get("methods"):
        for m in scn["methods"]:
            W.seed(3)
            T.render(rec, det, d, T.peaks_dict(scn["rows"], scn["world"]), scn["k"], m, scn["dtype"], macro=scn["macro"] if m == "auto" else None, micro=scn["micro"] if m == "auto" else None, world=scn["world"])
        return

    def img(rows, m, **k):
        W.seed(3)
        return R.flt(T.render(rec, det, d, T.peaks_dict(rows, scn["world"]), scn["k"], m, scn["dtype"], emit=False, **k)[0])
    whole = img(scn["rows"], "auto", macro=scn["macro"], micro=scn["micro"])
    rec.ev("auto", whole=whole, k=max(scn["k"], 1), macro="inf" if scn["macro"] is None else R.num(scn["macro"]), micro=R.num(0.1 ** 3 if scn["micro"] is None else scn["micro"]),
           vols=[R.num(x[21]) for x in scn["rows"]], one=[{m: img([x], m) for m in ("nano", "micro", "macro")} for x in scn["rows"]], tol="1e-9" if scn["dtype"] != "float32" else "1e-4", **T.fields(d))
