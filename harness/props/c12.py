import math
import numpy as np
from harness import gen, rec as R, world as W
from harness.props import detworld as T

CFG = "SPECIFICATION Spec\nCONSTANTS Emit = TRUE\nN = %d\nK = 2\nCHECK_DEADLOCK FALSE\nINVARIANTS Once OwnFrame Finished\nPROPERTY Ends\n"
ASSUMPTIONS = ["the spot of a small crystal is the documented Gaussian with variance 0.7^2 + gaussian_sigma^2 pixels, cut at about three widths",
               "the spot of a nano crystal may lack the configured kernel_threshold of its intensity", "samples are small compared to the distance of the detector"]
MEM = [1e-12, 3e-5, 1e-4, 1e-3]


def scenarios(ctx):
    r = ctx.rng
    out = []
    n = ctx.n(3, 4)
    cs = ctx.cases("Batches", CFG % n, workers=6)
    r.shuffle(cs)
    for k, c in enumerate(cs[:ctx.n(60, 1200)]):
        meth = r.choice(["nano", "nano", "nano", "micro"])
        d = det(r, 24, meth)
        out.append(dict(name="batch-%d" % k, what="batch", det=d, rows=[spot(r, d, meth, i, fr=(c["frame"][i], 2)) for i in range(n)], order=[p - 1 for p in c["order"]],
                        mem=MEM[c["cap"] - 1], grow=c["grow"], k=2, method=meth, dtype=r.choice([None, None, "float32"])))
    for k in range(ctx.n(4, 60)):  # rectangular pixels show an elongated spot
        d = det(r, 160, "broad")
        d["gaussian_sigma"] = r.choice([0.3, 0.7])
        d.pop("n_pixels", None)
        a = r.choice([0.55, 1.8])
        z, y, zl, yl, _ = T.basis(d)
        d["c1"] = [o + 160 * a * zl / 160 * q for o, q in zip(d["c0"], y)]
        d["pixel_size"] = [zl / 160, a * zl / 160]
        out.append(dict(name="elongated-%d" % k, what="single", det=d, rows=[spot(r, d, "nano", 0, wide=160, where="mid")], k=1, method="nano", dtype=None))
    for k in range(ctx.n(150, 1500)):
        meth = r.choice(["micro", "nano"])
        broad = meth == "nano" and r.random() < 0.5
        nz = r.choice([120, 130]) if broad else r.choice([40, 60])
        d = det(r, nz, "broad" if broad else meth)
        kk = r.choice([1, 1, 2])
        rows = [spot(r, d, meth, 0, wide=nz, where=r.choice(["in", "in", "in", "border", "any"]), fr=(0, kk))]
        out.append(dict(name="single-%s-%d" % (meth, k), what="single", det=d, rows=rows, k=kk, method=meth, dtype=r.choice([None, None, "float32"])))
    for k in range(ctx.n(30, 500)):
        meth = r.choice(["micro", "nano"])
        d = det(r, 30, meth)
        m = r.choice([0, 2, 3, 8, 20])
        rows = [spot(r, d, meth, i, where=r.choice(["in", "border", "any", "corner"]), fr=(r.randrange(3), 3)) for i in range(m)]
        if m > 2 and r.random() < 0.5:  # peaks on top of each other
            for c in list(range(13, 19)):
                rows[1][c] = rows[0][c]
        out.append(dict(name="many-%d" % k, what="split", det=d, rows=rows, k=3, method=meth, dtype=r.choice([None, "float32", "float64"]), cut=r.randint(0, m), mem=r.choice(MEM + [1.0])))
    for k in range(ctx.n(40, 500)):  # the same peaks elsewhere, brighter or fainter
        meth = ["micro", "nano"][k % 2]
        d = det(r, r.choice([34, 34, 66]), meth)
        nz, ny, pz, py = shape(d)
        rows = [spot(r, d, meth, i, where="in") for i in range(r.choice([1, 1, 3]))]
        for x in rows:  # not on the border between the pixels nearest to
            aim(r, d, x, meth)
        out.append(dict(name="moved-%d" % k, what="moved", det=d, rows=rows, k=1, method=meth, dtype=None, dz=r.randint(-4, 4), dy=r.randint(-4, 4) if ny > 12 else 0,
                        by=10.0 ** r.choice([0, 0, -12, -6, 5]), via=r.choice(["volumes", "structure_factors"])))
    for k in range(ctx.n(3, 12)):  # more peaks than are ever rendered at once
        out.append(dict(name="crowd-%d" % k, what="crowd", method="micro" if k % 2 == 0 else "nano", n=[12345, 3000, 60001, 2000][k % 4], mem=[1e4, 0.001, None, 1e-3][k % 4], seed=r.randrange(10 ** 6), det=dict(det(r, 12, "micro"), gaussian_sigma=0.4)))
    return out


def det(r, n, meth):
    asp = r.choice([1.0, 0.75, 1.4]) if meth == "broad" else r.choice([1.0, 1.0, 0.4, 3.0])
    p = r.choice([0.05, 1.0, 20.0])
    nz, ny = n, n if meth == "broad" else max(6, int(n * r.choice([1.0, 0.8, 0.5, 2.2])))
    dist = r.choice([3.0, 10.0]) * n * p
    d = T.place(r, dist, nz * p, ny * p * asp, r.choice([0.0, 0.3, 0.8]))
    d.update(gaussian_sigma=r.choice([0.0, 0.3, 0.7, 1.0, 1.0, 2.2]), kernel_threshold=r.choice([0.02, 0.02, 0.1, 0.001]), max_gaussian_kernel_radius=r.choice([2, 2, 1, 4]))
    if r.random() < 0.7:
        d["n_pixels"] = [nz, ny]
    else:
        d["pixel_size"] = [p, p * asp]
    return d


def shape(d):
    z, y, zl, yl, n = T.basis(d)
    nz, ny = d["n_pixels"] if d.get("n_pixels") else (round(zl / d["pixel_size"][0]), round(yl / d["pixel_size"][1]))
    return nz, ny, zl / nz, yl / ny


def spot(r, d, meth, i, wide=None, where="in", fr=(0, 1)):
    nz, ny, pz, py = shape(d)
    z, y, zl, yl, nrm = T.basis(d)
    f = {"mid": lambda: r.uniform(0.47, 0.53), "in": lambda: r.uniform(0.42, 0.58), "border": lambda: r.choice([r.uniform(0.0, 0.1), r.uniform(0.9, 1.0), 0.5]), "any": lambda: r.uniform(-0.05, 1.05), "corner": lambda: r.choice([1e-9, 1 - 1e-9])}[where]
    fz, fy = f(), f()
    q = r.random()
    if q < 0.3:  # on a pixel corner, half way between
        fz = (round(fz * nz * 2) / 2) / nz
        fy = (round(fy * ny * 2) / 2) / ny
    src = [x * 1e-3 * zl for x in gen.vec(r, 1.0)]
    hit = T.at(d, fz, fy)
    far = math.dist(hit, src)
    if meth == "nano":
        room = (wide or 24) / 12.0
        w = r.choice([0.01, 0.3, 1.0, r.uniform(0.2, 3), room * 0.5, room]) if wide is None or where not in ("in", "mid") else (r.uniform(6, 7) if wide > 90 else r.choice([0.1, 0.6, r.uniform(2, 3), 3.0, 4.0]))
        fwhm = w * (max(pz, py) if wide and wide > 90 else min(pz, py)) / far
    else:
        fwhm = 1e-6
    k, n = fr
    return T.row(r, i, kout=T.aimed(d, src, fz, fy, r.choice([1.0, 0.03])), src=src, scherrer_fwhm=fwhm, diffraction_times=(k + r.uniform(0.1, 0.9)) / n, volumes=r.choice([1e-9, 1e-3, 1.0, 1e4]))


def aim(r, d, x, meth):
    nz, ny, _, _ = shape(d)
    f = []
    for n in (nz, ny):
        q = r.choice([r.uniform(0.02, 0.45), r.uniform(0.55, 0.98)] + ([0.0] if meth == "nano" else []))
        f.append((r.randint(n // 2 - min(3, n // 4), n // 2 + min(3, n // 4)) + q) / n)
    x[13:16] = T.aimed(d, x[16:19], f[0], f[1], 1.0)


class Memory:
    """Little free memory, possibly more later."""

    def __init__(self, mem, grow=False):
        self.mem, self.grow = mem, grow

    def __enter__(self):
        import xrd_simulator.detector as m
        self.m, self.old = m, getattr(m, "return_device_memory", None)
        if self.old is not None and self.mem is not None:
            def fake(*a, **k):
                v = dict(self.old(*a, **k))
                v["free_gb"] = self.mem
                if self.grow:
                    self.mem *= 3
                return v
            m.return_device_memory = fake

    def __exit__(self, *a):
        if self.old is not None:
            self.m.return_device_memory = self.old


def run(scn, rec):
    d = scn["det"]
    det_ = rec.must(W.detector, d)
    if scn["what"] == "crowd":
        return crowd(scn, rec, det_)
    k, meth, dt = scn["k"], scn["method"], scn.get("dtype")
    rows = scn["rows"]
    if scn["what"] == "single":
        T.render(rec, det_, d, T.peaks_dict(rows), k, meth, dt)
        return
    if scn["what"] == "moved":
        nz, ny, pz, py = shape(d)
        z, y = T.basis(d)[:2]
        there = [list(x) for x in rows]
        for x in there:
            x[16:19] = [a + scn["dz"] * pz * b + scn["dy"] * py * c for a, b, c in zip(x[16:19], z, y)]
            x[T.COLUMNS.index(scn["via"])] *= scn["by"]
        a, _ = T.render(rec, det_, d, T.peaks_dict(rows), k, meth, dt, emit=False)
        b, _ = T.render(rec, det_, d, T.peaks_dict(there), k, meth, dt, emit=False)
        rec.ev("render_moved", what="(%s)" % meth, a=R.flt(a[0]), b=R.flt(b[0]), dz=scn["dz"], dy=scn["dy"], by=R.num(scn["by"]), pad=d["max_gaussian_kernel_radius"] + 1, tol="1e-4")
        return
    if scn["what"] == "batch":
        rows = [rows[i] for i in scn["order"]]
    with Memory(scn.get("mem"), scn.get("grow", False)):
        img, out = T.render(rec, det_, d, T.peaks_dict(rows), k, meth, dt)
    P = R.tonp(out["peaks"])
    seen = [int(x) for x in P[:, 24]]
    tot = float((P[:, 29] * P[:, 21]).sum()) or 1.0
    if scn["what"] == "batch":
        groups = [[i] for i in range(len(rows))]
    else:
        groups = [list(range(scn["cut"])), list(range(scn["cut"], len(rows)))]
    parts = []
    for g in groups:
        one, o = T.render(rec, det_, d, T.peaks_dict([scn["rows"][i] for i in g]), k, meth, dt, emit=False)
        parts.append(dict(img=R.flt(one), idx=[int(x) for x in R.tonp(o["peaks"])[:, 24]]))
    rec.ev("render_parts", what="in any order and batches", whole=R.flt(img), parts=parts, n=len(seen), total=R.num(tot), tol="1e-5" if dt == "float32" else "1e-9")


def crowd(scn, rec, det_):
    import random
    r = random.Random(scn["seed"])
    d = scn["det"]
    base = [spot(r, d, scn["method"], 0, where="any", wide=12) for _ in range(50)]
    rows = []
    for i in range(scn["n"]):
        x = list(base[i % 50])
        x[24] = float(i)
        x[21] = r.uniform(0.5, 2)
        rows.append(x)
    cut = r.choice([5000, 9999, 10000, 7]) if scn["n"] > 10000 else 1500
    with Memory(scn["mem"]):
        img, out = T.render(rec, det_, d, T.peaks_dict(rows), 2, scn["method"], emit=False)
    P = R.tonp(out["peaks"])
    parts = []
    for g in (rows[:cut], rows[cut:]):
        one, o = T.render(rec, det_, d, T.peaks_dict(g), 2, scn["method"], emit=False)
        parts.append(dict(img=R.flt(one), idx=len(o["peaks"])))
    # the rows themselves are not recorded, only how many there are
    n0 = parts[0]["idx"]
    parts[0]["idx"] = list(range(n0))
    parts[1]["idx"] = list(range(n0, n0 + parts[1]["idx"]))
    rec.ev("render_parts", what="of thousands", whole=R.flt(img), parts=parts, n=len(P), total=R.num(float((P[:, 29] * P[:, 21]).sum())), tol="1e-9")
