import math
from harness import gen, rec as R, world as W
from harness.props import detworld as T, diffworld as D
from harness.props.detworld import COLUMNS

CFG = "SPECIFICATION Spec\nCONSTANTS Emit = TRUE\nMore = %s\nCHECK_DEADLOCK FALSE\nINVARIANTS SidesAdd FourAdd Commute OnSide Again ShadowAdds\n"
ASSUMPTIONS = ["volumes are those of the beam with faces moved by at most 4e-6 of its reach", "the centre of a shadow wider than six pixels is right to three quarters of a pixel and its spread to 10% (more for those of few pixels)",
               "the images of crystals of a pixel or two are drawn from random points: only their totals and places are judged"]
BIG = 50.0


def box(o, s):
    return [[o[0] + a * s[0], o[1] + b * s[1], o[2] + c * s[2]] for a in (-1, 1) for b in (-1, 1) for c in (-1, 1)]


def half(n, o, depth=BIG):
    """A box that ends at the plane n.x = o."""
    l = math.sqrt(sum(x * x for x in n))
    u = [x / l for x in n]
    w = [1.0, 0, 0] if abs(u[0]) < 0.6 else [0, 1.0, 0]
    a = gen.cross(u, w)
    l2 = math.sqrt(sum(x * x for x in a))
    a = [x / l2 for x in a]
    b = gen.cross(u, a)
    h = o / l
    return [[(h if s > 0 else h - depth) * u[i] + depth * (p * a[i] + q * b[i]) for i in range(3)] for s in (-1, 1) for p in (-1, 1) for q in (-1, 1)]


def scenarios(ctx):
    r = ctx.rng
    out = []
    cs = ctx.cases("TetClip", CFG % ("FALSE" if ctx.quick else "TRUE"), workers=6)
    seen = set()
    r.shuffle(cs)
    for c in cs:  # one cut by a face of the beam, in all ways; the second plane is the model's only
        key = (tuple(c["n"]), c["o"])
        if key in seen:
            continue
        seen.add(key)
        tet = [[0.0, 0, 0], [2.0, 0, 0], [0.0, 2, 0], [0.0, 0, 2.0]]
        out.append(case(r, "cut-%s-%d" % ("".join(map(str, c["n"])), c["o"]), [tet], half(c["n"], c["o"] / 4), still=True, n=r.choice([20, 30])))
    for k in range(ctx.n(60, 1200)):
        m = r.choice([1, 1, 1, 2, 3])
        tets = [[[x + o for x, o in zip(p, off)] for p in gen.tet(r, 1.0, 0.05)] for off in [gen.vec(r, 1.5) for _ in range(m)]]
        z = r.random()
        co = [p for t in tets for p in t]
        c = [sum(p[i] for p in co) / len(co) for i in range(3)]
        if z < 0.3:
            b = box(c, [20.0] * 3)
        elif z < 0.6:
            b = gen.polyhedron(r, r.choice([0.3, 1.0, 2.0]), r.choice(co))
        elif z < 0.8:
            b = gen.polyhedron(r, r.choice([1.0, 3.0]), [x + o for x, o in zip(c, gen.vec(r, 1.0))])
        elif z < 0.9:
            b = gen.polyhedron(r, 1.0, [x + 30 for x in c])
        else:
            b = half(gen.unit(r), r.uniform(-1, 1))
        out.append(case(r, "random-%d" % k, tets, b, n=r.choice([3, 12, 25, 40])))
    for k in range(ctx.n(10, 100)):  # large shadows, along faces and edges and across
        tet = [[0.0, 0, 0], [2.0, 0, 0], [0.0, 2, 0], [0.0, 0, 2.0]]
        b = box([0, 0, 0], [20.0] * 3) if k % 2 else half([1, 1, 1], r.uniform(0.6, 1.6)) if k % 4 else half(gen.unit(r), r.uniform(0.3, 1.0))
        w = case(r, "profile-%d" % k, [tet], b, still=True, n=r.choice([30, 40]))
        i, s = k % 3, r.choice([-1.0, 1.0])
        kd = [0.0, 0.0, 0.0]
        kd[i] = s
        if k % 5 == 4:
            kd = gen.unit(r)
        # a detector across that direction, with edges along the axes
        z, y = [[0.0] * 3, [0.0] * 3]
        z[(i + 1) % 3] = r.choice([-1.0, 1.0])
        y[(i + 2) % 3] = r.choice([-1.0, 1.0])
        if r.random() < 0.5:
            z, y = y, z
        zl, yl = r.uniform(3.0, 4.5), r.uniform(3.0, 4.5)
        if k % 5 == 4:
            w["det"].update(T.place(r, r.choice([40.0, 400.0]), zl, yl, r.choice([0.0, 0.4]), d=kd))
        else:
            mid = [0.5 + 40.0 * c if c else 0.5 + r.uniform(-0.2, 0.2) for c in kd]
            c0 = [m - zl / 2 * a - yl / 2 * c for m, a, c in zip(mid, z, y)]
            w["det"].update(c0=c0, c1=[a + yl * c for a, c in zip(c0, y)], c2=[a + zl * c for a, c in zip(c0, z)])
        n = r.choice([40, 50, 60])
        w["det"].update(n_pixels=[n, r.choice([n, 40])], gaussian_sigma=r.choice([0.05, 0.01, 0.05]), max_gaussian_kernel_radius=1)
        x = T.row(r, 0, kout=[12.0 * c for c in kd] if k % 5 != 4 else T.aimed(w["det"], [0.5, 0.5, 0.5], 0.5, 0.5), src=[0.5, 0.5, 0.5], grain_index=0, diffraction_times=0.0)
        w.update(rows=[x], k=1)
        out.append(w)
    for k in range(ctx.n(12, 150)):  # with and without point spread
        tet = [[x for x in p] for p in gen.tet(r, 1.0, 0.05)]
        w = case(r, "spread-%d" % k, [tet], box([0, 0, 0], [20.0] * 3), n=r.choice([14, 20]))
        w["det"].update(gaussian_sigma=r.choice([0.4, 0.8, 1.0, 1.7]), max_gaussian_kernel_radius=r.choice([1, 2, 3, 5]), kernel_threshold=r.choice([0.02, 0.1, 0.001]))
        w["psf"] = "macro"
        if k % 3 == 2:
            z, y, zl, yl, nn = T.basis(w["det"])
            dist = abs(sum(a * b for a, b in zip(w["det"]["c0"], nn)))
            for x in w["rows"]:
                x[23] = zl / w["det"]["n_pixels"][0] * r.uniform(2.5, 4.0) * w["det"]["gaussian_sigma"] / dist
            w["psf"] = "nano"
        out.append(w)
    for k in range(ctx.n(2, 20)):  # many crystals
        tets = [[[x + o for x, o in zip(p, off)] for p in gen.tet(r, 0.6, 0.05)] for off in [gen.vec(r, 1.5) for _ in range(30)]]
        w = case(r, "crowd-%d" % k, tets, box([0, 0, 0], [20.0] * 3) if k % 2 else half(gen.unit(r), r.uniform(-1, 1)), n=r.choice([12, 25]))
        while len(w["rows"]) < 60:
            w["rows"] += case(r, "", tets, [], n=5)["rows"]
        for x in w["rows"]:  # their sources do not matter
            s = x[16:19]
            x[13:16] = T.aimed(w["det"], s, r.uniform(0.3, 0.7), r.uniform(0.3, 0.7))
        for i, x in enumerate(w["rows"]):
            x[24] = float(i)
        w.update(k=r.choice([1, 4]), alone=False)
        out.append(w)
    for k in range(ctx.n(25, 400)):
        w = D.world(r, budget=15, lit=0.5, mscale=1.0, spread=1.0)
        co = w["poly"]["mesh"]["coord"]
        c = [sum(x[k] for x in co) / len(co) for k in range(3)]
        w.update(name="diffracted-%d" % k, det=D.detector(r, w["beam"], c, w["hi"] * 0.5, dist=r.choice([5.0, 30.0]), n=[r.randint(2, 40), r.randint(2, 40)]), k=r.randint(1, 3))
        w["det"].update(gaussian_sigma=r.choice([0.05, 1.0]))
        out.append(w)
    for w in [w for w in out if w["name"].startswith("profile-")][:ctx.n(4, 30)]:
        k = int(w["name"].split("-")[1])
        out.append(scaled(w, [r.choice([0.01, 1e3]), 1e-4][k % 2]))
    for w in list(out):  # faint and bright
        if "rows" in w and r.random() < 0.3:
            i = COLUMNS.index("structure_factors")
            for x in w["rows"]:
                x[i] *= 10 ** r.uniform(-14, 8)
    for w in list(out):
        if "rows" in w and "psf" not in w and r.random() < 0.25:
            out.append(scaled(w, r.choice([3e-4, 0.02, 0.05, 30.0, 700.0])))
    return out


def scaled(w, s):
    """The same experiment with all lengths s times as large."""
    def m(x):
        return [m(y) for y in x] if isinstance(x, (list, tuple)) else x * s
    g = w["world"]
    mo = dict(g["motion"], tr=m(g["motion"]["tr"]))
    if mo.get("org"):
        mo["org"] = m(mo["org"])
    rows = [x[:16] + m(x[16:19]) + x[19:] for x in w["rows"]]
    det = dict(w["det"], **{c: m(w["det"][c]) for c in ("c0", "c1", "c2")})
    return dict(w, name="%s-x%g" % (w["name"], s), det=det, rows=rows, world=dict(mesh=dict(g["mesh"], coord=m(g["mesh"]["coord"])), motion=mo, beam=dict(g["beam"], verts=m(g["beam"]["verts"]))))


def case(r, name, tets, b, still=False, n=20):
    coord = [p for t in tets for p in t]
    enod = [[4 * i + j for j in range(4)] for i in range(len(tets))]
    for e in enod:
        r.shuffle(e)
    mo = dict(gen.motion(r, 0.5))
    if still:
        mo["tr"] = [0.0, 0.0, 0.0]
    size = max(math.dist(a, c) for a in coord for c in coord)
    asp = r.choice([1.0, 1.0, 0.5, 1.8])
    # the detector spans some crystals, or is coarser than one
    span = size * r.choice([2.5, 2.5, 4.0, 12.0]) if n > 5 else size * 20
    d = T.place(r, r.choice([40.0, 400.0]), span, span * r.choice([1.0, 1.3]), r.choice([0.0, 0.4]))
    d.update(n_pixels=[n, max(2, int(n * asp))], gaussian_sigma=r.choice([0.0, 0.05, 0.05, 1.0, 2.0]), max_gaussian_kernel_radius=r.choice([2, 1, 3]))
    rows = []
    for i in range(r.choice([1, 1, 2, 3])):
        g = r.randrange(len(tets))
        src = [sum(p[c] for p in tets[g]) / 4 for c in range(3)]
        t = 0.0 if still else gen.time(r)
        if t:
            import numpy as np
            a = np.array(mo["axis"])
            o = np.array(mo["org"] or [0.0, 0, 0])
            th = mo["ang"] * t
            x = np.array(src) - o
            x = x * math.cos(th) + np.cross(a, x) * math.sin(th) + a * (a @ x) * (1 - math.cos(th))
            src = (x + o + t * np.array(mo["tr"])).tolist()
        f = [r.uniform(0.35, 0.65), r.uniform(0.35, 0.65)] if r.random() < 0.7 else [r.uniform(0, 1), r.uniform(0, 1)] if r.random() < 0.5 else [r.choice([0.02, 0.98]), r.random()]
        rows.append(T.row(r, i, kout=T.aimed(d, src, *f, scale=r.choice([1.0, 0.02])), src=src, grain_index=g, diffraction_times=t))
    return dict(name=name, det=d, rows=rows, k=r.choice([1, 1, 1, 3]), world=dict(mesh=dict(coord=coord, enod=enod), motion=mo, beam=dict(verts=b, dir=[1.0, 0.0, 0.0], lam=0.5, pol=[0.0, 1.0, 0.0])),
                dtype=r.choice([None, None, None, "float32"]), seed=r.randrange(1000))


def run(scn, rec):
    d = scn["det"]
    det = rec.must(W.detector, d)
    W.seed(scn.get("seed", 1))
    if scn.get("psf"):
        imgs = []
        for q in (dict(d, gaussian_sigma=0.0), d):
            W.seed(scn["seed"])
            imgs.append(T.render(rec, rec.must(W.detector, q), q, T.peaks_dict(scn["rows"], scn["world"]), 1, scn["psf"], emit=False)[0][0])
        rec.ev("psf", a=R.flt(imgs[0]), b=R.flt(imgs[1]), **T.fields(d))
    elif "rows" in scn:
        T.render(rec, det, d, T.peaks_dict(scn["rows"], scn["world"]), scn["k"], "macro", scn["dtype"], world=scn["world"])
        P = [x for x in scn["rows"]]
        if len(P) > 1 and scn.get("alone", True):  # one by one
            for x in P:
                T.render(rec, det, d, T.peaks_dict([x], scn["world"]), 1, "macro", scn["dtype"], world=scn["world"])
    else:
        pc = rec.must(W.polycrystal, scn["poly"])
        pd = W.diffract(rec, pc, scn["beam"], scn["motion"], scn["lo"], scn["hi"], emit=False)
        T.render(rec, det, d, pd, scn["k"], "macro", world=dict(mesh=scn["poly"]["mesh"], motion=scn["motion"], beam=scn["beam"]))
