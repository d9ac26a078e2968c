"""Random diffraction experiments, shared by the diffraction checks."""
import math
from harness import gen, rec as R, world as W


def bragg(r, phases, lam, budget):
    """A largest Bragg angle such that no phase has more than about budget reflections."""
    stl = min((budget / (4 / 3 * math.pi * 8 * p["cell"][0] * p["cell"][1] * p["cell"][2])) ** (1 / 3) for p in phases)
    return min(math.asin(min(1.0, stl * lam)), 89 * math.pi / 180)


def world(r, budget=120, lit=0.6, mscale=None, **k):
    d = gen.poly(r, **k)
    lam = round(r.uniform(0.25, 1.3), 4)
    co = d["mesh"]["coord"]
    if r.random() < lit:  # everything in the beam at first
        c = [sum(x[k] for x in co) / len(co) for k in range(3)]
        size = 2.5 * max(math.dist(c, x) for x in co) + 1
    else:
        c = co[r.randrange(len(co))]
        size = r.choice([1.0, 3.0])
    b = gen.beam(r, size, c, lam)
    hi = bragg(r, d["phases"], lam, budget)
    lo = r.choice([0.0, 0.0, hi * r.uniform(0.2, 0.8)])
    m = gen.motion(r, r.choice([0.0, 1.0, 3.0]) if mscale is None else mscale)
    return dict(poly=d, beam=b, motion=m, lo=lo, hi=hi)


def rich(r, budget=30, **k):
    """An experiment in which there is certainly something to see: enough turning, reflections and light."""
    w = world(r, budget=budget, lit=1.0, mscale=1.0, **k)
    w["motion"]["ang"] = r.uniform(0.8, 3.1)
    w["motion"]["tr"] = [0.3 * x for x in w["motion"]["tr"]]
    return w


def large(r, k):
    """Many elements or many reflections."""
    n, b = [(300, 15), (2, 1500), (40, 120), (140, 30), (20, 300), (600, 4)][k % 6]
    w = rich(r, budget=b, n=n, spread=1.0, groups=["P1", "P-1", "P21", "Pm-3m", "P213"])
    w["lo"] = 0.0
    if r.random() < 0.3:  # some of them out of the beam
        w["beam"]["verts"] = gen.polyhedron(r, 2.0, r.choice(w["poly"]["mesh"]["coord"]))
    return w


def detector(r, beam, centre, hi, dist=None, n=None, square=False, wide=False):
    """A detector roughly across the beam, tilted, possibly seen from behind."""
    d = math.sqrt(sum(x * x for x in beam["dir"]))
    k = [x / d for x in beam["dir"]]
    dist = dist or r.choice([50.0, 200.0, 1000.0])
    y = gen.cross(k, gen.unit(r))
    ny = math.sqrt(sum(x * x for x in y))
    y = [x / ny for x in y]
    z = gen.cross(k, y)
    if r.random() < 0.5:  # tilt
        R_ = gen.rotation(r)
        f = r.uniform(0.05, 0.3)
        y = [a + f * b for a, b in zip(y, gen.mv(R_, y))]
        w = [a + f * b for a, b in zip(z, gen.mv(R_, z))]
        ny = math.sqrt(sum(x * x for x in y))
        y = [x / ny for x in y]
        p = sum(a * b for a, b in zip(w, y))
        w = [a - p * b for a, b in zip(w, y)]
        nz = math.sqrt(sum(x * x for x in w))
        z = [x / nz for x in w]
    if r.random() < 0.5:
        z = [-x for x in z]
    half = dist * math.tan(min(1.2, 2 * hi * (1.1 if wide else r.uniform(0.5, 1.2))))
    hy, hz = (half, half) if wide else (half * r.uniform(0.5, 1.3), half * r.uniform(0.5, 1.3))
    if square:
        hy = hz = half
    off = [0.0 if wide else r.uniform(-0.3, 0.3) * half for _ in range(2)]
    c = [o + dist * a + off[0] * u + off[1] * v for o, a, u, v in zip(centre, k, y, z)]
    c0 = [a - hy * u - hz * v for a, u, v in zip(c, y, z)]
    c1 = [a + 2 * hy * u for a, u in zip(c0, y)]
    c2 = [a + 2 * hz * u for a, u in zip(c0, z)]
    return dict(c0=c0, c1=c1, c2=c2, n_pixels=n or [r.randint(3, 30), r.randint(3, 30)])


def begin(scn, rec, kind="np"):
    pc = rec.must(W.polycrystal, scn["poly"], kind)
    rec.ev("poly_new", obs=W.poly_snap(pc), **W.poly_rec(scn["poly"]))
    return pc


def transform(rec, pc, md, t, kind="np"):
    rec.must(pc.transform, rec.must(W.motion, md, kind), t)
    rec.ev("poly_transform", motion=W.motion_rec(md), t=R.num(t), obs=W.poly_snap(pc))
