import math
from harness import gen, rec as R, world as W
from harness.props import diffworld as D

ASSUMPTIONS = ["experiments are sampled", "Lorentz factors within 1e-7 degrees of the half-degree tolerance may be finite or infinite"]


def scenarios(ctx):
    r = ctx.rng
    out = []
    for k in range(ctx.n(90, 2000)):
        w = D.world(r, budget=r.choice([10, 60, 120]), lit=0.85, size=r.choice([1.0, 1.0, 0.01, 30.0, 0.0003]))
        if r.random() < 0.35:
            for p in w["poly"]["phases"]:
                c = r.random()
                if c < 0.4:
                    p["atoms"] = gen.atoms(r, sg=p["sg"])
                elif c < 0.8:  # reflections without intensity among the allowed ones
                    p["atoms"] = [dict(type="Si", pos=[0.0, 0.0, 0.0], occ=1.0, adp="iso", u=0.01), dict(type="Si", pos=[0.5, 0.5, 0.5], occ=1.0, adp="iso", u=0.01)]
            w["hi"] = D.bragg(r, w["poly"]["phases"], w["beam"]["lam"], 40)
            w["lo"] = 0.0
        w["name"] = "world-%d" % k
        w["pre"] = [dict(motion=gen.motion(r, 2.0), t=gen.time(r)) for _ in range(r.choice([0, 0, 1, 2]))]
        w["kind"] = r.choice(["np", "np", "torch"])
        out.append(w)
    for k in range(ctx.n(5, 30)):  # many elements or reflections
        w = D.large(r, k)
        w.update(name="large-%d" % k, pre=[], kind="np")
        out.append(w)
    for k in range(ctx.n(150, 1000)):
        out.append(dict(straight_back(r), name="back-%d" % k))
    return out


def straight_back(r):
    """A crystal whose reflection h00 (or a multiple of it) goes exactly back along the beam at the start of the scan."""
    w = D.world(r, budget=10, lit=1.0, mscale=0.0, n=1, phases=1)
    a = round(r.uniform(2.0, 5.0), 3)
    h = r.choice([1, 1, 1, 1, 1, 2])
    U = gen.rotation(r)
    k = [-x for x in (U[0][0], U[1][0], U[2][0])]
    w["poly"].update(phases=[dict(sg="P1", cell=[a, a, a, 90.0, 90.0, 90.0])], U=[U], E=[[0.0] * 3] * 3, pmap=None)
    co = w["poly"]["mesh"]["coord"]
    c = [sum(x[i] for x in co) / len(co) for i in range(3)]
    w["beam"] = gen.beam(r, 3 * max(math.dist(c, x) for x in co) + 1, c, 2 * a / h, dir=k)
    if r.random() < 0.7:
        w["motion"]["axis"] = [x / math.hypot(*w["beam"]["pol"]) for x in w["beam"]["pol"]]
    w["motion"]["tr"] = [0.0, 0.0, 0.0]
    w.update(lo=0.0, hi=math.pi / 2, pre=[], kind="np")
    return w


def run(scn, rec):
    pc = D.begin(scn, rec, scn["kind"])
    for p in scn["pre"]:
        D.transform(rec, pc, p["motion"], p["t"])
    W.diffract(rec, pc, scn["beam"], scn["motion"], scn["lo"], scn["hi"], want=("row",))
