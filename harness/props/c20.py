import math
import numpy as np
from harness import gen, rec as R, world as W

CFG = "SPECIFICATION Spec\nCONSTANTS Emit = TRUE\nMaxN = %d\nElements = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Supported Normalised Covers\n"
ASSUMPTIONS = ["frequencies are judged beyond seven standard deviations", "random sampling starts from a fixed seed", "the density is constant on the bins it is asked for"]
TARGETS = 3


def scenarios(ctx):
    r = ctx.rng
    out = []
    cs = ctx.cases("TextureGrid", CFG % (ctx.n(4, 8), 3), workers=6)
    r.shuffle(cs)
    good = [c for c in cs if c["norm"] == "exact"]
    bad = [c for c in cs if c["norm"] != "exact"]
    for k, c in enumerate(good[:ctx.n(30, 60)]):
        out.append(odf(r, "odf-%d" % k, c, r.choice([1, 5, 30, 60])))
    for k, c in enumerate([dict(density=d, strain=s, norm="exact", n=n) for d, s, n in (("one", "field", 6), ("pair", "none", 9), ("mixed", "field", 12), ("uniform", "constant", 5), ("sides", "field", 18), ("uniform", "field", 12))]):
        out.append(odf(r, "large-%d" % k, c, ctx.n(120, 300)))
    for k, c in enumerate(bad[:ctx.n(30, 120)]):
        out.append(odf(r, "unnormalised-%d" % k, c, r.choice([1, 20])))
    for k in range(ctx.n(24, 200)):
        n = [1, 2, 3, 7, 25, 150, 300][k % 7]
        s = dict(name="powder-%d" % k, powder=True, n=n, R=r.choice([1.0, 0.01, 128.0, r.uniform(0.1, 1000)]), strain=gen.strain(r, 0.05) if k % 3 else None, seed=r.randrange(10**6))
        out.append(common(r, s))
    return out


def common(r, s):
    ph = gen.phase(r)
    s.update(cell=ph["cell"], sg=ph["sg"], cif=r.random() < 0.3, targets=[gen.unit4(r) for _ in range(TARGETS)])
    return s


def odf(r, name, c, asked):
    R_ = r.choice([1.0, 25.0, r.uniform(0.1, 100)])
    h = R_ * r.choice([0.5, 1.0, 2.0, 2.0, 5.0])
    n = c["n"] + 1 if asked < 100 else c["n"]
    sep = math.pi / n * r.choice([1.0 - 1e-9, r.uniform(n / (n + 1) + 1e-3, 1)])
    z = [[0.0] * 3] * 3
    E = [gen.strain(r, 0.05) if c["strain"] != "none" else z] + [gen.strain(r, 0.03 / (R_ + h)) if c["strain"] == "field" else z for _ in range(3)]
    return common(r, dict(name=name, powder=False, case=c, asked=asked, R=R_, h=h, sep=sep, strain=E, normal=gen.unit(r), offset=r.uniform(-0.2, 0.2) * R_, share=r.choice([0.2, 0.5, 0.85]),
                          scale=r.choice([0.5, 0.8, 0.9]), seed=r.randrange(10**6)))


def volumes(q):
    """Measures of the bins of a grid of centres q in the angles of the half sphere."""
    a1 = np.arccos(np.clip(q[:, 0], -1, 1))
    s = np.linalg.norm(q[:, 1:], axis=1)
    a2 = np.arccos(np.clip(q[:, 3] / np.where(s > 0, s, 1), -1, 1))
    a3 = np.mod(np.arctan2(q[:, 2], q[:, 1]), 2 * np.pi)

    def widths(a, top):
        u = np.unique(np.round(a, 6))
        e = np.concatenate([[0.0], (u[1:] + u[:-1]) / 2, [top]])
        k = np.argmin(np.abs(a[:, None] - u[None, :]), axis=1)
        return e[k], e[k + 1]
    lo, hi = widths(a1, np.pi / 2)
    v = (hi - np.sin(hi) * np.cos(hi) - lo + np.sin(lo) * np.cos(lo)) / 2
    lo, hi = widths(a2, np.pi)
    v = v * (np.cos(lo) - np.cos(hi))
    lo, hi = widths(a3, 2 * np.pi)
    return v * (hi - lo)


class Odf:
    """A density that is positive on few bins, which depend on the side of a plane."""

    def __init__(self, s):
        self.s, self.centres, self.last, self.bad = s, [[], []], None, False

    def side(self, x):
        return 0 if float(np.dot(np.asarray(x, dtype=float), self.s["normal"])) - self.s["offset"] < 0 else 1

    def __call__(self, x, q):
        s = self.s
        norm = s["case"]["norm"]
        d = s["case"]["density"]
        f = {"exact": 1.0, "low": s["scale"], "high": 2 - s["scale"], "zero": 0.0, "lowright": 1.0 if self.side(x) == 0 else s["scale"]}[norm]
        self.bad = self.bad or f != 1.0
        if d == "uniform":
            return f / np.pi**2
        q = np.atleast_2d(np.asarray(q, dtype=float))
        if self.last is None or self.last.shape != q.shape or not np.array_equal(self.last, q):
            self.last, self.vol = q.copy(), volumes(q)
            self.near = []
            for t in s["targets"]:
                dist = np.abs(q @ np.array(t))
                dist[self.near] = -1
                self.near.append(int(np.argmax(dist)))
        use = {"one": [[0], [0]], "pair": [[0, 1], [0, 1]], "sides": [[0], [1]], "mixed": [[0, 2], [1]]}[d][self.side(x)]
        p = [1.0] if len(use) == 1 else [s["share"], 1 - s["share"]]
        out = np.zeros(len(q))
        for u, v in zip(use, p):
            out[self.near[u]] = f * v / self.vol[self.near[u]]
        self.centres[self.side(x)] = [dict(q=[R.num(c) for c in q[self.near[u]]], p=R.num(v)) for u, v in zip(use, p)]
        return out


def look(pc, s):
    m = pc.mesh_sample
    p = pc.phases[0]
    return dict(enod=R.arr(m.enod), coord=R.flt(m.coord), nelem=int(m.number_of_elements), U=R.flt(pc.orientation_sample), Ul=R.flt(pc.orientation_lab), E=R.flt(pc.strain_sample), El=R.flt(pc.strain_lab),
                pmap=[int(v) for v in R.tonp(pc.element_phase_map)], nph=len(pc.phases), phase=[R.num(x) for x in p.unit_cell] + [str(p.sgname), str(p.path_to_cif_file)])


def run(s, rec):
    from xrd_simulator import templates
    W.seed(s["seed"])
    cif = None
    if s["cif"]:
        cif = W.scratch() + "/x.cif"
        W.write_cif(cif, dict(cell=s["cell"], sg=s["sg"], atoms=[dict(type="Fe", pos=[0.1237, 0.3141, 0.2719], occ=1.0, adp="iso", u=0.01)]))
    e = dict(asked_phase=[R.num(x) for x in s["cell"]] + [s["sg"], str(cif)], R=R.num(s["R"]))
    if s["powder"]:
        k = {}
        if s["strain"] is not None:
            k["strain_tensor"] = np.array(s["strain"])
        pc, err = rec.call(templates.get_uniform_powder_sample, s["R"], s["n"], s["cell"], s["sg"], path_to_cif_file=cif, **k)
        e.update(ok=err is None, err=str(err), asked=s["n"], strain=[[R.num(x) for x in row] for row in (s["strain"] or [[0.0] * 3] * 3)])
        if err is None:
            e.update(look(pc, s))
        rec.ev("powder", **e)
        return
    f = Odf(s)
    C = [np.array(x) for x in s["strain"]]
    k = dict(path_to_cif_file=cif, maximum_sampling_bin_seperation=s["sep"])
    if s["case"]["strain"] != "none":
        k["strain_tensor"] = lambda x: C[0] + float(x[0]) * C[1] + float(x[1]) * C[2] + float(x[2]) * C[3]
    pc, err = rec.call(templates.polycrystal_from_odf, f, s["asked"], s["h"], s["R"], s["cell"], s["sg"], **k)
    if s["case"]["norm"] != "exact":
        rec.ev("odf_rejected", bad=f.bad, ok=err is None, err=str(err))
        return
    e.update(ok=err is None, err=str(err), asked=s["asked"], h=R.num(s["h"]), sep=R.num(s["sep"]), strain=[[[R.num(x) for x in row] for row in m] for m in s["strain"]], normal=[R.num(x) for x in s["normal"]], offset=R.num(s["offset"]),
             uniform=s["case"]["density"] == "uniform", centres=f.centres)
    if err is None:
        e.update(look(pc, s))
    rec.ev("odf_sample", **e)
