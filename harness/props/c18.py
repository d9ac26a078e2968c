import os
import numpy as np
from harness import gen, rec as R, world as W
from harness.props import diffworld as D

CFG = "SPECIFICATION Spec\nCONSTANT Emit = TRUE\nCHECK_DEADLOCK FALSE\nINVARIANTS Friedel Equivalent AbsentIsZero Additive Anomalous\n"
ASSUMPTIONS = ["form factors and symmetry operations are the tables of xfab", "crystals on the model's grid of kinds, in 30 space groups, with sampled parameters"]
CENTRES = {"P1": ["P1", "P3221", "P63mc", "P-43n"], "Pm1": ["P-1", "P21/c", "Pnma", "Pa-3"], "P21": ["P21", "P212121", "P41212", "P6122"], "I1": ["C2221", "Fdd2", "I41/a", "R3"]}


def crystal(r, g, q=None, n=None):
    sysm = dict(gen.GROUPS).get(g, "cubic")
    d = dict(sg=g, cell=gen.cell(r, sysm))
    at = gen.atoms(r, n, g)
    if q:
        if q["adp"] == "none":
            for x in at:
                x["adp"], x["u"] = "none", 0.0
        a = at[0]
        a["pos"] = {"gen": [0.1301, 0.2732, 0.3917], "org": [0.0, 0.0, 0.0], "half": [0.5, 0.0, 0.25]}[q["pos"]]
        a["occ"] = 1.0 if q["occ"] == "full" else 0.4
        if q["adp"] == "iso":
            a["adp"], a["u"] = "iso", 0.015
        elif q["adp"] == "ani":
            a["adp"], a["u"] = "ani", [[0.02, 0.004, -0.003], [0.004, 0.01, 0.002], [-0.003, 0.002, 0.03]]
    d["atoms"] = at
    if (q or {}).get("disp", r.random() < 0.5):
        d["dispersion"] = gen.dispersion(r, at)
    d["mult"] = r.random() < 0.3
    d["esd"], d["shuffled"] = r.random() < 0.3, r.random() < 0.3
    return d


def scenarios(ctx):
    r = ctx.rng
    out = []
    for rep in range(ctx.n(1, 8)):
        for k, q in enumerate(ctx.cases("StructureModel", CFG, workers=6) if rep == 0 else cs):
            if k == 0:
                cs = cs if rep else []
            if rep == 0:
                cs.append(q)
            g = r.choice(CENTRES[q["g"]])
            out.append(dict(name="crystal-%d-%d" % (rep, k), phase=crystal(r, g, q, r.randint(2, 4) if q["two"] else 1), n=r.choice([0, 1, 2, 5, 9])))
    for k in range(ctx.n(2, 20)):
        for g, _ in gen.GROUPS:
            out.append(dict(name="group-%d-%s" % (k, g), phase=crystal(r, g), n=4))
    for k in range(ctx.n(25, 500)):  # vanishing intensities and intensities of peaks
        w = D.world(r, budget=40, lit=1.0, mscale=0.0, n=r.choice([1, 2]), strainsize=0.0)
        for p in w["poly"]["phases"]:
            if r.random() < 0.8:
                c = crystal(r, p["sg"])
                if r.random() < 0.5:  # extra absences from special positions and equal atoms
                    c["atoms"] = [dict(type="Si", pos=[0.0, 0.0, 0.0], occ=1.0, adp="iso", u=0.01), dict(type="Si", pos=[0.5, 0.5, 0.5], occ=1.0, adp="iso", u=0.01)]
                    c.pop("dispersion", None)
                    z = r.random()  # and nearly absent ones, far weaker than the others
                    if z < 0.35:
                        c["atoms"][1]["pos"] = [0.5 + r.choice([0.003, 0.001, 0.0003] if p["sg"] == "P1" else [0.004, 0.008]) * r.choice([-1, 1]) for _ in range(3)]
                    elif z < 0.5:
                        c["atoms"][1]["occ"] = r.choice([0.999, 0.99])
                    elif z < 0.6:
                        for x in c["atoms"]:
                            x["occ"] = 0.002
                for n in ("atoms", "dispersion", "esd", "shuffled", "mult"):
                    if n in c:
                        p[n] = c[n]
        w["lo"] = 0.0
        w["hi"] = D.bragg(r, w["poly"]["phases"], w["beam"]["lam"], 40)
        w["name"] = "world-%d" % k
        out.append(w)
    return out


def run(scn, rec):
    if "poly" in scn:
        pc = D.begin(scn, rec)
        W.diffract(rec, pc, scn["beam"], scn["motion"], scn["lo"], scn["hi"], want=("row", "hkl", "complete"))
        return
    from xrd_simulator.structure_factors import compute_structure_factors_batch as sf
    p = scn["phase"]
    path = os.path.join(W.scratch(), "c.cif")
    W.write_cif(path, p)
    g = np.random.default_rng(scn["n"] + 17)
    hkl = g.integers(-4, 5, (scn["n"], 3))
    if scn["n"] > 3:
        hkl[1] = -hkl[0]
        hkl[2] = [0, 0, 3]
    F = rec.must(sf, hkl, p["cell"], p["sg"], path)
    parts = []
    for rows in ([[0], [scn["n"] - 1], list(range(scn["n"]))[::-1]] if scn["n"] else []):
        f = rec.must(sf, hkl[rows], p["cell"], p["sg"], path)
        parts.append(dict(rows=rows, F=R.flt(f)))
    rec.ev("sf_batch", phase=W.phase_rec(p), hkl=hkl.tolist(), F=R.flt(F), parts=parts)
