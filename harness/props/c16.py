import numpy as np
from harness import gen, rec as R, world as W
from harness.props import diffworld as D

CFG = "SPECIFICATION Spec\nCONSTANTS Emit = TRUE\nValues = {%s}\nCHECK_DEADLOCK FALSE\nINVARIANTS RoundTrip NoStrain Inverted SameEverywhere\n"
ASSUMPTIONS = ["strains with a squared Cholesky pivot of the metric between -1e-9 and 1e-6 may be accepted or rejected"]


def full(e):
    return [[e[0], e[1], e[2]], [e[1], e[3], e[4]], [e[2], e[4], e[5]]]


def scenarios(ctx):
    r = ctx.rng
    cs = ctx.cases("StrainGrid", CFG % ctx.n("45, 100, 130", "30, 55, 100, 140"))
    es = [[x / 100 for x in c["e"]] for c in cs]
    out = []
    good = [e for e in es if np.linalg.eigvalsh(2 * np.array(full(e)) + np.eye(3)).min() > 1e-3]
    badn = [e for e in es if e not in good]
    for k in range(0, len(good), 12):  # batches of feasible strains
        U = [gen.rotation(r) for _ in good[k:k + 12]]
        E = [(np.array(u) @ np.array(full(e)) @ np.array(u).T) for u, e in zip(U, good[k:k + 12])]
        E = [((e + e.T) / 2).tolist() for e in E]
        out.append(dict(name="feasible-%d" % k, cell=gen.cell(r, "tri"), U=U, E=E, made=k % 5 == 0))
    r.shuffle(badn)
    for k, e in enumerate(badn[:ctx.n(150, 1500)]):  # one infeasible among feasible ones
        n = r.randint(1, 4)
        mine = [r.choice(good) for _ in range(n)]
        mine[r.randrange(n)] = e
        U = [gen.rotation(r) for _ in mine]
        E = [np.array(u) @ np.array(full(x)) @ np.array(u).T for u, x in zip(U, mine)]
        out.append(dict(name="infeasible-%d" % k, cell=gen.cell(r, "tri"), U=U, E=[((x + x.T) / 2).tolist() for x in E], made=k % 3 == 0))
    for k in range(ctx.n(40, 800)):  # small and random strains
        n = r.randint(1, 6)
        s = r.choice([0.0, 1e-6, 1e-3, 0.05, 0.2])
        out.append(dict(name="random-%d" % k, cell=gen.cell(r, r.choice(["tri", "hex", "cubic", "mono"])), U=[gen.rotation(r) for _ in range(n)], E=[gen.strain(r, s) for _ in range(n)], made=True))
    for k in range(ctx.n(3, 20)):  # many elements
        n = r.choice([140, 300])
        out.append(dict(name="many-%d" % k, cell=gen.cell(r, "tri"), U=[gen.rotation(r) for _ in range(n)], E=[gen.strain(r, 0.1) for _ in range(n)], made=True))
    for k in range(ctx.n(3, 20)):
        w = D.large(r, r.choice([0, 3, 5]))
        w["poly"]["E"] = [gen.strain(r, 0.05) for _ in w["poly"]["mesh"]["enod"]]
        out.append(dict(w, name="many-world-%d" % k))
    for k in range(ctx.n(60, 1200)):  # seen through diffraction
        w = D.world(r, budget=r.choice([10, 30]), lit=1.0, strainsize=r.choice([0.0, 1e-4, 0.02, 0.12]), mscale=0.0, phases=r.choice([1, 2, 3]))
        w["name"] = "world-%d" % k
        out.append(w)
    return out


def run(scn, rec):
    if "poly" in scn:
        pc = D.begin(scn, rec, "np")
        W.diffract(rec, pc, scn["beam"], scn["motion"], scn["lo"], scn["hi"], want=("row",))
        return
    from xrd_simulator import utils
    from xfab import tools
    U, E, n = np.array(scn["U"]), np.array(scn["E"]), len(scn["U"])
    B0 = np.array(tools.form_b_mat(scn["cell"]))
    common = dict(cell=[repr(float(x)) for x in scn["cell"]], U=R.flt(U), E=R.flt(E))
    none = R.flt(np.zeros((0, 6)))
    fn = R.private(utils, "_lab_strain_to_B_matrix", "strain_tensor", "crystal_orientation", "B0")
    if fn is not None:
        B, err = rec.call(fn, E, U, B0)
        if err is None:
            B = R.tonp(B).reshape(n, 3, 3)
        rec.ev("strain_batch", call="lab", err=err or "", B=R.flt(B) if err is None else 0, back=none, **common)
    one, inv = R.private(utils, "_epsilon_to_b", "crystal_strain", "B0"), R.private(utils, "_b_to_epsilon", "B_matrix", "B0")
    if one is not None and inv is not None:
        for u, e in list(zip(U, E))[:3]:
            c = u.T @ e @ u
            c = (c + c.T) / 2
            B, err = rec.call(one, c, B0)
            back = none
            if err is None:
                back, e2 = rec.call(inv, B, B0)
                back = R.flt(np.zeros((0, 6))) if e2 else R.flt(np.array([[float(x) for x in back]]))
            rec.ev("strain_batch", call="crystal", err=err or "", B=R.flt(R.tonp(B)[None]) if err is None else 0, back=back,
                   cell=common["cell"], U=R.flt(u[None]), E=R.flt(e[None]))
    if scn["made"]:
        r = np.random.default_rng(n)
        coord = np.concatenate([np.eye(4, 3, -1) + 3 * k for k in range(n)])
        d = dict(mesh=dict(coord=coord.tolist(), enod=[[4 * k, 4 * k + 1, 4 * k + 2, 4 * k + 3] for k in range(n)]), U=U, E=E, phases=[dict(cell=scn["cell"], sg="P1")], pmap=None)
        pc, err = rec.call(W.polycrystal, d)
        rec.ev("strain_made", err=err or "", U=R.flt(U), E=R.flt(E))
