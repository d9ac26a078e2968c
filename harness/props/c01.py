import numpy as np
from harness import gen, rec as R, world as W

CFG = "SPECIFICATION Spec\nCONSTANT Emit = TRUE\nCHECK_DEADLOCK FALSE\nINVARIANTS Isometry Identity AxisFixed RightHanded Undo Adds\n"
ASSUMPTIONS = ["numbers of the cases (axes, angles, points, times) are sampled; calling conventions are exhaustive over the listed shapes"]


def scenarios(ctx):
    r = ctx.rng
    cases = ctx.cases("MotionAlgebra", CFG)
    out = []
    per = ctx.n(2, 30)
    # group several conventions on the same motion object: results may not depend on earlier calls
    work = [c for c in cases for _ in range(per)]
    r.shuffle(work)
    k = 0
    while work:
        part, work = work[:8], work[8:]
        scale = r.choice([1.0, 1.0, 100.0, 0.01, 1e-7])
        m = gen.still(r, gen.motion(r, scale))
        m["angform"] = r.choice(["number", "number", "zerod", "one"])
        for c in part:
            n = c["shape"][0] if len(c["shape"]) > 1 else 1
            c["t"] = gen.time(r) if c["tmode"] != "rows" else [gen.time(r) for _ in range(n)]
            tot = int(np.prod(c["shape"]))
            c["x"] = np.array([r.uniform(-scale, scale) for _ in range(tot)]).reshape(c["shape"]).tolist()
        out.append(dict(name="motion-%d" % k, motion=m, kind=r.choice(["np", "torch"]), calls=[dict(c) for c in part]))
        k += 1
    return out


def snap(m):
    return dict(got_axis=R.flt(m.rotation_axis), got_ang=R.num(m.rotation_angle), got_tr=R.flt(m.translation), got_org=R.flt(m.origin))


def params(d):
    return dict(axis=R.flt(d["axis"]), ang=R.num(d["ang"]), tr=R.flt(d["tr"]), org=R.flt(d["org"] or [0.0, 0.0, 0.0]))


def run(scn, rec):
    d = scn["motion"]
    m = rec.must(W.motion, d, scn["kind"])
    rec.ev("motion_new", **params(d), **snap(m))
    inv = rec.must(m.inverse)
    rec.ev("motion_inverse", **snap(inv))
    for c in scn["calls"]:
        o = m if c["on"] == "motion" else inv
        x = W.conv(c["x"], c["inp"])
        t = c["t"]
        if c["tmode"] == "zerod":
            t = W.conv(t, c["inp"])
        elif c["tmode"] == "one":
            t = W.conv([t], c["inp"])
        elif c["tmode"] == "rows":
            t = W.conv(t, c["inp"])
        before = dict(x=R.flt(x), t=R.flt(t))
        f = {"call": o, "rotate": o.rotate, "translate": o.translate}[c["kind"]]
        y, err = rec.call(f, x, t)
        if err:
            rec.ev("unexpected_error", what="%s of shape %s, %s time, on %s" % (c["kind"], c["shape"], c["tmode"], c["on"]), err=err)
            continue
        rec.ev("motion_call", kind=c["kind"], on=c["on"], out=R.flt(y), x_after=R.flt(x), t_after=R.flt(t), **before)
    rec.ev("motion_new", **params(d), **snap(m))  # still the same motion
