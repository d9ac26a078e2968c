import math
from harness import gen, rec as R, world as W
from harness.props import detworld as T

CFG = "SPECIFICATION Spec\nCONSTANTS Emit = TRUE\nMaxN = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Counted Tiled Ends Covered\n"
ASSUMPTIONS = ["a pixel size that fits an edge to a millionth of a pixel fits it", "where the pixels do not fit an edge the last one sticks out"]
SIZES = [0.05, 0.1, 0.075, 1.0, 55.0, 172.0, 50.0, 6.5, 1.1, 0.3, 3.0, 7.3]


def scenarios(ctx):
    r = ctx.rng
    out = []
    cs = ctx.cases("PixelGrid", CFG % ctx.n(250, 1200), workers=6)
    for k, c in enumerate(cs):
        other = r.choice([1, 2, 3, 7, 16, 33])
        n = [c["n"], other]
        if r.random() < 0.5:
            n = n[::-1]
        out.append(made(r, "grid-%d-%s" % (c["n"], c["how"]), n, c["how"], c["n"]))
    for k in range(ctx.n(150, 3000)):
        big = r.random() < 0.3
        n = [r.randint(1, 5000), r.randint(1, 4)] if big else [r.randint(1, 300), r.randint(1, 300)]
        if r.random() < 0.5:
            n = n[::-1]
        out.append(made(r, "random-%d" % k, n, r.choice(["count", "size", "rest", "square"]), None, draw=not big and r.random() < 0.3))
    for k in range(ctx.n(150, 2500)):
        out.append(template(r, "template-%d" % k))
    return out


def rest(r):
    """What the last pixel sticks out, also nearly nothing or nearly all of it."""
    x = 10 ** -r.uniform(0.5, 4.5)
    return r.choice([r.uniform(0.1, 0.9), x, 1 - x])


def made(r, name, n, how, exact, draw=False):
    p = r.choice(SIZES)
    asp = r.choice([1.0, 1.0, 0.5, 2.0, 1.37])
    if how == "square":
        n[1], asp = n[0], 1.0
    zl, yl = n[0] * p, n[1] * p * asp
    size = [p, p * asp]
    if how == "rest":
        zl -= p * rest(r) if n[0] > 1 else 0.0
        yl -= p * asp * rest(r) if n[1] > 1 else 0.0
    z = r.random()
    if z < 0.4:  # along the axes, as most detectors are
        x, oy, oz = r.choice([1000.0, 142938.3, 0.5]), r.choice([0.0, -yl / 2, r.uniform(-yl, yl)]), r.choice([0.0, -zl / 2, r.uniform(-zl, zl)])
        d = dict(c0=[x, oy, oz], c1=[x, oy + yl, oz], c2=[x, oy, oz + zl])
    else:
        d = T.place(r, r.choice([3.0, 20.0]) * max(zl, yl), zl, yl, r.choice([0.0, 0.6]))
    if how in ("count", "square"):
        d["n_pixels"] = n[0] if how == "square" or n[0] == n[1] else n
    else:
        # the lengths as the detector computes them decide what fits
        d["pixel_size"] = size if asp != 1.0 or r.random() < 0.5 else p
    at = [[0, 0], [n[0] - 1, n[1] - 1], [n[0] - 1, 0], [0, n[1] - 1]] + [[r.randrange(n[0]), r.randrange(n[1])] for _ in range(3)]
    return dict(name=name, what="made", det=d, at=at, kind=r.choice(["np", "np", "torch", "list"]), draw=draw, seed=r.randrange(1000))


def template(r, name):
    nz, ny = r.choice([1, 2, 17, 32, 61, 128, 200]), r.randint(1, 120)
    if r.random() < 0.5:
        nz, ny = ny, nz
    p = dict(detector_distance=r.choice([1e5, 142938.3, 2000.0, r.uniform(500, 1e6)]), number_of_detector_pixels_z=nz, number_of_detector_pixels_y=ny,
             detector_center_pixel_z=r.choice([nz / 2, 0.0, nz * r.uniform(-0.5, 1.5), float(nz // 2)]), detector_center_pixel_y=r.choice([ny / 2, ny * r.uniform(-0.5, 1.5), float(ny // 3)]),
             pixel_side_length_z=r.choice(SIZES), pixel_side_length_y=r.choice(SIZES), wavelength=r.choice([0.285227, r.uniform(0.1, 2)]),
             beam_side_length_z=r.choice([512.0, r.uniform(1, 1e4)]), beam_side_length_y=r.choice([1.0, r.uniform(1, 1e4)]),
             rotation_step=r.choice([math.radians(1), math.radians(30), r.uniform(0.001, 3.1)]), rotation_axis=r.choice([[0.0, 0, 1.0], [1.0, 0, 0], gen.unit(r)]))
    return dict(name=name, what="template", params=p, axis=r.choice(["np", "np", "list"]))


def observed(rec, op, det, d, at, **more):
    n = R.tonp(det.pixel_coordinates).shape
    # the pixels asked for, as far as they exist
    at = [a for a in at if len(n) == 3 and a[0] < n[0] and a[1] < n[1]]
    P = R.tonp(det.pixel_coordinates)
    rec.ev(op, zhat=R.flt(det.zdhat), yhat=R.flt(det.ydhat), normal=R.flt(det.normal), zmax=R.num(det.zmax), ymax=R.num(det.ymax), pzo=R.num(det.pixel_size_z), pyo=R.num(det.pixel_size_y),
           grid=list(n), at=at, pts=R.flt([P[a[0], a[1]] for a in at] or [[0.0, 0.0, 0.0]]), c0o=R.flt(det.det_corner_0), c1o=R.flt(det.det_corner_1), c2o=R.flt(det.det_corner_2), **more, **T.fields(d))


def run(scn, rec):
    if scn["what"] == "made":
        d = scn["det"]
        det = rec.must(W.detector, d, scn["kind"])
        observed(rec, "detector_new", det, d, scn["at"])
        if scn["draw"]:
            import random
            r = random.Random(scn["seed"])
            for m in ("nano", "micro"):
                rows = [T.row(r, i, kout=T.aimed(d, [0.0] * 3, r.random(), r.random()), src=[0.0] * 3) for i in range(r.randint(0, 2))]
                img = rec.must(det.render, T.peaks_dict(rows), frames_to_render=2, method=m, verbose=False)[0]
                rec.ev("frame_shape", sh=list(img.shape), k=2, **T.fields(d))
        return
    from xrd_simulator.templates import s3dxrd
    import numpy as np
    p = dict(scn["params"])
    if scn["axis"] == "np":
        p["rotation_axis"] = np.array(p["rotation_axis"])
    bm, det, mo = rec.must(s3dxrd, p)
    q = scn["params"]
    x, pz, py = q["detector_distance"], q["pixel_side_length_z"], q["pixel_side_length_y"]
    nz, ny = q["number_of_detector_pixels_z"], q["number_of_detector_pixels_y"]
    rec.ev("template", params={k: ([R.num(a) for a in v] if isinstance(v, list) else R.num(v)) for k, v in q.items()}, nz=nz, ny=ny,
           grid=list(R.tonp(det.pixel_coordinates).shape), c0o=R.flt(det.det_corner_0), c1o=R.flt(det.det_corner_1), c2o=R.flt(det.det_corner_2), pzo=R.num(det.pixel_size_z), pyo=R.num(det.pixel_size_y),
           verts=R.flt(bm.vertices), wave=R.flt(bm.wave_vector), lam=R.num(bm.wavelength), pol=R.flt(bm.polarization_vector),
           got_axis=R.flt(mo.rotation_axis), got_ang=R.num(mo.rotation_angle), got_tr=R.flt(mo.translation), got_org=R.flt(mo.origin))
