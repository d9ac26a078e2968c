"""Detectors, made-up peaks and images, shared by the detector checks."""
import math
import numpy as np
from harness import gen, rec as R, world as W

COLUMNS = ["grain_index", "phase_number", "h", "k", "l", "structure_factors", "diffraction_times", "G0_x", "G0_y", "G0_z", "Gx", "Gy", "Gz", "K_out_x", "K_out_y", "K_out_z",
           "Source_x", "Source_y", "Source_z", "lorentz_factors", "polarization_factors", "volumes", "2theta", "scherrer_fwhm", "peak_index"]
# defaults of the documented constructor
DEFAULTS = dict(gaussian_sigma=1.0, kernel_threshold=0.02, max_gaussian_kernel_radius=2, use_lorentz=True, use_polarization=True, use_structure_factor=True)


def num(x):
    return float(x) if not isinstance(x, float) else x


def row(r, i, **k):
    """A peak with all columns different; k gives those that matter."""
    d = dict(grain_index=0, phase_number=r.randrange(3), h=r.randint(-5, 5), k=r.randint(-5, 5), l=r.randint(-5, 5), structure_factors=r.uniform(0.1, 50),
             diffraction_times=r.random(), lorentz_factors=r.uniform(1, 9), polarization_factors=r.uniform(0.1, 1), volumes=r.uniform(1e-4, 2), scherrer_fwhm=r.uniform(1e-6, 1e-4), peak_index=i)
    d["2theta"] = r.uniform(0.01, 1)
    for c in COLUMNS:
        if c not in d:
            d[c] = r.uniform(-3, 3)
    v = k.pop("kout", None)
    if v is not None:
        d.update(K_out_x=v[0], K_out_y=v[1], K_out_z=v[2])
    v = k.pop("src", None)
    if v is not None:
        d.update(Source_x=v[0], Source_y=v[1], Source_z=v[2])
    d.update(k)
    return [num(d[c]) for c in COLUMNS]


def basis(d):
    """c0, unit edges, lengths, normal of a detector description."""
    z = [a - b for a, b in zip(d["c2"], d["c0"])]
    y = [a - b for a, b in zip(d["c1"], d["c0"])]
    zl, yl = math.sqrt(sum(x * x for x in z)), math.sqrt(sum(x * x for x in y))
    z, y = [x / zl for x in z], [x / yl for x in y]
    return z, y, zl, yl, gen.cross(z, y)


def at(d, fz, fy):
    """The point at fractions fz, fy of the edges."""
    return [o + fz * (a - o) + fy * (b - o) for o, a, b in zip(d["c0"], d["c2"], d["c1"])]


def aimed(d, src, fz, fy, scale=1.0):
    return [scale * (a - s) for a, s in zip(at(d, fz, fy), src)]


def place(r, dist, zl, yl, tilt=0.3, roll=True, flip=None, d=None):
    """A detector with edges zl, yl at about dist from the origin."""
    k = d or gen.unit(r)
    u = gen.unit(r)
    y = gen.cross(k, u)
    n = math.sqrt(sum(x * x for x in y))
    y = [x / n for x in y]
    z = gen.cross(k, y)
    a = r.uniform(-tilt, tilt)
    z = [math.cos(a) * p + math.sin(a) * q for p, q in zip(z, k)]
    if (r.random() < 0.5) if flip is None else flip:
        z, y = y, z
    off = [r.uniform(-0.4, 0.4) * zl - zl / 2, r.uniform(-0.4, 0.4) * yl - yl / 2]
    c0 = [dist * p + off[0] * q + off[1] * s for p, q, s in zip(k, z, y)]
    return dict(c0=c0, c1=[a + yl * b for a, b in zip(c0, y)], c2=[a + zl * b for a, b in zip(c0, z)])


def fields(d):
    """A detector as the judge wants it."""
    q = dict(DEFAULTS)
    q.update({k: d[k] for k in q if k in d})

    def two(v):
        return list(v) if isinstance(v, (list, tuple)) else [v, v]
    return dict(c0=R.flt(d["c0"]), c1=R.flt(d["c1"]), c2=R.flt(d["c2"]), np=two(d["n_pixels"]) if d.get("n_pixels") is not None else [],
                px=[R.num(v) for v in two(d["pixel_size"])] if d.get("pixel_size") is not None else [],
                lor=q["use_lorentz"], polz=q["use_polarization"], sf=q["use_structure_factor"], sigma=R.num(q["gaussian_sigma"]), thr=R.num(q["kernel_threshold"]),
                maxr=int(q["max_gaussian_kernel_radius"]))


def peaks_dict(rows, world=None):
    """What diffraction would return, with made-up peaks. world: mesh, motion, beam."""
    import torch
    P = torch.tensor(rows, dtype=torch.float64).reshape(len(rows), 25)
    pd = dict(peaks=P, columns=list(COLUMNS), incident_vector=torch.tensor([1.0, 0.0, 0.0]), wavelength=0.5, rotation_axis=torch.tensor([0.0, 0.0, 1.0]), verbose=len(rows) % 2 == 1)
    if world:
        pd.update(mesh_lab=W.mesh(world["mesh"]), rigid_body_motion=W.motion(world["motion"]), beam=W.beam(world["beam"]))
    return pd


def intersect(rec, det, d, rows, k, pd=None, default=False):
    pd = pd or peaks_dict(rows)
    before = R.flt(pd["peaks"])
    keys = sorted(pd)
    if default:
        out = rec.must(det.peaks_detector_intersection, pd, **rec.talk())
    else:
        out = rec.must(det.peaks_detector_intersection, pd, frames_to_render=k, **rec.talk())
    ev_intersect(rec, "intersect", d, k, before, pd, out, keys)
    return out


def cut(a):
    """The 25 columns a diffraction reports of a recorded array."""
    return dict(a, sh=[a["sh"][0], 25], d=[x[:25] for x in a["d"]]) if len(a["sh"]) == 2 and a["sh"][1] > 25 else a


def ev_intersect(rec, op, d, k, before, pd, out, keys, **more):
    rec.ev(op, k=k, peaks=cut(before), after=cut(R.flt(pd["peaks"])), out=R.flt(out["peaks"]), cols=[str(c) for c in out["columns"]], other=sorted(set(keys) - set(out)), **fields(d), **more)


def sparse(img):
    a = R.tonp(img)
    dt = str(a.dtype)
    b = a.astype(np.float64)
    nz = np.argwhere(b != 0) if b.ndim == 3 else []
    return dict(sh=list(a.shape), dt=dt, fin=bool(np.isfinite(b).all()), px=[[int(x) for x in i] + [R.num(b[tuple(i)])] for i in nz])


DT = {"float32": "float32", "float64": "float64"}


def render(rec, det, d, pd, k, method, dtype=None, macro=None, micro=None, world=None, emit=True, rows=None):
    """Render and record the event."""
    import torch
    before = R.flt(pd["peaks"])
    keys = sorted(pd)
    kw = dict(frames_to_render=k, method=method, **rec.talk())
    if dtype:
        kw["render_dtype"] = getattr(torch, dtype)
    if macro is not None:
        kw["macro_grain_limit"] = macro
    if micro is not None:
        kw["micro_grain_limit"] = micro
    img, out = rec.must(det.render, pd, **kw)
    if emit:
        w = {}
        if world:
            w = dict(coord=R.flt(world["mesh"]["coord"]), enod=R.arr(world["mesh"]["enod"]), motion=W.motion_rec(world["motion"]), beam=W.beam_rec(world["beam"]))
        ev_intersect(rec, "render", d, max(k, 1), before, pd, out, keys, method=method, dtype=dtype or str(R.tonp(pd["peaks"]).dtype), img=sparse(img),
                     macro="inf" if macro is None else R.num(macro), micro=R.num(0.1 ** 3 if micro is None else micro), world=bool(world), **w)
    return img, out
