"""Builders of the real objects from JSON descriptions, and observations of them."""
import os
import numpy as np


def prepare():
    """Once per worker process: determinism, no output, no wall clock dependence."""
    import torch
    torch.set_num_threads(1)
    import xrd_simulator.utils as u
    from xrd_simulator import beam as b
    if hasattr(b, "linprog"):
        real = b.linprog

        def linprog(*a, **k):  # the 0.1 s limit of a solve is not part of any property
            opt = dict(k.get("options") or {})
            opt.pop("time_limit", None)
            k["options"] = opt
            return real(*a, **k)
        b.linprog = linprog
    seed(1)


_fresh = [0]
_default_rng = np.random.default_rng


def default_rng(s=None):
    """Generators made without a seed are the same after each seed()."""
    if s is None:
        _fresh[0] += 1
        s = _fresh[0]
    return _default_rng(s)


def seed(n):
    """Start all random sampling over, wherever the package keeps its generators."""
    import random
    import sys
    import torch
    random.seed(n)
    np.random.seed(n)
    torch.manual_seed(n)
    _fresh[0] = 1000 * n
    np.random.default_rng = default_rng
    for m in [m for k, m in sys.modules.items() if k.startswith("xrd_simulator")]:
        for v in list(vars(m).values()):
            if isinstance(v, np.random.Generator):
                v.bit_generator.state = _default_rng(n).bit_generator.state
            elif isinstance(v, np.random.RandomState):
                v.seed(n)
            elif isinstance(v, torch.Generator):
                v.manual_seed(n)


def conv(x, kind):
    """A numeric input in one of the accepted kinds."""
    import torch
    a = np.array(x, dtype=np.float64)
    if kind == "np":
        return a
    if kind == "torch":
        return torch.tensor(a)
    if kind == "list":
        return a.tolist()
    raise ValueError(kind)


def motion(d, kind="np"):
    from xrd_simulator.motion import RigidBodyMotion
    k = {}
    if d.get("org") is not None:
        k["origin"] = conv(d["org"], kind)
    ang = {"one": lambda: conv([d["ang"]], kind), "zerod": lambda: conv(d["ang"], kind)}.get(d.get("angform"), lambda: d["ang"])()
    return RigidBodyMotion(conv(d["axis"], kind), ang, conv(d["tr"], kind), **k)


def mesh(d):
    """d: coord, enod"""
    from xrd_simulator.mesh import TetraMesh
    return TetraMesh.generate_mesh_from_vertices(np.array(d["coord"], dtype=np.float64), np.array(d["enod"], dtype=np.int64))


def mesh_snap(m):
    from harness import rec as R
    return dict(n=int(m.number_of_elements), coord=R.flt(m.coord), enod=R.arr(m.enod), efaces=R.arr(m.efaces), dof=R.arr(m.dof), ecentroids=R.flt(m.ecentroids), espherecentroids=R.flt(m.espherecentroids),
                eradius=R.flt(m.eradius), evolumes=R.flt(m.evolumes), enormals=R.flt(m.enormals), centroid=R.flt(m.centroid))


def motion_rec(d):
    """A motion as the judge wants it."""
    from harness import rec as R
    return dict(axis=R.flt(d["axis"]), ang=R.num(d["ang"]), tr=R.flt(d["tr"]), org=R.flt(d["org"] or [0.0, 0.0, 0.0]))


def scratch():
    """A new empty directory inside the check's scratch directory."""
    import tempfile
    return tempfile.mkdtemp(dir=os.environ["XV_SCRATCH"])


# ------------------------------------------------------------------ crystals
def group(sgname):
    """Symmetry operations of a space group as the judge wants them (data of the xfab tables)."""
    from xfab import sg
    g = sg.sg(sgname=sgname)
    rot = np.array(g.rot)
    assert np.array_equal(rot, np.round(rot))
    return np.round(rot).astype(int).tolist(), [[repr(float(x)) for x in t] for t in np.array(g.trans)]


def multiplicity(sgname, pos, tol=1e-3):
    """Number of distinct images of a position under the operations of the group."""
    rot, trans = group(sgname)
    seen = []
    for r, t in zip(rot, trans):
        q = np.array(r) @ np.array(pos) + np.array([float(x) for x in t])
        if not any(np.all(np.abs((q - o) - np.round(q - o)) < tol) for o in seen):
            seen.append(q)
    return len(seen), len(rot)


def write_cif(path, d):
    """A crystal structure file with the atoms of phase description d."""
    a = d["cell"]
    e = "(3)" if d.get("esd") else ""
    out = ["data_x", "_cell_length_a %r" % a[0], "_cell_length_b %r" % a[1], "_cell_length_c %r" % a[2], "_cell_angle_alpha %r" % a[3],
           "_cell_angle_beta %r" % a[4], "_cell_angle_gamma %r" % a[5], "_symmetry_space_group_name_H-M '%s'" % d["sg"]]
    types = sorted({x["type"] for x in d["atoms"]})
    if d.get("dispersion"):
        out += ["loop_", "_atom_type_symbol", "_atom_type_scat_dispersion_real", "_atom_type_scat_dispersion_imag"]
        out += ["%s %r %r" % (ty, *d["dispersion"][ty]) for ty in types]
    # a file may give the site multiplicities or leave them to the reader
    mult = [multiplicity(d["sg"], x["pos"]) for x in d["atoms"]]
    assert all(multiplicity(d["sg"], x["pos"], t) == m for x, m in zip(d["atoms"], mult) for t in (2e-4, 3e-3))
    col = [("_atom_site_label", lambda i, x: "%s%d" % (x["type"], i + 1)), ("_atom_site_type_symbol", lambda i, x: x["type"])]
    for c, s in enumerate("xyz"):
        col.append(("_atom_site_fract_" + s, lambda i, x, c=c: "%r%s" % (x["pos"][c], e)))
    if any(x["occ"] != 1.0 for x in d["atoms"]) or not d.get("esd"):
        col.append(("_atom_site_occupancy", lambda i, x: repr(x["occ"])))
    if any(x["adp"] != "none" for x in d["atoms"]):
        col.append(("_atom_site_adp_type", lambda i, x: {"iso": "Uiso", "ani": "Uani"}[x["adp"]]))
        col.append(("_atom_site_U_iso_or_equiv", lambda i, x: "%r%s" % (x["u"] if x["adp"] == "iso" else 0.01, e)))
    if d.get("mult"):
        col.append(("_atom_site_symmetry_multiplicity", lambda i, x: "%d" % mult[i][0]))
    if d.get("shuffled"):
        col = col[::-1]
    out += ["loop_"] + [c for c, _ in col] + [" ".join(f(i, x) for _, f in col) for i, x in enumerate(d["atoms"])]
    ani = [(i, x) for i, x in enumerate(d["atoms"]) if x["adp"] == "ani"]
    if ani:
        out += ["loop_", "_atom_site_aniso_label"] + ["_atom_site_aniso_U_" + s for s in ("11", "22", "33", "23", "13", "12")]
        for i, x in (ani[::-1] if d.get("shuffled") else ani):
            u = x["u"]
            out.append("%s%d %r %r %r %r %r %r" % (x["type"], i + 1, u[0][0], u[1][1], u[2][2], u[1][2], u[0][2], u[0][1]))
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")


def phase(d, path=None):
    from xrd_simulator.phase import Phase
    if d.get("atoms"):
        path = path or os.path.join(scratch(), "x.cif")
        write_cif(path, d)
        return Phase(list(d["cell"]), d["sg"], path_to_cif_file=path)
    return Phase(list(d["cell"]), d["sg"])


def phase_rec(d):
    rot, trans = group(d["sg"])
    atoms = []
    if d.get("atoms"):
        from xfab import atomlib
        for x in d["atoms"]:
            c = atomlib.formfactor[x["type"].upper()]
            disp = (d.get("dispersion") or {}).get(x["type"], (0.0, 0.0))
            atoms.append(dict(pos=[repr(v) for v in x["pos"]], occ=repr(x["occ"]), a=[repr(float(v)) for v in c[:4]], b=[repr(float(v)) for v in c[4:8]],
                              c=repr(float(c[8])), fp=repr(float(disp[0])), fpp=repr(float(disp[1])), adp=x["adp"],
                              u=[[repr(v) for v in row] for row in x["u"]] if x["adp"] == "ani" else repr(x["u"])))
    return dict(cell=[repr(float(v)) for v in d["cell"]], rot=rot, trans=trans, cif=bool(atoms), atoms=atoms)


# ------------------------------------------------------------------ polycrystals, beams, detectors
def poly_parts(d, kind="np"):
    """What a polycrystal is made from: mesh, U, E (one matrix or one per element), phases, pmap (or None)."""
    ph = [phase(p) for p in d["phases"]]
    return (mesh(d["mesh"]), conv(d["U"], kind), conv(d["E"], kind), ph if len(ph) > 1 or d.get("aslist") else ph[0],
            np.array(d["pmap"]) if d.get("pmap") is not None else None)


def polycrystal(d, kind="np", parts=None):
    from xrd_simulator.polycrystal import Polycrystal
    m, U, E, ph, pmap = parts or poly_parts(d, kind)
    return Polycrystal(m, U, E, ph, **({} if pmap is None else dict(element_phase_map=pmap)))


def per_element(x, n):
    x = np.array(x, dtype=float)
    return (np.broadcast_to(x, (n, 3, 3)) if x.ndim == 2 else x).tolist()


def poly_rec(d):
    from harness import rec as R
    n = len(d["mesh"]["enod"])
    return dict(coord=R.flt(d["mesh"]["coord"]), enod=R.arr(d["mesh"]["enod"]), U=R.flt(per_element(d["U"], n)), E=R.flt(per_element(d["E"], n)),
                phases=[phase_rec(p) for p in d["phases"]], pmap=list(d["pmap"]) if d.get("pmap") is not None else [0] * n)


def poly_snap(pc):
    from harness import rec as R
    return dict(lab=mesh_snap(pc.mesh_lab), sample=mesh_snap(pc.mesh_sample), Ul=R.flt(pc.orientation_lab), Us=R.flt(pc.orientation_sample),
                El=R.flt(pc.strain_lab), Es=R.flt(pc.strain_sample), pmap=[int(v) for v in R.tonp(pc.element_phase_map)], nph=len(pc.phases),
                vol=R.flt(pc.mesh_sample.evolumes))


def beam(d, kind="np"):
    from xrd_simulator.beam import Beam
    return Beam(conv(d["verts"], kind), conv(d["dir"], kind), d["lam"], conv(d["pol"], kind))


def beam_rec(d):
    from harness import rec as R
    return dict(verts=R.flt(d["verts"]), dir=R.flt(d["dir"]), lam=R.num(d["lam"]), pol=R.flt(d["pol"]))


def detector(d, kind="np"):
    from xrd_simulator.detector import Detector
    k = {n: d[n] for n in ("gaussian_sigma", "kernel_threshold", "max_gaussian_kernel_radius", "use_lorentz", "use_polarization", "use_structure_factor") if n in d}
    for n in ("n_pixels", "pixel_size"):
        if d.get(n) is not None:
            k[n] = tuple(d[n]) if isinstance(d[n], list) else d[n]
    return Detector(conv(d["c0"], kind), conv(d["c1"], kind), conv(d["c2"], kind), **k)


def det_rec(d):
    from harness import rec as R
    return dict(c0=R.flt(d["c0"]), c1=R.flt(d["c1"]), c2=R.flt(d["c2"]))


def diffract(rec, pc, bd, md, lo=None, hi=None, dd=None, want=("row", "complete", "hkl"), objs=None, emit=True, may=False):
    """Call diffract and record the event; returns the peaks dict (or None where it may refuse and does)."""
    from harness import rec as R
    objs = objs or {}
    b = objs.get("beam") or rec.must(beam, bd)
    m = objs.get("motion") or rec.must(motion, md)
    k = rec.talk()
    if lo is not None:
        k["min_bragg_angle"] = lo
    if hi is not None:
        k["max_bragg_angle"] = None if hi == "none" else hi
    if dd is not None:
        k["detector"] = objs.get("detector") or rec.must(detector, dd)
    if may:
        pd, err = rec.call(pc.diffract, b, m, **k)
        if err:
            rec.ev("diffract_refused", beam=beam_rec(bd), lo=R.num(0.0 if lo is None else lo), hi="none" if hi == "none" else R.num(90 * np.pi / 180 if hi is None else hi),
                   has_det=dd is not None, det=det_rec(dd) if dd else 0, err=err)
            return None
    else:
        pd = rec.must(pc.diffract, b, m, **k)
    if emit:
        rec.ev("diffract", **diffract_rec(pd, bd, md, lo, hi, dd, want))
    return pd


def diffract_rec(pd, bd, md, lo, hi, dd, want):
    from harness import rec as R
    pk = pd["peaks"]
    return dict(beam=beam_rec(bd), motion=motion_rec(md), lo=R.num(0.0 if lo is None else lo),
                hi="none" if hi == "none" else R.num(90 * np.pi / 180 if hi is None else hi), has_det=dd is not None, det=det_rec(dd) if dd else 0, want=list(want),
                peaks=R.flt(pk), cols=[str(c) for c in pd["columns"]], kin=R.flt(pd["incident_vector"]), wl=R.num(pd["wavelength"]), axis=R.flt(pd["rotation_axis"]))
