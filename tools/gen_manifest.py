#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist under harness/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": "The motion algebra is model checked with exact arithmetic (isometry, axis fixed, inverse, composition) over a grid; every calling convention the model lists is executed on the real class and judged by TLC against Move().",
    "C02": "All histories of the six kinds of move up to depth 3 (quick) or 4 (thorough) of the MeshHistory model are executed on real meshes with sampled parameters; every intermediate snapshot is judged against the composed nodes.",
    "C03": "Every tetrahedron of a grid of points in sampled node orders and scales, sampled elements, and meshes generated from six level sets are judged against the derived geometry of the specification.",
    "C04": "Histories of transforms from the PolyHistory model (exact half and quarter turns) and sampled motions; every snapshot and the diffraction after the history are judged against the composed motion.",
    "C05": "Every column of every reported peak of sampled experiments is recomputed by the specification (Laue condition, source, factors, structure factor).",
    "C06": "Cases of the half-angle equation from the LaueRoots model (0, 1, 2 roots, degenerate), batches of it and whole experiments; the specification computes all firm solutions and demands each exactly once.",
    "C07": "Sessions of the SessionModel up to depth 4 (quick) and longer walks are executed with shared objects; every result is compared with that of objects made afresh in a fork that did nothing before.",
    "C08": "Beams in model-listed shapes, scales and histories of reshaping; points on both sides of every face, edge and corner and intersections with polyhedra are judged against the hull computed by the specification.",
    "C09": "Detectors and rays of the DetHits model (in front, behind, parallel, at the borders) and diffraction results; the specification computes crossing, angle and which rows remain.",
    "C10": "Frame assignment at model-listed times (0, 1, the edges and their floating point neighbours) for many numbers of frames; images are compared with those of the peaks of a frame alone.",
    "C11": "All eight combinations of factors with zero, negative, infinite and undefined values from the FactorToggles model.",
    "C12": "Peaks of model-listed numbers, brightness, place and batching are rendered; spot totals, centres, widths and additivity are judged in the specification.",
    "C13": "Elements, beams and detectors in the TetClip model's relative positions; the specification clips the element, computes the volume, the shadow and the support.",
    "C14": "Histories of changes, saves and loads of the StoreModel to depth 4 (quick) or 5 for all five classes; observations after each are compared with references made in the state the model gives.",
    "C15": "Pixel counts and sizes of the PixelGrid model over placements and scales, and templates with sampled parameters, are judged against the grid the specification derives.",
    "C16": "Strains from a grid and sampled ones, feasible and not, for all lattice systems; the specification recomputes the strained metric and its Cholesky factor.",
    "C17": "Every combination of bounds, detector and illumination of the BraggBounds model and 32 space groups; the specification enumerates the allowed reflections.",
    "C18": "Structures sampled over displacement kinds, dispersion, occupancy and groups, judged against the sum in the specification.",
    "C19": "Directions of the FactorGrid model around every singular cone, and sampled ones, in batches of all sizes.",
    "C20": "The bins and their measures are model checked to tile the half sphere; samples made with known densities are judged bin by bin, and frequencies of draws against the probabilities within seven standard deviations.",
    "C21": "All histories of requests and hardware changes of DeviceModel to depth 4 (quick) or 5, each spelling, in fresh processes.",
    "C22": "All single calls of the Contract model (every kind of argument in every position) and histories mixing honoured and rejected calls; the specification decides from the numbers whether a call must be rejected and what the objects are afterwards.",
    "C23": "Volumes around both limits of the SizeClasses model; images are compared with those of the three methods for the classes the specification gives.",
    "C24": "Base orientations on a grid of Bunge angles (separable and not) with symmetric arrangements of known mean from the PictureGrid model, and sampled ones, before and after moves and loads; the specification composes the angles and computes the mean rotation by Newton's iteration.",
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness/props/%s.py" % i.lower())):
        cmd = "/opt/venv/bin/python harness/check.py %s --tier " % i
        checks.append(dict(property=i, quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough", evidence_file="evidence/%s.json" % i,
                           technique="TLA+ specification: TLC model checking and TLC trace validation of executions of the real code",
                           level="model_checking",
                           level_note=NOTES.get(i, "") + " Trusted: TLC, java/Fix.java (200-bit real arithmetic), the recorder in harness/."))
    else:
        na.append(dict(property=i, reason="no check has been built for it yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python harness/selftest.py", checks=checks, not_applicable=na,
               notes="No hooks: the checks observe the code through its own interface."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
