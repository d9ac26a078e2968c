"""Random inputs (seeded), used to give symbolic cases of the models numbers."""
import math


def unit(r):
    while True:
        v = [r.uniform(-1, 1) for _ in range(3)]
        n = math.sqrt(sum(x * x for x in v))
        if 0.1 < n < 1:
            break
    v = [x / n for x in v]
    for _ in range(3):  # as unit as doubles allow
        n = math.sqrt(math.fsum(x * x for x in v))
        v = [x / n for x in v]
    return v


def unit4(r):
    while True:
        v = [r.gauss(0, 1) for _ in range(4)]
        n = math.sqrt(sum(x * x for x in v))
        if n > 0.1:
            return [x / n for x in v]


AXES = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, -1.0], [0.6, 0.0, 0.8], [0.0, -0.6, 0.8], [-0.6, 0.8, 0.0]]


def axis(r):
    return r.choice(AXES) if r.random() < 0.3 else unit(r)


def vec(r, s=1.0):
    return [r.uniform(-s, s) for _ in range(3)]


def angle(r):
    c = r.random()
    if c < 0.1:
        return r.uniform(1e-6, 1e-3)
    if c < 0.2:
        return math.pi - r.uniform(1e-6, 1e-3)
    if c < 0.3:
        return math.pi / 2
    return r.uniform(0.01, math.pi - 0.01)


def motion(r, scale=1.0):
    z = r.random()
    return dict(axis=axis(r), ang=angle(r), tr=vec(r, scale) if z < 0.8 else [0.0, 0.0, 0.0],
                org=None if z < 0.25 else vec(r, scale))


def still(r, m, p=0.15):
    """Now and then a motion that hardly turns the sample."""
    if r.random() < p:
        m["ang"] = 10 ** -r.uniform(5, 9)
    return m


def time(r):
    c = r.random()
    return 0.0 if c < 0.12 else 1.0 if c < 0.24 else 0.5 if c < 0.3 else 10 ** -r.uniform(2, 8) if c < 0.34 else 1 - 10 ** -r.uniform(2, 8) if c < 0.37 else r.random()


def rotation(r):
    """A proper rotation matrix from a random unit quaternion."""
    while True:
        q = [r.gauss(0, 1) for _ in range(4)]
        n = math.sqrt(sum(x * x for x in q))
        if n > 1e-3:
            break
    w, x, y, z = [c / n for c in q]
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]


def _vol6(p):
    a, b, c = [[p[i][k] - p[0][k] for k in range(3)] for i in (1, 2, 3)]
    return (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]))


def quality(p):
    m = max(math.dist(p[i], p[j]) for i in range(4) for j in range(i))
    return abs(_vol6(p)) / m ** 3


def tet(r, size=1.0, q=0.02):
    """A random tetrahedron in any node order, not flatter than q."""
    while True:
        p = [vec(r, size) for _ in range(4)]
        if quality(p) > q:
            return p


def mesh(r, n=2, size=1.0, spread=3.0, q=0.02, shared=True):
    """n elements; they share nodes (extended over faces) or are separate."""
    off = vec(r, spread * size)
    p = [[x + o for x, o in zip(v, off)] for v in tet(r, size, q)]
    coord, enod = list(p), [[0, 1, 2, 3]]
    while len(enod) < n:
        if shared and r.random() < 0.6:
            face = r.sample(r.choice(enod), 3)
            c = [sum(coord[i][k] for i in face) / 3 for k in range(3)]
            new = [x + y for x, y in zip(c, vec(r, size))]
            if quality([coord[i] for i in face] + [new]) < q:
                continue
            coord.append(new)
            e = face + [len(coord) - 1]
        else:
            off = vec(r, spread * size)
            k = len(coord)
            coord += [[x + o for x, o in zip(v, off)] for v in tet(r, size, q)]
            e = [k, k + 1, k + 2, k + 3]
        r.shuffle(e)
        enod.append(e)
    return dict(coord=coord, enod=enod)


# ------------------------------------------------------------------ crystals, beams, detectors
# (space group, cell constraint)
GROUPS = [("P1", "tri"), ("P-1", "tri"), ("P21", "mono"), ("P21/c", "mono"), ("P212121", "ortho"), ("Pnma", "ortho"), ("C2221", "ortho"), ("P41212", "tetra"),
          ("P42/mnm", "tetra"), ("I41/amd", "tetra"), ("P3221", "hex"), ("P63/mmc", "hex"), ("P6122", "hex"), ("Pm-3m", "cubic"), ("Im-3m", "cubic"),
          ("Fm-3m", "cubic"), ("Fd-3m", "cubic"), ("P213", "cubic"), ("Ia-3d", "cubic"),
          ("P63mc", "hex"), ("P-62c", "hex"), ("R-3c", "hex"), ("R3", "hex"), ("P31m", "hex"), ("P-4n2", "tetra"), ("I41/a", "tetra"), ("I432", "cubic"), ("Pm-3n", "cubic"),
          ("I-43d", "cubic"), ("Pa-3", "cubic"), ("C2/c", "mono"), ("Fdd2", "ortho")]
SMALL = ["P1", "P-1", "P21", "P21/c", "P212121", "Pnma", "C2221", "P3221", "P42/mnm", "Pm-3m", "Im-3m"]


def cell(r, sys, lo=2.5, hi=4.5):
    a, b, c = (round(r.uniform(lo, hi), 4) for _ in range(3))
    oblique = r.random() < 0.35
    if sys == "tri" and oblique:
        al, be, ga = r.choice([(60, 60, 60), (50, 65, 58), (112, 116, 118), (48, 80, 75), (125, 100, 95), (60, 90, 90), (90, 90, 130)])
        return [a, b, c] + [round(x + r.uniform(-2, 2), 2) for x in (al, be, ga)]
    if sys == "mono" and oblique:
        return [a, b, c, 90.0, round(r.choice([r.uniform(60, 89), r.uniform(115, 135)]), 2), 90.0]
    if sys == "tri":
        return [a, b, c, round(r.uniform(75, 105), 2), round(r.uniform(75, 105), 2), round(r.uniform(75, 105), 2)]
    if sys == "mono":
        return [a, b, c, 90.0, round(r.uniform(92, 115), 2), 90.0]
    if sys == "ortho":
        return [a, b, c, 90.0, 90.0, 90.0]
    if sys == "tetra":
        return [a, a, c, 90.0, 90.0, 90.0]
    if sys == "hex":
        return [a, a, c, 90.0, 90.0, 120.0]
    if sys == "cubic":
        return [a, a, a, 90.0, 90.0, 90.0]


def phase(r, groups=SMALL, **k):
    sg = r.choice(groups)
    return dict(sg=sg, cell=cell(r, dict(GROUPS)[sg], **k))


def strain(r, s=0.01):
    e = [[0.0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(i, 3):
            e[i][j] = e[j][i] = r.uniform(-s, s)
    return e


ATOMS = ["Si", "O", "Fe", "Al", "C", "Ti", "N"]


def dispersion(r, ats):
    return {t: [round(r.uniform(-2, 1), 3), round(r.uniform(0, 2), 3)] for t in sorted({a["type"] for a in ats})}


def special(r, sg):
    """A position, written with four decimals, that some symmetry operation of the group leaves in place (if any does)."""
    import numpy as np
    from harness import world as W
    rot, trans = (np.array(x, float) for x in W.group(sg))
    for _ in range(40):
        i = r.randrange(len(rot))
        a, b = np.eye(3) - rot[i], trans[i] + np.array([r.randint(-1, 1) for _ in range(3)])
        x = np.array([r.random() for _ in range(3)])
        x = x + np.linalg.pinv(a) @ (b - a @ x)
        if np.abs(a).max() > 0 and np.abs(a @ x - b).max() < 1e-9:
            return [round(float(v) % 1.0, 4) for v in x]
    return [round(r.random(), 4) for _ in range(3)]


def site(r, sg):
    """A fractional position whose multiplicity in the group is beyond doubt."""
    from harness import world as W
    while True:
        x = round(r.uniform(0.05, 0.45), 4)
        c = r.random()
        pos = special(r, sg) if c < 0.3 else [round(r.random(), 4) for _ in range(3)] if c < 0.75 else r.choice([
            [r.choice([0.0, 0.5, 0.25]) for _ in range(3)], [0.3333, 0.6667, r.choice([0.0, 0.25, x])], [x, 0.0, 0.0], [x, x, x], [x, round(2 * x, 4), 0.25], [0.0, 0.5, x], [0.0, 0.0, x]])
        if len({W.multiplicity(sg, pos, t)[0] for t in (2e-4, 1e-3, 3e-3)}) == 1:
            return pos


def atoms(r, n=None, sg="P1"):
    out = []
    for _ in range(n or r.randint(1, 3)):
        ani = r.random() < 0.4
        pos = site(r, sg)
        if ani:
            l = [[r.uniform(0.05, 0.15) if i == j else r.uniform(-0.04, 0.04) for j in range(3)] for i in range(3)]
            u = [[round(sum(l[i][k] * l[j][k] for k in range(3)), 6) for j in range(3)] for i in range(3)]
        else:
            u = round(r.uniform(0.0, 0.03), 5)
        out.append(dict(type=r.choice(ATOMS), pos=pos, occ=r.choice([1.0, 1.0, round(r.uniform(0.2, 1), 3)]), adp="ani" if ani else "iso", u=u))
    return out


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def mv(m, v):
    return [sum(m[i][k] * v[k] for k in range(3)) for i in range(3)]


def polyhedron(r, size, centre):
    """Vertices, in any order, all of them hull corners."""
    c = r.random()
    if c < 0.5:
        s = [size * r.uniform(0.3, 1.5) for _ in range(3)]
        v = [[sx * s[0], sy * s[1], sz * s[2]] for sx in (-1, 1) for sy in (-1, 1) for sz in (-1, 1)]
    elif c < 0.7:
        s = [size * r.uniform(0.5, 1.5) for _ in range(6)]
        v = [[s[0], 0, 0], [-s[1], 0, 0], [0, s[2], 0], [0, -s[3], 0], [0, 0, s[4]], [0, 0, -s[5]]]
    elif c < 0.85:
        v = [[size * 1.5 * x for x in p] for p in ([1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1])]
    else:
        n = r.randint(3, 6)
        v = [[size * math.cos(2 * math.pi * (k + 0.1) / n), size * math.sin(2 * math.pi * (k + 0.1) / n), z * size * 2] for k in range(n) for z in (-1, 1)]
    R = rotation(r) if r.random() < 0.6 else [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]
    v = [[x + o for x, o in zip(mv(R, p), centre)] for p in v]
    r.shuffle(v)
    return v


def beam(r, size, centre=(0.0, 0.0, 0.0), lam=None, axial=0.4, dir=None):
    d = dir or r.choice([[1.0, 0.0, 0.0], [0.0, 0.0, 1.0], [0.0, -1.0, 0.0]]) if r.random() < axial else unit(r)
    p = cross(d, unit(r))
    n = math.sqrt(sum(x * x for x in p))
    s = r.choice([1.0, 1.0, 7.3])
    p = [x / n for x in p]
    k = sum(x * y for x, y in zip(p, d))
    q = r.choice([1.0, 3.0])
    p = [q * (x - k * y) for x, y in zip(p, d)]
    return dict(verts=polyhedron(r, size, centre), dir=[s * x for x in d], lam=lam or round(r.uniform(0.3, 1.2), 4), pol=p)


def poly(r, n=None, size=1.0, strainsize=0.01, phases=None, spread=2.0, **k):
    n = n or r.choice([1, 1, 2, 3, 4])
    np_ = phases or (r.choice([1, 1, 2]))
    ph = [phase(r, **k) for _ in range(np_)]
    if np_ > 1 and r.random() < 0.85:
        pmap = [r.randrange(np_) for _ in range(n)]
    elif np_ > 1:
        pmap = [np_ - 1] * n
    else:
        pmap = None if r.random() < 0.5 else [0] * n
    one = r.random() < 0.2
    E = [strain(r, strainsize) for _ in range(n)] if r.random() < 0.7 else [[0.0] * 3 for _ in range(3)]
    return dict(mesh=mesh(r, n, size, spread), U=rotation(r) if one else [rotation(r) for _ in range(n)], E=E, phases=ph, pmap=pmap)
