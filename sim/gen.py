"""Seeded generators of inputs (JSON-able specs only)."""
import math
import numpy as np
from . import ref
la = np.linalg

NLEN = [1, 1, 1, 2, 1, 2, 2, 3, 3, 3, 3, 3, 3, 3]
NLEN2 = [1, 2, 2, 1, 2]


def bravais(rng, dim=3, ids=None, special=0.25):
    """[id, params]: generic parameters, sometimes values that raise the symmetry"""
    i = rng.choice(ids or (range(1, 15) if dim == 3 else range(1, 6)))
    L = lambda: round(rng.uniform(0.9, 2.2), 3)
    if dim == 2:
        p = [L() for _ in range(NLEN2[i - 1])]
        if i == 5:
            p.append(round(rng.choice([rng.uniform(62, 84), rng.uniform(96, 118)]), 2))
        if rng.random() < special:
            if i == 2:
                p[1] = p[0]
            elif i == 3:
                p[1] = p[0] * math.sqrt(3) if rng.random() < 0.6 else p[0]
            elif i == 5:
                p[1] = p[0]
                p[2] = rng.choice([60.0, 90.0, 120.0])
        return [i, p]
    p = [L() for _ in range(NLEN[i - 1])]
    ang = lambda: round(rng.choice([rng.uniform(72, 86), rng.uniform(94, 106)]), 2)
    if i == 5:
        p.append(round(rng.uniform(50, 86) if rng.random() < 0.6 else rng.uniform(94, 108), 2))
    if i in (12, 13):
        p.append(ang())
    if i == 14:
        p += [ang(), ang(), ang()]
    if rng.random() < special:
        if i == 9:
            p[1] = p[0] * math.sqrt(3)
        elif i in (6, 7):
            p[1] = p[0]
        elif i in (8, 10, 11):
            p[1] = p[0]
        elif i == 5:
            p[1] = rng.choice([60.0, 90.0])
        elif i == 12:
            p[2], p[3] = p[0], 90.0
    return [i, p]


def base(img, spec, dim=3):
    return np.array(img.BravaisLattice(spec[0], list(spec[1]), dim=dim).base(), float)


def ok_lattice(img, spec, dim=3):
    try:
        E = base(img, spec, dim)
        if not np.all(np.isfinite(E)) or abs(la.det(E)) < 0.05:
            return False
        ref.point(E)
        return la.cond(E) < 20
    except ref.Ambiguous:
        return False


def lattice(rng, img, dim=3, **k):
    while True:
        s = bravais(rng, dim, **k)
        if ok_lattice(img, s, dim):
            return s


def scaled(spec, f, dim=3):
    n = (NLEN if dim == 3 else NLEN2)[spec[0] - 1]
    return [spec[0], [round(x * f, 4) for x in spec[1][:n]] + list(spec[1][n:])]


def pair(rng, img, ratios=(1, 1, 2, 2, 3, 4), dim=3, spread=0.06, cond=6.0, ids=None):
    """two lattice specs whose cell volumes have about the wanted ratio"""
    while True:
        a = lattice(rng, img, dim, special=0.15, ids=ids)
        m = lattice(rng, img, dim, special=0.15, ids=ids)
        k = rng.choice(ratios) * (1 + rng.uniform(-spread, spread))
        EA, EM = base(img, a, dim), base(img, m, dim)
        m = scaled(m, (k * la.det(EA) / la.det(EM)) ** (1. / dim), dim)
        if not ok_lattice(img, m, dim):
            continue
        EM = base(img, m, dim)
        if la.cond(EA) > cond or la.cond(EM) > cond or la.det(EA) <= 0 or la.det(EM) <= 0:
            continue
        return a, m


def stretch(rng):
    """symmetric positive definite stretch tensor of a random symmetry type (list of lists)"""
    k = rng.choice(["tet", "ortho", "ortho110", "mono", "mono110", "tri", "rhomb", "near"])
    u = lambda: round(rng.uniform(0.88, 1.14), 4)
    o = lambda: round(rng.choice([-1, 1]) * rng.uniform(0.02, 0.09), 4)
    if k == "tet":
        a, c = u(), u()
        d = [a, a, c]
        rng.shuffle(d)
        U = np.diag(d)
    elif k == "ortho":
        U = np.diag([u(), u(), u()])
    elif k == "ortho110":
        a, b, c = u(), o(), u()
        U = np.array([[a, b, 0], [b, a, 0], [0, 0, c]])
    elif k == "mono":
        a, b, c, d = u(), o(), u(), u()
        U = np.array([[a, b, 0], [b, c, 0], [0, 0, d]])
    elif k == "mono110":
        a, b, c, d = u(), o(), o(), u()
        U = np.array([[a, b, c], [b, a, c], [c, c, d]])
    elif k == "rhomb":
        a, b = u(), o()
        U = np.array([[a, b, b], [b, a, b], [b, b, a]])
    elif k == "near":
        a = u()
        b = o()
        e = round(rng.uniform(0.004, 0.01), 4)
        U = np.array([[a, b, 0], [b, a + e, 0], [0, 0, u()]])
    else:
        a, b, c = o(), o(), o()
        U = np.array([[u(), a, b], [a, u(), c], [b, c, u()]])
    if rng.random() < 0.4:
        P = ref.CUBIC[rng.randrange(24)]
        U = P.dot(U).dot(P.T)
    return (np.round(U, 6) + 0.0).tolist()
