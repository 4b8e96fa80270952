"""Independent executable references (nothing here imports the library)."""
import itertools, math
import numpy as np
la = np.linalg


class Ambiguous(Exception):
    """input lies so close to a tolerance that right and wrong cannot be told apart; not used"""


# ------------------------------------------------------------------ rotations
def cubic24():
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            Q = np.zeros((3, 3))
            for i in range(3):
                Q[i, p[i]] = s[i]
            if la.det(Q) > 0:
                out.append(Q)
    return out


def hex12():
    out = []
    for k in range(6):
        t = k * math.pi / 3
        c, s = math.cos(t), math.sin(t)
        out.append(np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.]]))
        out.append(np.array([[c, s, 0], [s, -c, 0], [0, 0, -1.]]))
    return out


def plane(n, ext):
    out = []
    for k in range(n):
        t = 2 * math.pi * k / n
        c, s = math.cos(t), math.sin(t)
        out.append(np.array([[c, -s], [s, c]]))
        if ext:
            out.append(np.array([[c, s], [s, -c]]))
    return out


CUBIC, HEX = cubic24(), hex12()
SQ, SQX, HX, HXX = plane(4, 0), plane(4, 1), plane(6, 0), plane(6, 1)
LO, HI = 1e-9, 1.5e-4


def int_residual(A):
    return float(np.max(np.abs(A - np.rint(A))))


def preserves(E, Q):
    """does Q map the lattice E onto itself"""
    r = int_residual(la.inv(E).dot(Q).dot(E))
    if LO < r < HI:
        raise Ambiguous()
    return r <= LO


def preserving(E, group):
    """those of the group that map the lattice onto itself"""
    G = np.array(group)
    X = np.matmul(np.matmul(la.inv(E), G), E)
    out = []
    for Q, r in zip(group, np.abs(X - np.rint(X)).reshape(len(G), -1).max(1).tolist()):
        if LO < r < HI:
            raise Ambiguous()
        if r <= LO:
            out.append(Q)
    return out


def laue(E):
    """rotations (cubic or hexagonal setting) that preserve the lattice"""
    E = np.array(E, float)
    a, b = (CUBIC, HEX) if len(E) == 3 else (SQ, HX)
    ga, gb = preserving(E, a), preserving(E, b)
    return gb if len(gb) > len(ga) else ga


def point(E):
    E = np.array(E, float)
    if len(E) == 3:
        g = laue(E)
        return g + [-Q for Q in g]
    ga, gb = preserving(E, SQX), preserving(E, HXX)
    return gb if len(gb) > len(ga) else ga


def lattice_rep(E, group):
    E = np.array(E, float)
    Ei = la.inv(E)
    return [np.rint(Ei.dot(Q).dot(E)).astype(int) for Q in group]


def key(M, nd=6):
    return tuple((np.round(np.array(M, float), nd) + 0.0).ravel().tolist())


def group_problem(mats, want, name):
    """None, or how the returned set of matrices differs from the wanted group"""
    got = [key(m) for m in mats]
    w = [key(m) for m in want]
    if len(set(got)) != len(got):
        return "%s lists an operation twice (%d entries, %d distinct)" % (name, len(got), len(set(got)))
    if set(got) != set(w):
        return "%s has %d operations, the lattice has %d (%d missing, %d wrong)" % (
            name, len(got), len(w), len(set(w) - set(got)), len(set(got) - set(w)))
    return None


# ------------------------------------------------------------------ correspondences
def cauchy(L, EA, EM):
    F = EA.dot(L).dot(la.inv(EM))
    C = F.dot(F.T) - np.eye(len(EA))
    return float(np.sum(C * C))


def ericksen(L, EA, EM):
    B = EA.dot(L)
    M = B.T.dot(B) - EM.T.dot(EM)
    g2 = EM.T.dot(EM)
    return float(np.sum(M * M) / np.sum(g2 * g2))


def strain(L, EA, EM):
    s = la.svd(EA.dot(L).dot(la.inv(EM)), compute_uv=False)
    return float(np.sum((s - 1) ** 2))


DIST = {"Cauchy": cauchy, "Ericksen": ericksen, "strain": strain}


class Classes:
    """canonical representative of a correspondence under both symmetry groups"""

    def __init__(self, GA, GM):
        self.A = np.array(GA, dtype=np.int64)
        self.M = np.array(GM, dtype=np.int64)
        self.n = self.A.shape[1]
        self.cache = {}

    def canon(self, L):
        L = np.array(np.rint(L), dtype=np.int64)
        k = tuple(L.ravel().tolist())
        c = self.cache.get(k)
        if c is None:
            AL = np.matmul(self.A, L)                                   # (a,n,n)
            X = np.matmul(AL[:, None, :, :], self.M[None, :, :, :])     # (a,m,n,n)
            X = X.reshape(-1, self.n * self.n)
            c = min(map(tuple, X.tolist()))
            self.cache[k] = c
        return c


def record_problem(sol, EA, EM, CA, CM, h=None, tol=1e-6):
    """a solution's correspondence, stretch and principal stretches must describe its own L"""
    n = len(EA)
    for f in ("l", "d", "cor", "u", "lams") + (() if h is None else ("h",)):
        if f not in sol:
            return "solution has no field %r" % f
    L = np.array(sol["l"], float).reshape(n, n)
    T = L if h is None else np.array(h, float).dot(L)
    cor = la.inv(CA).dot(T).dot(CM)
    if np.max(np.abs(cor - np.array(sol["cor"], float))) > tol:
        return "reported correspondence does not match the solution"
    F = EM.dot(la.inv(EA.dot(T)))
    C = F.T.dot(F)
    U = np.array(sol["u"])
    if np.max(np.abs(U.dot(U) - C)) > tol * (1 + np.max(np.abs(C))):
        return "reported stretch tensor does not match the correspondence"
    w = np.sqrt(np.sort(la.eigvalsh((C + C.T) / 2)))
    lam = np.array(sol["lams"], float)
    if lam.shape != w.shape or np.max(np.abs(lam - w)) > tol * (1 + w[-1]):
        return "reported principal stretches do not match the correspondence"
    return None


def topn_problem(ret, universe, nsol, complete=True):
    """ret, universe: [(class key, d)] ; universe may repeat classes"""
    best = {}
    for k, d in universe:
        best[k] = min(d, best.get(k, d))
    seen = set()
    prev = -1.0
    for k, d in ret:
        if k not in best:
            return "returns a correspondence nobody reported"
        if abs(d - best[k]) > 1e-8 * (1 + abs(d)):
            return "returned distance %.9g is not the correspondence's distance %.9g" % (d, best[k])
        if k in seen:
            return "returns two symmetry-equivalent correspondences (d = %.9g)" % d
        seen.add(k)
        if d < prev - 1e-12:
            return "solutions are not in ascending order"
        prev = d
    m = min(nsol, len(best))
    if len(ret) < m:
        return "returns %d solutions, %d exist" % (len(ret), m)
    if m == 0:
        return None
    cut = sorted(best.values())[m - 1]
    tol = 1e-9 * (1 + abs(cut))
    miss = [d for k, d in best.items() if d < cut - tol and k not in seen]
    if miss:
        return "misses a correspondence with distance %.9g although the worst returned has %.9g" % (min(miss), ret[-1][1])
    if ret[-1][1] > cut + tol:
        return "returns distance %.9g, a better correspondence with %.9g is left out" % (ret[-1][1], cut)
    return None


# ------------------------------------------------------------------ sublattices
def hnf(A):
    """canonical lower-triangular basis of the column lattice of integer matrix A"""
    A = [[int(round(float(x))) for x in r] for r in np.array(A)]
    n = len(A)
    cols = [[A[i][j] for i in range(n)] for j in range(n)]
    for i in range(n):
        while True:
            nz = [j for j in range(i, n) if cols[j][i] != 0]
            if not nz:
                raise ValueError("singular")
            p = min(nz, key=lambda j: abs(cols[j][i]))
            cols[i], cols[p] = cols[p], cols[i]
            rest = [j for j in range(i + 1, n) if cols[j][i] != 0]
            if not rest:
                break
            for j in rest:
                q = cols[j][i] // cols[i][i]
                cols[j] = [a - q * b for a, b in zip(cols[j], cols[i])]
        if cols[i][i] < 0:
            cols[i] = [-a for a in cols[i]]
        for j in range(i):
            q = cols[j][i] // cols[i][i]
            cols[j] = [a - q * b for a, b in zip(cols[j], cols[i])]
    return tuple(tuple(cols[j][i] for j in range(n)) for i in range(n))


def sublattices(index, n=3):
    out = []

    def diags(k, rem):
        if k == 1:
            yield (rem,)
            return
        for d in range(1, rem + 1):
            if rem % d == 0:
                for t in diags(k - 1, rem // d):
                    yield (d,) + t
    for dg in diags(n, index):
        slots = [(i, j) for i in range(n) for j in range(i)]
        for vals in itertools.product(*[range(dg[i]) for i, j in slots]):
            H = [[0] * n for _ in range(n)]
            for i in range(n):
                H[i][i] = dg[i]
            for (i, j), v in zip(slots, vals):
                H[i][j] = v
            out.append(tuple(map(tuple, H)))
    return out


def orbit_reps(G, index, n=3):
    """{canonical sublattice: class number}"""
    cls = {}
    k = 0
    Gi = [np.array(M, dtype=np.int64) for M in G]
    for H in sublattices(index, n):
        if H in cls:
            continue
        Hm = np.array(H, dtype=np.int64)
        for M in Gi:
            cls[hnf(M.dot(Hm))] = k
        k += 1
    return cls, k


def admissible(r, vol_th):
    lo, hi = (1 - vol_th) * r, (1 + vol_th) * r
    for x in (lo, hi):
        if abs(x - round(x)) < 1e-6:
            raise Ambiguous()
    v = list(range(int(math.ceil(lo)), int(math.floor(hi)) + 1))
    v = [k for k in v if k > 0]
    if not v:
        if abs(r - math.floor(r) - 0.5) < 1e-6:
            raise Ambiguous()
        v = [max(1, int(math.floor(r + 0.5)))]
    return v


# ------------------------------------------------------------------ direct search: exact optimum
def short_vectors(B, bound):
    """all integer x with |B x|^2 <= bound (Fincke-Pohst)"""
    R = la.qr(B)[1]
    n = len(R)
    R = [[float(R[i, j]) for j in range(n)] for i in range(n)]
    x = [0] * n
    out = []

    def rec(i, left):
        if i < 0:
            out.append(tuple(x))
            return
        s = 0.0
        Ri = R[i]
        for j in range(i + 1, n):
            s += Ri[j] * x[j]
        c = -s / Ri[i]
        w = math.sqrt(max(left, 0.0)) / abs(Ri[i])
        for v in range(int(math.ceil(c - w - 1e-9)), int(math.floor(c + w + 1e-9)) + 1):
            x[i] = v
            t = Ri[i] * v + s
            rest = left - t * t
            if rest >= -1e-9:
                rec(i - 1, rest)
        x[i] = 0
    rec(n - 1, bound)
    return out


def all_within(EA, EM, dmax):
    """every invertible integer L with Cauchy distance <= dmax"""
    n = len(EA)
    EMi = la.inv(EM)
    B = np.kron(EA, EMi.T)                       # vec_r(EA L EMi)
    bound = n + math.sqrt(n * max(dmax, 0.0)) + 1e-9
    out = []
    for v in short_vectors(B, bound):
        L = np.array(v, dtype=np.int64).reshape(n, n)
        if n == 2:
            det = v[0] * v[3] - v[1] * v[2]
        else:
            det = (v[0] * (v[4] * v[8] - v[5] * v[7]) - v[1] * (v[3] * v[8] - v[5] * v[6])
                   + v[2] * (v[3] * v[7] - v[4] * v[6]))
        if det == 0:
            continue
        d = cauchy(L, EA, EM)
        if d <= dmax + 1e-9 * (1 + dmax):
            out.append((L, d))
    return out


# ------------------------------------------------------------------ variants and twins
def same(A, B, lo=1e-9, hi=1.5e-4):
    r = float(np.max(np.abs(A - B)))
    if lo < r < hi:
        raise Ambiguous()
    return r <= lo


def variants(U, mats):
    """orbit of U (U first, then in order of first appearance) and per-variant operation indices"""
    vs, idx = [U], [[]]
    G = np.array(mats)
    for i, V in enumerate(np.matmul(np.matmul(G, U), G.transpose(0, 2, 1))):
        for j, r in enumerate(np.abs(np.array(vs) - V).reshape(len(vs), -1).max(1).tolist()):
            if 1e-9 < r < 1.5e-4:
                raise Ambiguous()
            if r <= 1e-9:
                idx[j].append(i)
                break
        else:
            vs.append(V)
            idx.append([i])
    return vs, idx


def twinnable(Ui, Uj):
    if same(Ui, Uj):
        return False
    X = Uj.dot(la.inv(Ui))
    e = np.sort(la.eigvalsh(X.T.dot(X)))[1]
    r = abs(e - 1)
    if 3e-3 < r < 8e-3:
        raise Ambiguous()
    return bool(r < 5e-3)


def conventional(Ui, Uj, mats):
    G = np.array(mats)
    for r in np.abs(np.matmul(np.matmul(G, Ui), G.transpose(0, 2, 1)) - Uj).reshape(len(G), -1).max(1).tolist():
        if 1e-13 < r < 1e-9:
            raise Ambiguous()
        if r < 1e-12:
            return True
    return False


def compound(Ui, Uj, two):
    """True/False for a pair related by a known two-fold rotation, None otherwise.  A second two-fold
    rotation relates the pair exactly when the axis is normal to a principal direction of Ui."""
    for Q in two:
        if np.max(np.abs(Q.dot(Ui).dot(Q.T) - Uj)) < 1e-10:
            e = la.eigh(Q)[1][:, -1]
            lam, W = la.eigh(Ui)
            if min(lam[1] - lam[0], lam[2] - lam[1]) < 1e-9:
                return True
            m = min(abs(float(W[:, k].dot(e))) for k in range(3))
            if 1e-9 < m < 1e-4 or min(lam[1] - lam[0], lam[2] - lam[1]) < 1e-4:
                raise Ambiguous()
            return m <= 1e-9
    return None
