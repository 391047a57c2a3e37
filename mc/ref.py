"""Reference models, written from the theory page; plain and independent of dreimac."""
import functools
import itertools

import numpy as np

TOL = 1e-4  # lsqr stops at a relative tolerance of 1e-6


# ----------------------------------------------------------------------------- landmarks
def maxmin(D, n):
    """Farthest point sampling of a full distance matrix from point 0, first maximiser."""
    idx = [0]
    ds = D[0].astype(float).copy()
    for _ in range(1, n):
        i = int(np.argmax(ds))
        idx.append(i)
        ds = np.minimum(ds, D[i])
    return idx


def pdist(X, Y=None):
    Y = X if Y is None else Y
    return np.sqrt(((X[:, None, :].astype(float) - Y[None, :, :].astype(float)) ** 2).sum(-1))


# ----------------------------------------------------------------------------- bumps
def bump(name, d, r):
    d = np.asarray(d, float)
    if name == "linear":
        return r - d
    if name == "quadratic":
        return (r - d) ** 2
    if name == "exp":
        return np.exp(r * r / (d * d - r * r))
    raise KeyError(name)


def partition(dist, r, name):
    """(varphi, covered, balls): weights, mask of covered points, list of ball indices per point."""
    U = dist < r
    phi = np.zeros(dist.shape)
    phi[U] = bump(name, dist[U], r)
    s = phi.sum(0)
    covered = U.any(0)
    ok = s > 0
    v = np.full(dist.shape, np.nan)
    v[:, ok] = phi[:, ok] / s[ok]
    return v, covered, U


# ----------------------------------------------------------------------------- complexes
class Complex:
    """Clique complex of the edges strictly shorter than thr, up to dimension 3."""

    def __init__(self, n, edges):
        self.n = n
        self.edges = sorted(set(edges))
        self.ei = {e: i for i, e in enumerate(self.edges)}
        self.after = [set() for _ in range(n)]  # larger neighbours
        for a, b in self.edges:
            self.after[a].add(b)
        self.comp = self._components()

    @functools.cached_property
    def tri(self):
        return [(a, b, c) for a, b in self.edges for c in sorted(self.after[a] & self.after[b])]

    @functools.cached_property
    def tet(self):
        A = self.after
        return [(a, b, c, d) for a, b, c in self.tri for d in sorted(A[a] & A[b] & A[c])]

    @functools.cached_property
    def ti(self):
        return {t: i for i, t in enumerate(self.tri)}

    def _components(self):
        c = list(range(self.n))
        for a, b in self.edges:
            x, y = c[a], c[b]
            if x != y:
                c = [x if z == y else z for z in c]
        return np.array(c)

    @functools.cached_property
    def d0(self):
        A = np.zeros((len(self.edges), self.n))
        for i, (a, b) in enumerate(self.edges):
            A[i, b] += 1
            A[i, a] -= 1
        return A

    @functools.cached_property
    def d1(self):
        A = np.zeros((len(self.tri), len(self.edges)))
        for i, (a, b, c) in enumerate(self.tri):
            A[i, self.ei[b, c]] += 1
            A[i, self.ei[a, c]] -= 1
            A[i, self.ei[a, b]] += 1
        return A

    @functools.cached_property
    def d2(self):
        A = np.zeros((len(self.tet), len(self.tri)))
        for i, (a, b, c, d) in enumerate(self.tet):
            A[i, self.ti[b, c, d]] += 1
            A[i, self.ti[a, c, d]] -= 1
            A[i, self.ti[a, b, d]] += 1
            A[i, self.ti[a, b, c]] -= 1
        return A

    @functools.cached_property
    def pinv0(self):
        return np.linalg.pinv(self.d0, rcond=1e-10)

    @functools.cached_property
    def pinv1(self):
        return np.linalg.pinv(self.d1, rcond=1e-10)

    @functools.cached_property
    def h1(self):
        return cohomology_generators(self.d1, self.d0)

    @functools.cached_property
    def h2(self):
        return cohomology_generators(self.d2, self.d1)


@functools.lru_cache(maxsize=4096)
def _complex(n, edges):
    return Complex(n, edges)


def rips(D, thr):
    n = len(D)
    edges = tuple(map(tuple, np.argwhere(np.triu(np.asarray(D) < thr, 1)).tolist()))
    return _complex(n, edges) if n <= 40 else Complex(n, edges)


def perm_sign(v):
    s = 1
    v = list(v)
    for i in range(len(v)):
        for j in range(i + 1, len(v)):
            if v[i] > v[j]:
                s = -s
    return s


def cocycle_dict(cocycle):
    """Sparse representative (rows v0..vk, value) -> {sorted tuple: signed value}."""
    out = {}
    for row in np.asarray(cocycle).tolist():
        v, x = row[:-1], row[-1]
        out[tuple(sorted(v))] = perm_sign(v) * x
    return out


def sym_lift(x, p):
    x %= p
    return x - p if x > (p - 1) / 2 else x


def vec(cd, simplices):
    return np.array([cd.get(s, 0) for s in simplices], dtype=np.int64)


# ----------------------------------------------------------------------------- integers
def hnf(A):
    """Column echelon form over Z: (H, U, pivots) with H = A U, U unimodular (lists of columns)."""
    m, n = len(A), len(A[0]) if len(A) else 0
    H = [[int(A[i][j]) for i in range(m)] for j in range(n)]
    U = [[1 if i == j else 0 for i in range(n)] for j in range(n)]
    piv, c = [], 0
    for i in range(m):
        while True:
            nz = [j for j in range(c, n) if H[j][i]]
            if not nz:
                break
            k = min(nz, key=lambda j: abs(H[j][i]))
            H[c], H[k] = H[k], H[c]
            U[c], U[k] = U[k], U[c]
            done = True
            for j in range(c + 1, n):
                q = H[j][i] // H[c][i]
                if q:
                    H[j] = [a - q * b for a, b in zip(H[j], H[c])]
                    U[j] = [a - q * b for a, b in zip(U[j], U[c])]
                if H[j][i]:
                    done = False
            if done:
                piv.append((i, c))
                c += 1
                break
    return H, U, piv


def int_solve(A, b, factors=None):
    """(particular solution or None, kernel basis as list of vectors) of A x = b over Z."""
    A = np.asarray(A)
    m, n = A.shape
    if n == 0:
        return (np.zeros(0, dtype=np.int64) if not np.any(b) else None), []
    if m == 0:
        return np.zeros(n, dtype=np.int64), [np.eye(n, dtype=np.int64)[i] for i in range(n)]
    H, U, piv = factors or hnf(A.astype(np.int64).tolist())
    ker = [np.array(U[j], dtype=np.int64) for j in range(len(piv), n)]
    r = [int(x) for x in b]
    y = [0] * n
    for i, c in piv:
        if r[i] % H[c][i]:
            return None, ker
        y[c] = r[i] // H[c][i]
        if y[c]:
            r = [a - y[c] * h for a, h in zip(r, H[c])]
    if any(r):
        return None, ker
    x = np.zeros(n, dtype=np.int64)
    for c in range(len(piv)):
        if y[c]:
            x += y[c] * np.array(U[c], dtype=np.int64)
    return x, ker


def snf_diag_left(M):
    """Diagonalise M (k x e) by unimodular row and column operations: (diag, R) with R M C = diag."""
    k, e = len(M), len(M[0]) if len(M) else 0
    M = [list(map(int, r)) for r in M]
    R = [[1 if i == j else 0 for j in range(k)] for i in range(k)]
    d, t = [], 0
    while t < min(k, e):
        nz = [(abs(M[i][j]), i, j) for i in range(t, k) for j in range(t, e) if M[i][j]]
        if not nz:
            break
        _, i, j = min(nz)
        M[t], M[i] = M[i], M[t]
        R[t], R[i] = R[i], R[t]
        for row in M:
            row[t], row[j] = row[j], row[t]
        clean = True
        for i in range(t + 1, k):
            q = M[i][t] // M[t][t]
            if q:
                M[i] = [a - q * b for a, b in zip(M[i], M[t])]
                R[i] = [a - q * b for a, b in zip(R[i], R[t])]
            clean &= M[i][t] == 0
        for j in range(t + 1, e):
            q = M[t][j] // M[t][t]
            if q:
                for row in M:
                    row[j] -= q * row[t]
            clean &= M[t][j] == 0
        if clean:
            d.append(abs(M[t][t]))
            t += 1
    return d, R


def int_inverse(R):
    n = len(R)
    A = np.rint(np.linalg.inv(np.array(R, dtype=float))).astype(np.int64)
    assert np.array_equal(np.array(R) @ A, np.eye(n, dtype=np.int64))
    return A


def cohomology_generators(dn, dm):
    """[(cocycle vector, order)] generating ker dn / im dm over Z; order 0 for infinite."""
    _, K = int_solve(dn, np.zeros(dn.shape[0], dtype=np.int64))
    if not K:
        return []
    K = np.array(K).T  # columns: saturated basis of the kernel
    Y = []
    factors = hnf(K.tolist())
    for j in range(dm.shape[1]):
        y, _ = int_solve(K, dm[:, j].astype(np.int64), factors)
        assert y is not None
        Y.append(y)
    M = np.array(Y).T.tolist() if Y else [[] for _ in range(K.shape[1])]
    d, R = snf_diag_left(M)
    Ri = int_inverse(R)
    gens = []
    for i in range(K.shape[1]):
        order = d[i] if i < len(d) else 0
        if order != 1:
            gens.append((K @ Ri[:, i], order))
    return gens


def lifts(cvec, dn, gens, p, check=True, span=2):
    """Integer cocycles the construction may use for a mod-p cocycle given on the complex.

    The symmetric lift if it is a cocycle (or if checking is off); otherwise every corrected lift
    within `span` of one of them in the free cohomology.  None if there is no lift.
    gens() gives the integer cohomology."""
    c = np.array([sym_lift(int(x), p) for x in cvec], dtype=np.int64)
    dc = np.rint(dn @ c).astype(np.int64) if dn.shape[0] else np.zeros(0, np.int64)
    if not check or not dc.any():
        if p > 2:
            return [c]
        x0 = np.zeros(len(c), dtype=np.int64)
    else:
        assert not (dc % p).any(), "representative is not a cocycle mod p"
        x0, _ = int_solve(dn, dc // p)
        if x0 is None:
            return None
    gens = gens()
    free = [g for g, o in gens if o == 0]
    tors = [g for g, o in gens if o > 1]
    if len(free) > 2:
        span = 1
    out = []
    rng = sorted(range(-span, span + 1), key=abs)
    for m in itertools.product(rng, repeat=min(len(free), 4)):
        out.append(c - p * (x0 + sum((k * g for k, g in zip(m, free)), np.zeros(len(c), np.int64))))
    if tors:
        out += [o - p * t for o in out[:9] for t in tors]
    return out


# ----------------------------------------------------------------------------- persistence
class Persistence:
    """The landmarks' persistence computed by ripser directly, listed by decreasing persistence.

    X is what the user passes; landmark positions are those of our own maxmin subsample."""

    def __init__(self, X, n_landmarks, dm, prime, maxdim, raw_ripser):
        X = np.asarray(X)
        L = X.shape[0]
        full = X if not dm else X[:, :L]
        D = pdist(full) if not dm else full.astype(float)
        n = min(n_landmarks, L)
        self.idx = np.array(maxmin(D, n)) if n < L else np.arange(L)
        self.n = n
        if not dm:
            self.dist = D[self.idx]
        else:
            self.dist = np.asarray(X, float)[self.idx]
        self.D = D[np.ix_(self.idx, self.idx)]
        res = raw_ripser(full, distance_matrix=dm, coeff=prime, maxdim=maxdim,
                         n_perm=n_landmarks, do_cocycles=True)
        assert len(res["idx_perm"]) == n
        pos = {int(v): i for i, v in enumerate(self.idx)}
        self.same_landmarks = [int(v) for v in res["idx_perm"]] == [int(v) for v in self.idx]
        self.classes = []
        for d in range(maxdim + 1):
            lst = []
            for (b, e), c in zip(res["dgms"][d], res["cocycles"][d] if d else [None] * len(res["dgms"][d])):
                cc = None
                if c is not None:
                    cc = {}
                    for row in c.tolist():
                        v = [pos[x] for x in row[:-1]]
                        cc[tuple(sorted(v))] = perm_sign(v) * row[-1]
                lst.append((float(b), float(e), cc))
            lst.sort(key=lambda t: -(t[1] - t[0]))
            self.classes.append(lst)
        self.prime, self.dm = prime, dm

    def candidates(self, dim, birth, death):
        """Representatives of the classes with these end points."""
        return [c for b, e, c in self.classes[dim] if b == birth and e == death]


def circ_err(x):
    """Distance to the nearest integer."""
    return np.abs(x - np.rint(x))


# ----------------------------------------------------------------------------- circle
def potential(K, c):
    """Least squares potential of an integer 1-cocycle (theta = c - delta tau, delta = +1 at i, -1 at j)."""
    return -K.pinv0 @ c


def antisym(K, c):
    M = np.zeros((K.n, K.n))
    for (a, b), x in zip(K.edges, c):
        M[a, b], M[b, a] = x, -x
    return M


def circular_values(K, c, varphi, U, tau=None):
    """Values in turns of the harmonic map of the integer cocycle c at the covered points (from the
    last ball), and the largest discrepancy modulo one turn between the balls."""
    tau = potential(K, c) if tau is None else tau
    M = antisym(K, c) + tau[None, :]
    V = np.where(np.isnan(varphi), 0.0, varphi)
    vals = M @ V  # row j: value computed from ball j
    last = K.n - 1 - np.argmax(U[::-1], 0)
    v = vals[last, np.arange(V.shape[1])]
    disc = float(circ_err((vals - v[None, :])[U]).max()) if U.any() else 0.0
    return v, disc


def rotation_error(got_turns, want_turns, comp_of_point):
    """Largest deviation modulo one turn after the best-matching rotation per component."""
    err = 0.0
    for c in np.unique(comp_of_point):
        m = comp_of_point == c
        d = got_turns[m] - want_turns[m]
        d = d - d[0]
        err = max(err, float(circ_err(d).max()))
    return err


def is_clique_system(K, U):
    """Every set of balls with a common data point spans a simplex."""
    E = K.ei
    for col in np.unique(U, axis=1).T:
        v = np.flatnonzero(col)
        for a, b in itertools.combinations(v.tolist(), 2):
            if (a, b) not in E:
                return False
    return True
