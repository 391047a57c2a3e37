import numpy as np

from mc.env import dreimac
from mc.engine import Scenario

ASSUMPTIONS = [
    "rounding: 1e-7; points within 1e-7 of the boundary sphere count as boundary points",
    "on the boundary sphere points are compared up to the identification of the two hemispheres",
]
f = dreimac.LensMapUtils.lens_3D_to_disk_3D
TOL = 1e-7


def same(Y, u, q, tol=TOL):
    """Which of the image points Y equal u in the quotient of the ball."""
    eq = np.abs(Y - u).max(1) < tol
    if np.linalg.norm(u) < 1 - TOL:
        return eq
    for s in (1, -1):
        c, n = np.cos(2 * np.pi * s / q), np.sin(2 * np.pi * s / q)
        v = np.array([c * u[0] - n * u[1], n * u[0] + c * u[1], -u[2]])
        # the lower hemisphere (s = 1: z < 0) is glued to the upper one after a rotation
        if s * u[2] <= tol:
            eq |= np.abs(Y - v).max(1) < 10 * tol
    if abs(u[2]) < 1e-3:  # the equator: all multiples of the rotation
        for k in range(q):
            c, n = np.cos(2 * np.pi * k / q), np.sin(2 * np.pi * k / q)
            v = np.array([c * u[0] - n * u[1], n * u[0] + c * u[1]])
            eq |= (np.abs(Y[:, :2] - v).max(1) < 10 * tol) & (np.abs(np.abs(Y[:, 2]) - abs(u[2])) < 10 * tol) & (abs(u[2]) < TOL)
    return eq


def points(q, rs, na, nb, shift):
    """Grid of S^3: radii of the second coordinate, na angles per sector for the first, nb in all for the second."""
    al = 2 * np.pi / q * (np.arange(na * q) + shift) / na
    be = 2 * np.pi * np.arange(nb) / nb
    out = [(np.sqrt(1 - r * r) * np.exp(1j * a), r * np.exp(1j * b)) for r in rs for a in (al if r < 1 else [0.0])
           for b in (be if r > 0 else [0.0])]
    return np.array(out, complex)


def basic(ctx, X, q):
    X0 = X.copy()
    Y = ctx.call(f, X, q)
    ctx.check(np.array_equal(X, X0), "the argument was modified")
    ctx.check(isinstance(Y, np.ndarray) and Y.shape == (len(X), 3) and np.isrealobj(Y), "not a list of points of R^3")
    ctx.check(bool(np.isfinite(Y).all()), "not finite: %s", Y[~np.isfinite(Y).all(1)][:1].tolist())
    ctx.check(np.linalg.norm(Y, axis=1).max() <= 1 + 1e-9, "outside the ball: norm %.12f", np.linalg.norm(Y, axis=1).max())
    return Y


def roots(primes, rs, na, nb):
    def driver(ctx):
        q = ctx.choose("q", primes)
        r = ctx.choose("r", rs)
        shift = ctx.choose("shift", [0.0, 0.3, 1e-9, 0.5])
        b = ctx.choose("b", list(range(nb)))
        A = points(q, [r], na, nb, shift)
        A = A[b :: nb] if r > 0 else A
        if not len(A):
            ctx.prune()
        base = basic(ctx, A, q)
        for k in range(1, q):
            w = np.exp(2j * np.pi * k / q)
            Y = basic(ctx, A * w, q)
            for i in range(len(A)):
                ctx.check(bool(same(Y[i : i + 1], base[i], q)[0]),
                          "q = %d: %s is sent to %s, times the root of unity number %d to %s", q, A[i].tolist(),
                          base[i].tolist(), k, Y[i].tolist())
        one = basic(ctx, A[:1], q)
        ctx.check(np.abs(one[0] - base[0]).max() < 1e-12, "the image depends on the other points")
        ctx.state(q, r, shift, b)
        ctx.outcome(np.round(base, 5))

    return driver


def distinct(primes, rs, na, nb):
    """No two different points of the lens space have the same image."""

    def driver(ctx):
        q = ctx.choose("q", primes)
        shift = ctx.choose("shift", [0.0, 0.25])
        X = points(q, rs, na, nb, shift)
        i = ctx.choose("point", list(range(0, len(X))))
        Y = images(ctx, X, q, (q, shift, len(X)))
        w = np.exp(2j * np.pi * np.arange(q) / q)
        d = np.min([np.abs(X * z - X[i]).max(1) for z in w], axis=0)
        eq = same(Y, Y[i], q)
        for j in np.flatnonzero(eq != (d < 1e-7))[:1]:
            ctx.check(False, "q = %d: %s and %s are %s points of the lens space, their images are %s and %s", q,
                      X[i].tolist(), X[j].tolist(), "different" if eq[j] else "equal", Y[i].tolist(), Y[j].tolist())
        ctx.state(q, shift, i)
        ctx.outcome(np.round(Y[i], 5))

    return driver


_IMG = {}


def images(ctx, X, q, key):
    if key not in _IMG:
        _IMG.clear()
        _IMG[key] = basic(ctx, X, q)
    return _IMG[key]


def continuity(primes, rs, na, nb):
    def driver(ctx):
        q = ctx.choose("q", primes)
        r = ctx.choose("r", rs)
        shift = ctx.choose("shift", [0.0, 0.5])
        X = points(q, [r], na, nb, shift)
        Y = basic(ctx, X, q)
        h = ctx.choose("step", [1e-6, -1e-6])
        how = ctx.choose("direction", ["first angle", "second angle", "radius"])
        a, b = X[:, 0], X[:, 1]
        if how == "first angle":
            Z = np.stack([a * np.exp(1j * h), b], 1)
        elif how == "second angle":
            Z = np.stack([a, b * np.exp(1j * h)], 1)
        else:
            s = r + h
            if not 0 <= s <= 1 or r in (0.0, 1.0):
                ctx.prune()
            Z = np.stack([a / np.abs(a) * np.sqrt(1 - s * s), b / np.abs(b) * s], 1)
        W = basic(ctx, Z, q)
        inner = np.linalg.norm(Y, axis=1) < 1 - 1e-4
        jump = np.abs(W - Y).max(1) * inner
        j = int(np.argmax(jump))
        ctx.check(jump[j] < 1e-3, "q = %d: the image jumps from %s to %s near %s", q, Y[j].tolist(), W[j].tolist(), X[j].tolist())
        ctx.state(q, r, shift, h, how)
        ctx.outcome(np.round(Y, 4))
        ctx.note("inner_points", int(inner.sum()))

    return driver


def many(sizes, primes):
    def driver(ctx):
        n, q = ctx.choose("n", sizes), ctx.choose("q", primes)
        i = np.arange(1, n + 1)
        r = np.sqrt(np.mod(i * np.sqrt(2), 1))
        X = np.stack([np.sqrt(1 - r * r) * np.exp(1j * i * np.sqrt(3)), r * np.exp(1j * i * np.sqrt(5))], 1)
        Y = basic(ctx, X, q)
        w = np.exp(2j * np.pi / q * ctx.choose("root", [1, q // 2 + 1, q - 1]))
        Z = basic(ctx, X * w, q)
        inner = np.linalg.norm(Y, axis=1) < 1 - 1e-4
        ctx.check(np.abs(Z - Y)[inner].max(initial=0) < 1e-6, "multiplying by a root of unity moves images by %g", np.abs(Z - Y)[inner].max(initial=0))
        for j in range(0, n, max(1, n // 30)):
            ctx.check(np.abs(basic(ctx, X[j : j + 1], q)[0] - Y[j]).max() < 1e-12, "the image depends on the other points")
        ctx.state(n, q)
        ctx.outcome(np.round(Y[-1], 5))

    return driver


def scenarios(tier):
    q = tier == "quick"
    P = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47]
    rs = [0.0, 0.25, 0.6, 0.875, 1.0]
    return [
        Scenario("roots_small", roots(P[:6], rs + [1e-9, 1 - 1e-12], 8, 12), want=64),
        Scenario("roots_large", roots(P[6:], [0.0, 0.6, 1.0], 4, 3 if q else 12), want=64),
        Scenario("distinct", distinct(P[:4] if q else P[:6], rs + [0.99999], 4, 8), want=128),
        Scenario("many", many([1, 300, 5000], [2, 3, 41, 97, 251])),
        Scenario("continuity", continuity(P if not q else P[:8], rs, 8, 8), want=64),
    ]
