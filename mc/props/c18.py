import itertools

import numpy as np

from mc.env import dreimac
from mc.engine import Scenario

G = dreimac.GeometryExamples
ASSUMPTIONS = [
    "sampling is uniform enough that 400 points meet every cell of a division of the space into 16 parts",
    "the distance of the Moore space must lie between the quotient metric and the length of the path that leaves radially",
    "order of the rows is not specified; rounding 1e-9 (1e-7 for projective arcs)",
]


# ------------------------------------------------------------------ the spaces
def sectors(*angles, k=4):
    code = np.zeros(len(angles[0]), int)
    for a in angles:
        code = code * k + np.floor(np.mod(a, 2 * np.pi) / (2 * np.pi) * k).astype(int) % k
    return len(np.unique(code)), k ** len(angles)


def cover(ctx, what, *angles, k=4):
    got, all_ = sectors(*angles, k=k)
    ctx.check(got == all_, "%s: only %d of %d equal parts of the space have a point", what, got, all_)


def on_torus(ctx, what, X, R, r, center=0.0):
    x = X[:, 0] - center
    y = X[:, 1]
    rho = np.hypot(x, y)
    if r > R:  # a point may lie beyond the axis
        beyond = np.abs(np.hypot(rho - R, X[:, 2]) - r) > 1e-9
        x, y, rho = (np.where(beyond, -a, a) for a in (x, y, rho))
    err = np.abs(np.hypot(rho - R, X[:, 2]) - r)
    ctx.check(err.max() < 1e-9, "%s: %s is not on the torus with radii %r and %r", what, X[np.argmax(err)].tolist(), R, r)
    return np.arctan2(X[:, 2], rho - R), np.arctan2(y, x)


def shape(ctx, what, X, n, d):
    ctx.check(isinstance(X, np.ndarray) and X.shape == (n, d), "%s: shape %s instead of (%d, %d)", what, np.shape(X), n, d)
    ctx.check(np.isrealobj(X) and bool(np.isfinite(X).all()), "%s: not finite real numbers", what)


def distinct(ctx, what, X):
    ctx.check(len(np.unique(np.round(X, 12), axis=0)) == len(X), "%s: repeated points", what)


def check_torus(ctx, X, n, R, r, seed=None):
    what = "torus_3d(%r, %r, %r, %r)" % (n, R, r, seed)
    shape(ctx, what, X, n, 3)
    s, t = on_torus(ctx, what, X, R, r)
    distinct(ctx, what, X)
    if n >= 400:
        cover(ctx, what, s, t)


def check_klein(ctx, X, n, R, r, seed=None):
    what = "klein_bottle_4d(%r, %r, %r, %r)" % (n, R, r, seed)
    shape(ctx, what, X, n, 4)
    rho = np.hypot(X[:, 0], X[:, 1])
    phi = np.mod(np.arctan2(X[:, 1], X[:, 0]), 2 * np.pi)
    if r > R:  # a point may lie beyond the axis
        s = X[:, 2] * np.cos(phi / 2) + X[:, 3] * np.sin(phi / 2)
        off = -X[:, 2] * np.sin(phi / 2) + X[:, 3] * np.cos(phi / 2)
        beyond = np.maximum(np.abs(np.hypot(rho - R, s) - r), np.abs(off)) > 1e-9
        rho, phi = np.where(beyond, -rho, rho), np.where(beyond, np.mod(phi + np.pi, 2 * np.pi), phi)
    s = X[:, 2] * np.cos(phi / 2) + X[:, 3] * np.sin(phi / 2)
    off = -X[:, 2] * np.sin(phi / 2) + X[:, 3] * np.cos(phi / 2)
    err = np.maximum(np.abs(np.hypot(rho - R, s) - r), np.abs(off))
    ctx.check(err.max() < 1e-9, "%s: %s is not on the Klein bottle with radii %r and %r", what, X[np.argmax(err)].tolist(), R, r)
    distinct(ctx, what, X)
    if n >= 400:
        cover(ctx, what, np.arctan2(s, rho - R), phi)


def check_rp2(ctx, res, n, seed=None):
    what = "rp2_metric(%r, %r)" % (n, seed)
    ctx.check(isinstance(res, tuple) and len(res) == 2, "%s: not a pair", what)
    X, D = res
    shape(ctx, what, X, n, 3)
    shape(ctx, what, D, n, n)
    ctx.check(np.abs(np.linalg.norm(X, axis=1) - 1).max() < 1e-9, "%s: points not on the sphere", what)
    A = np.linalg.norm(X[:, None, :] - X[None, :, :], axis=2)
    B = np.linalg.norm(X[:, None, :] + X[None, :, :], axis=2)
    want = 2 * np.arcsin(np.clip(np.minimum(A, B) / 2, 0, 1))
    ctx.check(np.abs(D - want).max() < 1e-6, "%s: distances are not the arcs between the lines", what)
    ctx.check(np.abs(D - D.T).max() < 1e-12 and D.min() >= 0 and np.abs(np.diag(D)).max() < 1e-6,
              "%s: not a symmetric non-negative matrix with zero diagonal", what)
    distinct(ctx, what, X)
    if n >= 400:
        cover(ctx, what, *[np.pi * (X[:, i] > 0) for i in range(3)], k=2)
        cover(ctx, what, np.arctan2(X[:, 1], X[:, 0]), k=8)
        ctx.check(np.abs(X[:, 2]).min() < 0.1 and np.abs(X).max(0).min() > 0.9, "%s: confined", what)


def check_sphere(ctx, X, n):
    what = "sphere(%r)" % n
    shape(ctx, what, X, n, 3)
    ctx.check(np.abs(np.linalg.norm(X, axis=1) - 1).max() < 1e-9, "%s: points not on the unit sphere", what)
    distinct(ctx, what, X)
    if n >= 400:
        cover(ctx, what, *[np.pi * (X[:, i] > 0) for i in range(3)], k=2)
        for i in range(3):
            cover(ctx, what, np.arctan2(X[:, i], X[:, i - 1]), k=8)
            ctx.check(X[:, i].max() > 0.9 and X[:, i].min() < -0.9, "%s: confined", what)


def check_noisy_circle(ctx, X, n, noise=0.2, seed=0):
    what = "noisy_circle(%r, %r, %r)" % (n, noise, seed)
    shape(ctx, what, X, n, 2)
    rho = np.linalg.norm(X, axis=1)
    dev = np.abs(rho - 1)
    ctx.check(dev.max() <= noise + 1e-9, "%s: %s is not within %r of the unit circle", what, X[np.argmax(dev)].tolist(), noise)
    distinct(ctx, what, X)
    if n >= 400:
        cover(ctx, what, np.arctan2(X[:, 1], X[:, 0]), k=16)
        ctx.check(dev.max() > 0.4 * noise if noise else True, "%s: noise of %r at most", what, dev.max())
        ctx.check(noise == 0 or (rho > 1).any() and (rho < 1).any(), "%s: noise on one side only", what)


def check_trefoil(ctx, X, n=2500, w=6, noisy=True):
    what = "trefoil(%r, %r, %r)" % (n, w, noisy)
    shape(ctx, what, X, n, 3)
    rho, th = np.hypot(X[:, 0], X[:, 1]), np.arctan2(X[:, 1], X[:, 0])
    u = np.stack([np.mod(th, 2 * np.pi), np.mod(th, 2 * np.pi) + 2 * np.pi])
    a, b = rho - w * (1.5 + np.sin(1.5 * u) / 2), X[:, 2] - 4 * np.cos(1.5 * u)
    err = np.abs(np.hypot(a, b) - 1)
    best = err.argmin(0)
    e = err.min(0)
    ctx.check(e.max() < 1e-9, "%s: %s is not on the tube of radius one around the trefoil", what, X[np.argmax(e)].tolist())
    i = np.arange(n)
    U, V = u[best, i], np.arctan2(b[best, i], a[best, i])
    distinct(ctx, what, X)
    if n >= 400 and noisy:
        cover(ctx, what, U / 2, V)
    if n >= 400 and not noisy:
        cover(ctx, what, U / 2, k=64)
        step = np.linalg.norm(np.roll(X, -1, 0) - X, axis=1)
        ctx.check(step.max() * n < 40 * np.pi * (w + 3), "%s: not consecutive points of a closed curve", what)


def check_bullseye(ctx, X):
    shape(ctx, "bullseye()", X, len(X), 2)
    rho, th = np.hypot(X[:, 0], X[:, 1]), np.arctan2(X[:, 1], X[:, 0])
    near = np.abs(rho[:, None] - [1, 2, 3])
    ctx.check(near.min(1).max() < 0.1, "bullseye(): %s is on none of the circles", X[near.min(1).argmax()].tolist())
    ctx.check(near.min(1).max() > 0.02, "bullseye(): no noise")
    for k in range(3):
        cover(ctx, "bullseye() circle %d" % (k + 1), th[near.argmin(1) == k], k=32)
        r = rho[near.argmin(1) == k] - (k + 1)
        ctx.check(r.max() > 0 > r.min(), "bullseye(): noise on one side of circle %d only", k + 1)
    distinct(ctx, "bullseye()", X)


def check_three_circles(ctx, X):
    shape(ctx, "three_circles()", X, len(X), 2)
    C = [((0, 0), 1.0), ((4, 0), 2.0), ((-4, 0), 2.5)]
    dev = np.stack([np.abs(np.hypot(X[:, 0] - c[0], X[:, 1] - c[1]) - r) for c, r in C])
    ctx.check(dev.min(0).max() < 0.3, "three_circles(): %s is on none of the circles", X[dev.min(0).argmax()].tolist())
    for k, (c, r) in enumerate(C):
        S = X[dev[k] < 0.3]
        cover(ctx, "three_circles() circle %d" % k, np.arctan2(S[:, 1] - c[1], S[:, 0] - c[0]), k=16)
    distinct(ctx, "three_circles()", X)


def check_genus_two(ctx, X):
    shape(ctx, "genus_two_surface()", X, len(X), 3)
    left = X[:, 0] < 4.5
    both = np.abs(X[:, 0] - 4.5) < 1e-9
    ctx.check(len(X) > 9000, "genus_two_surface(): only %d points", len(X))
    for side, c in ((left & ~both, 0.0), (~left & ~both, 9.0)):
        s, t = on_torus(ctx, "genus_two_surface()", X[side], 5.0, 2.0, c)
        t = t if c == 0 else np.pi - t  # zero in the direction of the other torus
        cover(ctx, "genus_two_surface()", s, k=16)
        # for points away from the seam both angles take all values
        far = np.cos(t) < 0
        got, _ = sectors(s[far], t[far], k=8)
        ctx.check(got >= 32, "genus_two_surface(): only %d of 32 equal parts of the far half of a handle have a point", got)
        near = np.cos(t) > 0
        got, _ = sectors(np.mod(t[near & (np.cos(s) < 0)], 2 * np.pi), k=16)
        ctx.check(got >= 8, "genus_two_surface(): hole of a handle not complete")
    distinct(ctx, "genus_two_surface()", X)


def check_line_patches(ctx, P, dim, na, no, sigma):
    what = "line_patches(%r, %r, %r, %r)" % (dim, na, no, sigma)
    shape(ctx, what, P, na * no, dim * dim)
    g = np.linspace(-0.5, 0.5, dim)
    want = []
    for i in range(na):
        for p in np.linspace(-1, 1, no):
            d = g[:, None] * np.cos(np.pi * i / na) + g[None, :] * np.sin(np.pi * i / na) + p
            want.append(np.exp(-((d / sigma) ** 2)).ravel())
    same_sets(ctx, what, P, np.array(want))


def check_moving_dot(ctx, P, k, sigma=3, dim=10):
    what = "moving_dot(%r, %r, %r)" % (k, sigma, dim)
    shape(ctx, what, P, k * k, dim * dim)
    ax = np.linspace(-(dim - 1) / 2, (dim - 1) / 2, dim)
    c = 15 * np.linspace(-1, 1, k) ** 3
    both = sorted(set(c) | set(-c)) if k > 1 else [c[0]]
    want = [np.exp(-0.5 * ((ax[:, None] - x) ** 2 + (ax[None, :] - y) ** 2) / sigma**2).ravel()
            for x in c for y in (c if k > 1 else -c)]
    same_sets(ctx, what, P, np.array(want))


def same_sets(ctx, what, P, W):
    A = np.abs(P[:, None, :] - W[None, :, :]).max(2) < 1e-9
    for M, m in ((A, "patch %d is not one of the stated family"), (A.T, "patch %d of the stated family is missing")):
        bad = np.flatnonzero(~M.any(1))
        ctx.check(not len(bad), "%s: " + m, what, bad[0] if len(bad) else 0)
    # multiplicities
    E = np.abs(W[:, None, :] - W[None, :, :]).max(2) < 1e-9
    ctx.check(np.array_equal(A.sum(0), E.sum(0)), "%s: a patch occurs too often or not often enough", what)


def check_moore(ctx, res, rough=2000, q=3):
    what = "moore_space_distance_matrix(%r, %r)" % (rough, q)
    ctx.check(isinstance(res, tuple) and len(res) == 2, "%s: not a pair", what)
    D, X = res
    n = len(X)
    shape(ctx, what, X, n, 2)
    shape(ctx, what, D, n, n)
    ctx.check(0 < n <= rough, "%s: %d points", what, n)
    if rough >= 300:
        ctx.check(abs(n - rough * np.pi / 4) < 0.1 * rough, "%s: %d points", what, n)
        cover(ctx, what, np.arctan2(X[:, 1], X[:, 0]), k=8)
        ctx.check(np.linalg.norm(X, axis=1).max() > 0.95 and np.linalg.norm(X, axis=1).min() < 0.3, "%s: confined", what)
    ctx.check(np.linalg.norm(X, axis=1).max() <= 1 + 1e-9, "%s: a point outside the disk", what)
    distinct(ctx, what, X)
    ctx.check(np.abs(D - D.T).max() < 1e-9 and D.min() >= 0 and np.abs(np.diag(D)).max() < 1e-9,
              "%s: not a symmetric non-negative matrix with zero diagonal", what)
    z = X[:, 0] + 1j * X[:, 1]
    rot = np.exp(2j * np.pi * np.arange(q) / q)
    E = np.abs(z[:, None] - z[None, :])
    rad = (1 - np.abs(z))[:, None] + np.abs((z / np.abs(z))[:, None, None] * rot[None, None, :] - z[None, :, None]).min(2)
    hi = np.minimum(E, np.minimum(rad, rad.T))
    ctx.check((D <= hi + 1e-9).all(), "%s: a distance is longer than the path through the boundary", what)
    m = 2520
    b = np.exp(2j * np.pi * np.arange(m) / m)
    A = np.abs(z[:, None] - b[None, :])
    best = E.copy()
    B = np.min([np.roll(A, k * m // q if m % q == 0 else int(round(k * m / q)), axis=1) for k in range(q)], axis=0)
    for i in range(n):
        best[i] = np.minimum(best[i], (A[i][None, :] + B).min(1))
    slack = 2 * np.pi / m * 2
    ctx.check((D >= best - slack).all(), "%s: a distance is shorter than every path in the space", what)


# ------------------------------------------------------------------ calls
CALLS = {
    "torus_3d": (G.torus_3d, check_torus), "klein_bottle_4d": (G.klein_bottle_4d, check_klein),
    "rp2_metric": (G.rp2_metric, check_rp2), "sphere": (G.sphere, check_sphere),
    "noisy_circle": (G.noisy_circle, check_noisy_circle), "trefoil": (G.trefoil, check_trefoil),
    "bullseye": (G.bullseye, check_bullseye), "three_circles": (G.three_circles, check_three_circles),
    "genus_two_surface": (G.genus_two_surface, check_genus_two), "line_patches": (G.line_patches, check_line_patches),
    "moving_dot": (G.moving_dot, check_moving_dot),
}
if hasattr(G, "moore_space_distance_matrix"):
    CALLS["moore_space_distance_matrix"] = (G.moore_space_distance_matrix, check_moore)


def flat(res):
    return np.concatenate([np.asarray(x).ravel() for x in (res if isinstance(res, tuple) else (res,))])


def parameters(name, ns, radii, seeds, rough, primes):
    if name in ("torus_3d", "klein_bottle_4d"):
        return [(n, R, r) + ((s,) if s != "default" else ()) for n in ns for R, r in radii for s in seeds]
    if name == "rp2_metric":
        return [(n,) + ((s,) if s != "default" else ()) for n in ns if n <= 400 for s in seeds]
    if name == "sphere":
        return [(n,) for n in ns]
    if name == "noisy_circle":
        return [(n, e) + ((s,) if s not in ("default", None) else ()) for n in ns for e in (0.0, 0.05, 0.2, 0.8, 1.0) for s in seeds]
    if name == "trefoil":
        return [(n, w, b) for n in ns for w in (2, 2.5, 6, 10) for b in (True, False)] + [()]
    if name == "line_patches":
        return [(d, a, o, s) for d in (1, 2, 3, 6) for a in (1, 2, 5) for o in (1, 2, 4, 5) for s in (0.1, 0.25, 1.0)]
    if name == "moving_dot":
        return [(k,) for k in (1, 2, 3)] + [(k, s, d) for k in (1, 2, 4, 5) for s in (1, 2, 3) for d in (1, 4, 5, 10)]
    if name == "moore_space_distance_matrix":
        return [(m, q) for m in rough for q in primes]
    return [()]


def single(names, ns, radii, seeds, rough, primes):
    def driver(ctx):
        name = ctx.choose("generator", [x for x in names if x in CALLS])
        args = ctx.choose("arguments", parameters(name, ns, radii, seeds, rough, primes))
        fn, check = CALLS[name]
        ctx.state(name, args)
        first = ctx.call(fn, *args)
        check(ctx, first, *args)
        a = flat(first).copy()
        # again, after other draws and with the first result written over
        how = ctx.choose("before", ["same", "seeded", "drawn", "written over"])
        if how == "seeded":
            np.random.seed(987)
        elif how == "drawn":
            np.random.rand(1)
        elif how == "written over":
            for x in first if isinstance(first, tuple) else (first,):
                x[...] = 1e3
        b = flat(ctx.call(fn, *args))
        ctx.check(np.array_equal(a, b), "%s%r gives another sample when called again (%s)", name, args, how)
        ctx.outcome(a[:50], how)

    return driver


def seeds(ns):
    """Seeds: none means the number of samples; different seeds give different samples."""

    def driver(ctx):
        name = ctx.choose("generator", ["torus_3d", "klein_bottle_4d", "rp2_metric", "noisy_circle"])
        fn = CALLS[name][0]
        n = ctx.choose("n", ns)
        extra = {"torus_3d": (2, 1), "klein_bottle_4d": (2, 1), "rp2_metric": (), "noisy_circle": (0.2,)}[name]
        S = [0, 1, 2, 42, n, n + 1]
        s = ctx.choose("seed", S)
        t = ctx.choose("other seed", S)
        a, b = flat(ctx.call(fn, n, *extra, seed=s)), flat(ctx.call(fn, n, *extra, seed=t))
        ctx.check(np.array_equal(a, b) == (s == t), "%s: seeds %r and %r give %s samples", name, s, t,
                  "equal" if s != t else "different")
        d = flat(ctx.call(fn, n, *extra))
        if name == "noisy_circle":
            ctx.check(np.array_equal(d, a) == (s == 0), "%s: the default seed is not 0", name)
        else:
            ctx.check(np.array_equal(d, a) == (s == n), "%s: without seed not the one given by the number of samples", name)
            d = flat(ctx.call(fn, n, *extra, seed=None))
            ctx.check(np.array_equal(d, a) == (s == n), "%s: seed None not the number of samples", name)
        ctx.state(name, n, s, t)
        ctx.outcome(a[:40], b[:40])

    return driver


SMALL = {
    "torus_3d": [(5, 2, 1), (5, 2, 1, 0), (5, 3, 1, 7)], "klein_bottle_4d": [(5, 2, 1), (5, 2, 1, 0)],
    "rp2_metric": [(5,), (5, 0)], "sphere": [(5,), (6,)], "noisy_circle": [(5,), (5, 0.2, 3)],
    "trefoil": [(5,), (5, 6, False)], "bullseye": [()], "three_circles": [()], "genus_two_surface": [()],
    "line_patches": [(3, 2, 2, 0.25)], "moving_dot": [(2, 1, 3)], "moore_space_distance_matrix": [(12, 3), (12, 5)],
}
_BASE = {}


def histories(depth, names):
    """All sequences of calls: the last one gives what it gives as the first call."""
    ops = [(g, a) for g in names if g in CALLS for a in SMALL[g]]

    def driver(ctx):
        old = []
        seq = []
        for i in range(depth):
            g, a = ctx.choose("call %d" % i, ops)
            seq.append((g, a))
            if (g, a) not in _BASE:
                np.random.seed(4711)
                _BASE[g, a] = flat(CALLS[g][0](*a)).copy()
            r = ctx.call(CALLS[g][0], *a)
            f = flat(r)
            ctx.check(np.array_equal(f, _BASE[g, a]), "%s%r after %s gives another sample", g, a, seq[:-1])
            for x, y in old:
                ctx.check(np.array_equal(x, y), "a later call changed the result of an earlier one")
            for x in r if isinstance(r, tuple) else (r,):
                if i % 2 == 0:
                    old.append((x, x.copy()))
                else:
                    x[...] = -1
        ctx.state(tuple(seq))
        ctx.outcome(f[:20])

    return driver


def scenarios(tier):
    q = tier == "quick"
    moore = ["moore_space_distance_matrix"]
    rest = [x for x in CALLS if x not in moore]
    ns = [1, 2, 3, 10, 399, 400, 2500] if q else [1, 2, 3, 4, 5, 7, 10, 50, 399, 400, 1000, 3000]
    radii = [(2, 1), (5, 2), (3, 0.5), (1, 2)] if q else [(2, 1), (5, 2), (3, 0.5), (1, 2), (1, 1), (10, 0.1), (7.5, 2.5)]
    sd = ["default", None, 0, 1, 42] if q else ["default", None] + list(range(10)) + [42, 2**31]
    return [
        Scenario("spaces", single(rest, ns, radii, sd, [], []), want=128),
        Scenario("moore", single(moore, [], [], [], [2, 5, 12, 40] if q else [2, 3, 5, 12, 40, 80], [2, 3, 5, 7, 11, 13]), want=64),
        Scenario("moore_compiled", single(moore, [], [], [], [40, 400] if q else [400, 1000], [2, 3, 5] if q else [2, 3, 5, 7, 11]),
                 mode="jit", want=24),
        Scenario("seeds", seeds([3, 10] if q else [3, 10, 11, 50, 400]), want=64),
        Scenario("pairs", histories(2, list(CALLS)), want=64),
        Scenario("triples", histories(3, [x for x in CALLS if x not in ("genus_two_surface", "moore_space_distance_matrix") or not q]), want=128),
    ]
