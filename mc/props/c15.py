import itertools

import numpy as np

from mc.env import dreimac
from mc.engine import Failed, Scenario

ASSUMPTIONS = [
    "rounding: 1e-9, and for vectors opposite up to an angle beta the directions orthogonal to both are only"
    " determined up to 1e-14 / beta",
]
P = dreimac.ProjectiveMapUtils


def lattice(d, coords):
    return [np.array(v, float) for v in itertools.product(coords, repeat=d) if any(v)]


def sphere(d, coords):
    return np.unique([np.round(v / np.linalg.norm(v), 13) for v in lattice(d, coords)], axis=0)


# ------------------------------------------------------------------ rotations
def rotation(ctx, a, b, given):
    a0, b0 = a.copy(), None if b is None else b.copy()
    R = ctx.call(P.rotmat, given(a)) if b is None else ctx.call(P.rotmat, given(a), b)
    d = a.size
    ctx.check(np.array_equal(a, a0) and (b is None or np.array_equal(b, b0)), "an argument was modified")
    ctx.check(isinstance(R, np.ndarray) and R.shape == (d, d), "not a %d x %d matrix: %s", d, d, R)
    ctx.check(bool(np.isfinite(R).all()), "not finite: %s", R.tolist())
    u = a / np.linalg.norm(a)
    v = np.eye(d)[-1] if b is None else b / np.linalg.norm(b)
    ctx.check(np.abs(R @ R.T - np.eye(d)).max() < 1e-9, "not orthogonal: R R^T = %s", (R @ R.T).tolist())
    ctx.check(abs(np.linalg.det(R) - 1) < 1e-9, "determinant %g", np.linalg.det(R))
    ctx.check(np.abs(R @ u - v).max() < 1e-9, "%s is sent to %s instead of %s", u.tolist(), (R @ u).tolist(), v.tolist())
    beta = np.linalg.norm(u - (u @ v) * v)
    if u @ v > 0 or beta > 1e-13:
        Q = np.linalg.svd(np.array([u, v]))
        rank = int((Q[1] > 1e-12).sum())
        N = Q[2][rank:] if rank == 2 or u @ v > 0 else Q[2][2:]
        N = N - np.outer(N @ v, v)
        tol = 1e-9 + (1e-13 / beta if u @ v < 0 else 0)
        # directions orthogonal to both, up to the rounding of the directions themselves
        moved = np.abs(N @ R.T - N).max(initial=0)
        ctx.check(moved < tol + (10 * beta if rank < 2 else 0), "a vector orthogonal to both moves by %g", moved)
    ctx.state(a, b)
    ctx.outcome(np.round(R, 6))
    ctx.note("opposite" if u @ v < -1 + 1e-12 else "parallel" if u @ v > 1 - 1e-12 else "generic")


FORMS = [np.array, lambda a: a[:, None], lambda a: a[None, :], np.asfortranarray]


def pairs(d, coords, default):
    L = lattice(d, coords)

    def driver(ctx):
        a = L[ctx.choose("a", list(range(len(L))))]
        b = None if default else L[ctx.choose("b", list(range(len(L))))]
        given = ctx.choose("given as", FORMS, True)
        a = a * ctx.choose("scale", [1.0, 1e-6, 1e6, 3.0], True)
        rotation(ctx, a, b, given)

    return driver


def nearly(d, coords, eps):
    """Vectors within a small angle of being parallel or opposite."""
    L = lattice(d, coords)

    def driver(ctx):
        b = L[ctx.choose("b", list(range(len(L))))]
        sign = ctx.choose("sign", [1, -1])
        e = L[ctx.choose("direction", list(range(len(L))))]
        a = sign * b * ctx.choose("scale", [1.0, 2.0 / 3, 1e-3]) + e * ctx.choose("epsilon", eps)
        if not a.any():
            ctx.prune()
        rotation(ctx, a, b, np.array)

    return driver


def high(dims):
    def driver(ctx):
        d = ctx.choose("dimension", dims)
        i = np.arange(d)
        vs = [np.ones(d), (-1.0) ** i, i + 1.0, np.eye(d)[0], -np.eye(d)[-1], np.eye(d)[d // 2] * 1e-3, np.cos(i * 1.0), i % 3 - 1.0 + np.eye(d)[0] * 2]
        a = ctx.choose("a", vs)
        b = ctx.choose("b", [None] + vs)
        how = ctx.choose("first vector", ["as it is", "the second one", "the second one with sign", "next to the second one", "next to its opposite"])
        if b is None and how != "as it is":
            ctx.prune()
        if how != "as it is":
            a = b * (-2 if "opp" in how or "sign" in how else 3) + ("next" in how) * 1e-7 * a
        if not a.any():
            ctx.prune()
        rotation(ctx, a, b, ctx.choose("given as", FORMS))

    return driver


def many_points(sizes):
    def driver(ctx):
        d, n = ctx.choose("dimension", [2, 3, 4, 7, 25]), ctx.choose("n", sizes)
        X = np.cos(np.outer(np.arange(1, n + 1) * np.sqrt(2), np.arange(1, d + 1) * np.sqrt(3)) * 50) * np.linspace(1, 2, d)
        X /= np.linalg.norm(X, axis=1)[:, None]
        some = X[:: max(1, n // 40)]
        X0 = X.copy()
        k = ctx.choose("pole", [None, 0, 1])
        kw = {} if k is None else dict(u=X[0].copy() if k else np.eye(d)[0])
        S = ctx.call(P.get_stereo_proj_codim1, X, **kw)
        ctx.check(S.shape == (n, d - 1) and np.linalg.norm(S, axis=1).max() <= 1 + 1e-9, "not in the unit ball")
        w, V = np.linalg.eigh(X.T @ X)
        pole = kw["u"] if kw else V[:, 0]
        Y = inverse(S)
        ctx.check((not kw and w[1] - w[0] < 1e-4) or np.abs(Y[:, -1] - np.abs(X @ pole)).max() < 1e-6, "heights over the pole's equator")
        sub = slice(None, None, max(1, n // 40))
        ctx.check(np.abs(np.abs(Y[sub] @ Y.T) - np.abs(some @ X.T)).max() < 1e-6, "the inverse images are not the points up to sign and rotation")
        if d == 3:
            c = ctx.choose("center", [None, [1.0, 2.0, -1.0]])
            ckw = {} if c is None else dict(center_vector=np.array(c))
            H = ctx.call(P.stereographic_projection_hemispheres, X, **ckw)
            one = np.vstack([ctx.call(P.stereographic_projection_hemispheres, x[None], **ckw) for x in some])
            ctx.check(H.shape == (n, 2) and np.abs(H[sub] - one).max() < 1e-7, "the image depends on the other points")
            h = X[:, -1] if c is None else X @ np.array(c) / np.linalg.norm(c)
            ctx.check(np.array_equal((np.linalg.norm(H - [2.5, 0], axis=1) < np.linalg.norm(H, axis=1))[np.abs(h) > 1e-9], (h > 0)[np.abs(h) > 1e-9]),
                      "a point is drawn in the disk of the other hemisphere")
        if d == 4:
            Z = X[:, :2] + 1j * X[:, 2:]
            H = ctx.call(P.hopf_map, Z)
            ctx.check(H.shape == (n, 3) and np.abs(H[sub] @ H.T - (2 * np.abs(Z[sub].conj() @ Z.T) ** 2 - 1)).max() < 1e-9,
                      "the Hopf map is no isometry up to scale")
        ctx.check(np.array_equal(X, X0), "the argument was modified")
        ctx.state(d, n, k)
        ctx.outcome(np.round(S[-1], 5))

    return driver


# ------------------------------------------------------------------ stereographic projection
def inverse(S):
    s = (S**2).sum(1)[:, None]
    return np.hstack([2 * S, 1 - s]) / (1 + s)


def stereo(d, coords, N, poles):
    Q = sphere(d, coords)

    def driver(ctx):
        X = Q[[ctx.choose("x%d" % i, list(range(len(Q)))) for i in range(N)]]
        k = ctx.choose("pole", [None] + list(range(len(Q))) if poles else [None])
        kw = {} if k is None else dict(u=Q[k].copy())
        X0 = X.copy()
        S = ctx.call(P.get_stereo_proj_codim1, X, **kw)
        ctx.check(np.array_equal(X, X0) and (k is None or np.array_equal(kw["u"], Q[k])), "an argument was modified")
        ctx.check(S.shape == (N, d - 1) and bool(np.isfinite(S).all()), "projection %s", S.tolist())
        ctx.check(bool((np.linalg.norm(S, axis=1) <= 1 + 1e-9).all()), "outside the unit ball: %s", S.tolist())
        Y = inverse(S)
        ctx.check(np.abs(np.abs(Y @ Y.T) - np.abs(X @ X.T)).max() < 1e-6,
                  "the inverse images are not the points up to sign and rotation: %s", Y.tolist())
        if k is not None:
            h = np.abs(X @ Q[k])
            ctx.check(np.abs(Y[:, -1] - h).max() < 1e-7, "heights over the pole's equator %s, should be %s", Y[:, -1].tolist(),
                      h.tolist())
            pole = ctx.call(P.get_stereo_proj_codim1, Q[k][None, :], **kw)
            ctx.check(np.abs(pole).max() < 1e-7, "the pole is sent to %s", pole.tolist())
            for i in range(N):
                one = ctx.call(P.get_stereo_proj_codim1, X[i : i + 1], **kw)
                ctx.check(np.abs(one[0] - S[i]).max() < 1e-9 or
                          (np.abs(one[0] + S[i]).max() < 1e-9 and h[i] < 1e-9), "the image depends on the other points")
        w, V = np.linalg.eigh(X.T @ X)
        if k is None and w[1] - w[0] >= 1e-6:
            h = np.abs(X @ V[:, 0])
            ctx.check(np.abs(Y[:, -1] - h).max() < 1e-6, "heights %s over the equator of the pole, the direction of least"
                      " variance gives %s", Y[:, -1].tolist(), h.tolist())
        if k is None and w[1] - w[0] < 1e-6:
            ctx.note("pole_not_determined")
        for i in range(N) if k is not None or w[1] - w[0] >= 1e-6 else ():
            Z = X.copy()
            Z[i] *= -1
            W = ctx.call(P.get_stereo_proj_codim1, Z, **kw)
            if k is None:  # the pole is determined up to sign only
                inner = Y[:, -1] > 1e-7
                e = np.abs(W[inner] @ W[inner].T - S[inner] @ S[inner].T).max(initial=0)
                ctx.check(e < 1e-6, "changing the sign of point %d changes the images %s to %s", i, S.tolist(), W.tolist())
                continue
            for j in range(N):
                edge = Y[j, -1] < 1e-7
                ok = np.abs(W[j] - S[j]).max() < 1e-7 or (edge and np.abs(W[j] + S[j]).max() < 1e-7)
                ctx.check(ok, "changing the sign of point %d moves the image of point %d from %s to %s", i, j,
                          S[j].tolist(), W[j].tolist())
        ctx.state(X, k)
        ctx.outcome(np.round(S, 5))

    return driver


def north(ctx):
    g = [-1.5, -1.0, -0.6, -0.25, 0.0, 0.25, 0.5, 0.8, 1.0, 3.0]
    x = np.array([ctx.choose("x", g), ctx.choose("y", g)])
    x0 = x.copy()
    y, u = ctx.call(P.circle_to_3dnorthpole, x)
    ctx.check(np.array_equal(x, x0), "the argument was modified")
    ctx.check(abs(np.linalg.norm(u) - 1) < 1e-9 and u[2] >= 0, "not a unit vector of the upper hemisphere: %s", u.tolist())
    want = x0 if x0 @ x0 <= 1 else x0 / np.linalg.norm(x0)
    ctx.check(np.abs(y - want).max() < 1e-9, "selected point %s, expected %s", np.asarray(y).tolist(), want.tolist())
    ctx.check(np.abs(u[:2] - want).max() < 1e-9, "the unit vector %s is not above the selected point %s", u.tolist(), want.tolist())
    ctx.state(x)
    ctx.outcome(np.round(u, 6))


# ------------------------------------------------------------------ Hopf map and hemispheres
def complex_points(coords):
    out = [np.array([complex(a, b), complex(c, d)]) for a, b, c, d in itertools.product(coords, repeat=4) if any((a, b, c, d))]
    return [v / np.linalg.norm(v) for v in out]


def hopf(coords):
    Q = np.array(complex_points(coords))

    def driver(ctx):
        i = ctx.choose("first", list(range(len(Q))))
        X = np.vstack([Q[i : i + 1], Q])
        X0 = X.copy()
        H = ctx.call(P.hopf_map, X)
        ctx.check(np.array_equal(X, X0), "the argument was modified")
        ctx.check(H.shape == (len(X), 3) and np.isrealobj(H), "shape %s", H.shape)
        ctx.check(np.abs(np.linalg.norm(H, axis=1) - 1).max() < 1e-9, "not unit vectors")
        overlap = np.minimum(1, np.abs(X @ X[0].conj()))
        equal = np.abs(overlap - 1) < 1e-9
        dist = np.linalg.norm(H - H[0], axis=1)
        e = np.abs(H @ H[0] - (2 * overlap**2 - 1)).max()
        ctx.check(e < 1e-9, "the cosine of the angle between images is off by %g from that of twice the angle in CP^1", e)
        for j in range(len(X)):
            ctx.check((dist[j] < 1e-6) == equal[j], "%s and %s: %s points of CP^1, images at distance %g", X[0].tolist(),
                      X[j].tolist(), "equal" if equal[j] else "different", dist[j])
        ctx.state(X[0])
        ctx.outcome(np.round(H[0], 6))

    return driver


def hemispheres(d, coords, centers):
    Q = sphere(d, coords)

    def driver(ctx):
        c = ctx.choose("center", [None] + centers)
        c = None if c is None else np.array(c, float)
        kw = {} if c is None else dict(center_vector=c.copy())
        k = ctx.choose("rotate_list", [0, 1, 7])
        part = ctx.choose("points", ["all", "upper", "lower", "one"])
        h = Q[:, -1] if c is None else Q @ c / np.linalg.norm(c)
        X = np.roll(Q[{"all": h < 2, "upper": h > 1e-9, "lower": h < -1e-9, "one": np.arange(len(Q)) == 3 * k}[part]], k, axis=0)
        h = X[:, -1] if c is None else X @ c / np.linalg.norm(c)
        X0 = X.copy()
        S = ctx.call(P.stereographic_projection_hemispheres, X, **kw)
        ctx.check(np.array_equal(X, X0) and (c is None or np.array_equal(c, kw["center_vector"])), "an argument was modified")
        ctx.check(S.shape == (len(X), d - 1) and bool(np.isfinite(S).all()), "projection %s", S.tolist())
        e = np.eye(d - 1)[0] * 2.5
        n0, n1 = np.linalg.norm(S, axis=1), np.linalg.norm(S - e, axis=1)
        up = n1 < n0
        for j in range(len(X)):
            ctx.check(min(n0[j], n1[j]) <= 1 + 1e-9, "%s is sent to %s, outside both disks", X[j].tolist(), S[j].tolist())
            if abs(h[j]) > 1e-9:
                ctx.check(up[j] == (h[j] > 0), "%s is sent to %s, in the disk of the other hemisphere", X[j].tolist(), S[j].tolist())
                want = np.tan(np.arccos(min(1, abs(h[j]))) / 2)
                got = n1[j] if h[j] > 0 else n0[j]
                ctx.check(abs(got - want) < 1e-6, "distance %g from the centre of the disk, stereographic projection gives %g", got, want)
        D = np.linalg.norm(S[:, None] - S[None], axis=-1)
        # both disks show the sphere in one frame, so that points of the equator are at the same place on either boundary circle
        flat = (S - np.outer(up, e)) * (1 + np.abs(h))[:, None]
        sure = np.abs(h) > 1e-9
        G = np.abs(flat @ flat.T - (X @ X.T - np.outer(h, h)))[sure][:, sure]
        ctx.check(bool((G < 1e-6).all()), "the two disks are not in the same frame: angles between the images differ from"
                  " those on the sphere by %g", G.max(initial=0))
        far = np.linalg.norm(X[:, None] - X[None], axis=-1) > 1e-6
        ctx.check(bool((D[far] > 1e-6).all()), "different points have the same image")
        ctx.state(c, k, part)
        ctx.outcome(np.round(S, 5))

    return driver


def scenarios(tier):
    q = tier == "quick"
    eps = [1e-3, 1e-6, 1e-9, 1e-12, 1e-15, 3e-16, 1e-17]
    cs = [v.tolist() for v in lattice(3, [-1, 0, 1])] + [[0, 1e-9, 1], [0, 1e-12, -1], [3, -4, 0]]
    return [
        Scenario("rotations2", pairs(2, [-2, -1, 0, 1, 2], False), bound=1),
        Scenario("rotations3", pairs(3, [-1, 0, 1] if q else [-2, -1, 0, 1], False), bound=1, want=64),
        Scenario("rotations4", pairs(4, [-1, 0, 1], False), bound=0 if q else 1, want=64),
        Scenario("to_last_axis", pairs(3, [-2, -1, 0, 1, 2], True), bound=1),
        Scenario("to_last_axis5", pairs(5, [-1, 0, 1], True), bound=1),
        Scenario("nearly_parallel2", nearly(2, [-1, 0, 1, 2], eps), want=64),
        Scenario("nearly_parallel3", nearly(3, [-1, 0, 1], eps if not q else eps[2:6:3] + [1e-17]), want=64),
        Scenario("rotations_high", high([2, 6, 17, 64] if q else [2, 6, 17, 64, 300])),
        Scenario("many_points", many_points([1, 2000] if q else [1, 2000, 40000])),
        Scenario("stereographic2", stereo(2, [-2, -1, 0, 1, 2], 2, True)),
        Scenario("stereographic3", stereo(3, [-1, 0, 1], 2, True), want=64),
        Scenario("stereographic3_default", stereo(3, [-1, 0, 1], 3 if q else 4, False), want=64),
        Scenario("stereographic4", stereo(4, [-1, 0, 1] if not q else [0, 1, -1], 1, True), want=64),
        Scenario("north_pole", north),
        Scenario("hopf", hopf([-1, 0, 1] if q else [-2, -1, 0, 1])),
        Scenario("hemispheres", hemispheres(3, [-1, 0, 1] if q else [-2, -1, 0, 1, 2], cs)),
    ]
