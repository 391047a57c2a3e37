import itertools

import numpy as np

from mc.env import dreimac
from mc.engine import Failed, Scenario

ASSUMPTIONS = ["rounding: angles are compared on the circle within 1e-9 of a turn, scaled by the size of the matrix entries",
               "where two bins are equally full either may be the most populated one"]
C = dreimac.CircleMapUtils
T = 2 * np.pi
GRID = [0.0, 1 / 12, 1 / 5, 1 / 3, 1 / 2, 5 / 8, 11 / 12, 1.0, 1 - 1e-12]


def circ(x):
    x = np.asarray(x, float)
    return np.abs(x - T * np.rint(x / T))


def in_range(ctx, x, what):
    x = np.asarray(x)
    ctx.check(bool(np.isfinite(x).all() and (x >= 0).all() and (x <= T).all()), "%s outside [0, 2 pi]: %s", what, x.tolist())


def close(ctx, x, y, what, scale=1.0):
    x, y = np.asarray(x), np.asarray(y)
    ctx.check(x.shape == y.shape, "%s: shape %s, expected %s", what, x.shape, y.shape)
    e = circ(x - y).max(initial=0)
    ctx.check(e < 1e-9 * scale, "%s: off by %g turns (%s, expected %s)", what, e / T, x.tolist(), np.mod(y, T).tolist())


FORMS = [("arrays", lambda A: A, lambda X: X), ("list matrix", lambda A: A.tolist(), lambda X: X),
         ("list maps", lambda A: A, lambda X: X.tolist()), ("list of arrays", lambda A: A, list),
         ("both lists", lambda A: A.tolist(), lambda X: X.tolist()), ("floats", lambda A: A.astype(float), lambda X: X),
         ("column order", np.asfortranarray, np.asfortranarray)]


def combos(k, l, entries, n):
    def driver(ctx):
        form, fa, fx = ctx.choose("form", FORMS, True)
        A = np.array([[ctx.choose("a%d%d" % (i, j), entries) for j in range(k)] for i in range(l)])
        X = np.array([[GRID[(3 * i + 5 * j + ctx.choose("x%d%d" % (i, j), [0, 1, 2, 4])) % len(GRID)] for j in range(n)]
                      for i in range(k)]) * T
        turns = ctx.choose("turns", [0, 1, -3], True)
        Y = X.copy()
        Y[ctx.choose("row", list(range(k)), True), ctx.choose("column", list(range(n)), True)] += turns * T
        Y0, A0 = Y.copy(), A.copy()
        got = ctx.call(C.linear_combination, fx(Y), fa(A))
        ctx.check(isinstance(got, np.ndarray), "not an array")
        in_range(ctx, got, "linear combination")
        scale = 10 * (1 + np.abs(A).sum()) * (1 + abs(turns))
        close(ctx, got, A @ X, "combination %s of %s" % (A.tolist(), X.tolist()), scale)
        ctx.check(np.array_equal(Y, Y0) and np.array_equal(A, A0), "an argument was modified")
        for i in range(l):
            v = ctx.call(C.linear_combination, fx(Y), fa(A[i]))
            ctx.check(np.shape(v) == (n,), "a vector of coefficients gave shape %s", np.shape(v))
            close(ctx, v, got[i], "vector argument", scale)
            in_range(ctx, v, "linear combination given by a vector")
        for B in ([[1] * l], [[0] * (l - 1) + [-1], [2] + [0] * (l - 1)], [[3] * l, [-2] * l, list(range(l))]):
            B = np.array(B)
            twice = ctx.call(C.linear_combination, got, B)
            in_range(ctx, twice, "linear combination of linear combinations")
            close(ctx, twice, ctx.call(C.linear_combination, X, B @ A), "composition", 100 * scale)
        ctx.state(A, Y)
        ctx.outcome(np.round(np.cos(got), 5))

    return driver


def many(sizes):
    """Many maps on many points."""

    def driver(ctx):
        k, l, n = ctx.choose("maps", [1, 4, 15]), ctx.choose("combinations", [1, 6, 20]), ctx.choose("n", sizes)
        big = ctx.choose("largest coefficient", [2, 200, 40000])
        A = ((np.arange(l * k).reshape(l, k) * 7919 + 3) % (2 * big + 1)) - big
        X = np.mod(np.outer(np.arange(1, k + 1) * np.sqrt(2), np.arange(1, n + 1) * np.sqrt(3)), 1) * T
        A0, X0 = A.copy(), X.copy()
        got = ctx.call(C.linear_combination, X, A)
        in_range(ctx, got, "linear combination")
        close(ctx, got, A @ X, "combination", 10 * (1 + np.abs(A).sum(1).max()))
        one = ctx.call(C.linear_combination, X[:, :1], A)
        close(ctx, one, got[:, :1], "combination at one point alone", 10 * (1 + np.abs(A).sum(1).max()))
        ctx.check(np.array_equal(A, A0) and np.array_equal(X, X0), "an argument was modified")
        x = X[0]
        s = ctx.choose("offset", [0.3, 7])
        close(ctx, ctx.call(C.offset, x, s), x + s * T, "offset", 10)
        nl = ctx.choose("n_levelsets", [3, 40])
        col = ctx.call(C.levelset_coloring, x, smoothing=0, n_levelsets=nl)
        one = np.concatenate([ctx.call(C.levelset_coloring, x[i : i + 1], smoothing=0, n_levelsets=nl)
                              for i in range(0, n, max(1, n // 7))])
        ctx.check(np.array_equal(col[:: max(1, n // 7)], one), "the colour depends on the other points")
        sb = ctx.call(C.to_sinebow, X)
        ctx.check(sb.shape == X.shape + (3,), "shape %s", sb.shape)
        ctx.check(np.abs(sb[0, :: max(1, n // 7)] - ctx.call(C.to_sinebow, x[:: max(1, n // 7)])).max() < 1e-12,
                  "the colour depends on the other points")
        check_center(ctx, x)
        ctx.state(k, l, n, big)
        ctx.outcome(np.round(np.cos(got[:, -1]), 5))

    return driver


def offset(ctx):
    n = ctx.choose("n", [1, 2, 3])
    X = np.array([ctx.choose("x%d" % i, GRID + [-1 / 4, 3.5]) for i in range(n)]) * T
    s = ctx.choose("offset", [0, 0.25, 0.5, 1 / 3, 0.9, 1, 1.0, -0.25, 2.5])
    X0 = X.copy()
    got = ctx.call(C.offset, X, s)
    in_range(ctx, got, "offset")
    close(ctx, got, X + s * T, "offset by %g" % s, 10)
    ctx.check(np.array_equal(X, X0), "the argument was modified")
    t = ctx.choose("second", [0.125, 0.75])
    close(ctx, ctx.call(C.offset, got, t), ctx.call(C.offset, X, s + t), "two offsets", 10)
    ctx.state(X, s)
    ctx.outcome(np.round(np.cos(got), 5))


def check_center(ctx, X):
    X0 = X.copy()
    got = ctx.call(C.center, X)
    ctx.check(np.array_equal(X, X0), "the argument was modified")
    ctx.check(np.shape(got) == X.shape, "shape %s", np.shape(got))
    in_range(ctx, got, "centred map")
    s = got - X
    ctx.check(circ(s - s[0]).max() < 1e-9, "not a rotation: the points move by %s", (s[:9] / T).tolist())
    counts, ticks = np.histogram(X, bins=50)
    best = ticks[:-1][counts == counts.max()]
    ctx.check(circ(best + s[0] - np.pi).min() < 1e-9,
              "no most populated bin (starting at one of %s) is moved to half a turn by the rotation of %g turns",
              (best / T).tolist(), s[0] / T)
    return s[0]


def center(n, grid):
    def driver(ctx):
        X = np.array([ctx.choose("x%d" % i, grid) for i in range(n)]) * T
        rep = ctx.choose("copies", [1, 3])
        X = np.concatenate([X, np.repeat(X[:1], rep - 1)])
        s = check_center(ctx, X)
        ctx.state(X)
        ctx.outcome(np.round(np.cos(s), 6))

    return driver


def coloring(ctx):
    n = ctx.choose("n_levelsets", [4, 1, 2, 3, 5, 8])
    sm = ctx.choose("smoothing", [0.25, 0, 0.0, 0.01, 0.1, 0.5, 1.0])
    steps = 2 * n * ctx.choose("resolution", [4, 10, 14])
    shift = ctx.choose("turns", [0, 1, -2, 5])
    x = (np.arange(steps) + 0.5) / steps * T
    base = ctx.call(C.levelset_coloring, x, n_levelsets=n, smoothing=sm)
    got = ctx.call(C.levelset_coloring, x + shift * T, n_levelsets=n, smoothing=sm)
    ctx.check(np.shape(got) == (steps,), "shape %s", np.shape(got))
    ctx.check(bool(np.isfinite(got).all() and (got >= 0).all() and (got <= 1).all()), "colours outside [0, 1]")
    ctx.check(np.abs(got - base).max() < 1e-6, "the colour of a point changes by %g after whole turns", np.abs(got - base).max())
    side = got > 0.5
    flips = int((side != np.roll(side, 1)).sum())
    ctx.check(flips == 2 * n, "%d changes of class per turn for %d level sets", flips, n)
    runs = np.diff(np.flatnonzero(side != np.roll(side, 1)))
    ctx.check(len(set(runs.tolist())) <= 1, "level sets of unequal sizes %s", runs.tolist())
    arc = (np.arange(steps) + 0.5) / steps * 2 * n
    if sm == 0:
        ctx.check(np.array_equal(got, np.floor(arc) % 2), "the second class is not made of every other one of %d equal arcs", 2 * n)
    else:
        peak = 1 - np.abs(arc % 2 - 1)  # 0 at the ends of the first arc that are even, 1 at the odd ones
        order = np.argsort(peak, kind="stable")
        ctx.check(bool((np.diff(got[order]) > -1e-9).all()), "the colour is not monotone along each of %d equal arcs", 2 * n)
    if sm == 0:
        ctx.check(set(np.unique(got)) <= {0.0, 1.0}, "values %s without smoothing", np.unique(got).tolist())
    one = ctx.call(C.levelset_coloring, x[:1], n_levelsets=n, smoothing=sm)
    ctx.check(abs(one[0] - base[0]) < 1e-9, "the colour depends on the other points")
    if sm == 0:
        # just before and just after the boundaries of the arcs
        for e in (1e-3, 1e-9):
            for k in range(2 * n):
                c = ctx.call(C.levelset_coloring, (np.array([k + e, k + 1 - e]) / (2 * n) + shift) * T, n_levelsets=n, smoothing=sm)
                ctx.check(np.array_equal(c, [k % 2, k % 2]), "the ends of arc %d of %d (%g away) have colours %s", k, 2 * n, e, c.tolist())
    if (n, sm) == (4, 0.25):
        d = ctx.call(C.levelset_coloring, x)
        ctx.check(np.abs(d - base).max() < 1e-12, "the defaults are not 4 level sets with smoothing 0.25")
    ctx.state(n, sm, steps, shift)
    ctx.outcome(np.round(got, 5))


def sinebow(ctx):
    shape = ctx.choose("shape", [(12,), (3, 4), (1,), (0,), (2, 3, 2)])
    first = ctx.choose("first", GRID)
    size = int(np.prod(shape))
    x = (first + np.arange(size) / max(size, 1)).reshape(shape) * T
    x0 = x.copy()
    got = ctx.call(C.to_sinebow, x)
    ctx.check(np.array_equal(x, x0), "the argument was modified")
    ctx.check(got.shape == shape + (3,), "shape %s", got.shape)
    ctx.check(bool((got >= 0).all() and (got <= 1).all()), "colours outside [0, 1]")
    turns = ctx.choose("turns", [1, -1, 4])
    again = ctx.call(C.to_sinebow, x + turns * T)
    ctx.check(np.abs(again - got).max(initial=0) < 1e-9, "the colour of a point changes after whole turns")
    f = got.reshape(-1, 3)
    for i, j in itertools.combinations(range(size), 2):
        ctx.check(np.abs(f[i] - f[j]).max() > 1e-6, "different points %d, %d of the circle have the same colour", i, j)
    for i in range(size):
        one = ctx.call(C.to_sinebow, x.reshape(-1)[i : i + 1])
        ctx.check(np.abs(one[0] - f[i]).max() < 1e-12, "the colour depends on the other points")
    ctx.state(x, turns)
    ctx.outcome(np.round(got, 5))


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("one_map", combos(1, 2, list(range(-6, 7)), 2), bound=2),
        Scenario("two_maps", combos(2, 2, [0, 1, -1, 3] if q else [0, 1, -1, 2, -3, 40], 1 if q else 2), bound=1 if q else 2, want=128),
        Scenario("three_maps", combos(3, 1, [0, 1, -2, 5], 1), bound=1 if q else 3, want=128),
        Scenario("three_to_two", combos(3, 2, [0, -1], 1), bound=1 if q else 3, want=128),
        Scenario("large_entries", combos(1, 1, [127, 128, -129, 200, 255, 256, -300, 32768, 65536, -100000], 1), bound=2),
        Scenario("many", many([3, 1000, 10000] if q else [3, 1000, 10000, 200000])),
        Scenario("offset", offset, want=64),
        Scenario("center", center(4, [0, 0.02, 0.1, 0.25, 0.27, 0.5, 0.75, 0.99, 1.0]), want=64),
        Scenario("center_few", center(2, [i / 50 for i in range(51)]), want=64),
        Scenario("center_one", center(1, GRID)),
        Scenario("coloring", coloring),
        Scenario("sinebow", sinebow),
    ]
