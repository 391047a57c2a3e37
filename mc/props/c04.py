import numpy as np

from mc import answers, env
from mc.env import Hooks, dreimac, raw_ripser
from mc import families as F
from mc.common import n_classes
from mc.copies import LARGE, SIZES, copies
from mc.engine import Scenario
from mc.proj import projective_run
from mc.props.c01 import SHAPES, orders

ASSUMPTIONS = [
    "ripser and eigh are trusted as specified",
    "landmarks and data points satisfy the triangle inequality",
    "coordinates are compared where every spectral gap of the reduction exceeds 1e-4 and no projection vanishes "
    "(otherwise the statement does not determine them)",
]
PERCS = [0.5, 0.25, 0.75, 0.0, 1.0]
BUMPS = ["linear", "quadratic", "exp"]
MODES = ["exponential", "direct", "one-by-one"]


def opts(ctx, n, sr0, kmax=2, percs=PERCS, dims=None):
    perc = ctx.choose("perc", percs, True)
    bump = ctx.choose("bump", BUMPS, True)
    sr = ctx.choose("standard_range", [sr0, not sr0], True)
    dim, mode = ctx.choose("reduction", [(n - 1, "exponential")] + [
        (d, m) for d in (dims or range(0, n + 1)) for m in MODES if (d, m) != (n - 1, "exponential")], True)
    k = ctx.choose("class", list(range(kmax)))
    return perc, bump, sr, dim, mode, k


def graphs(kind, n, levels, kmax, prime=2, primes=None, dims=None):
    def driver(ctx):
        D = F.metric(ctx, n, [1.0, 2.0])
        p = ctx.choose("prime", primes, True) if primes else prime
        perc, bump, sr, dim, mode, k = opts(ctx, n, False, n_classes(ctx, raw_ripser, D, True, 1, kmax), dims=dims)
        thr = (1 - perc) * (2.0 if sr else 1.0) + perc * 2.0
        C = F.clique_columns(D, thr, levels, limit=40)
        X = np.hstack([D, C])
        projective_run(ctx, dreimac, raw_ripser, kind, X, True, n, p, k, perc, bump, sr, dim, mode, True)

    return driver


def weighted(kind, n, values, prime=2, primes=None):
    def driver(ctx):
        D = F.metric(ctx, n, values)
        p = ctx.choose("prime", primes, True) if primes else prime
        perc, bump, sr, dim, mode, k = opts(ctx, n, False, n_classes(ctx, raw_ripser, D, True, 1, 1), dims=[1, 2])
        extra = np.hstack([F.clique_columns(D, t, [0.8125, 0.9375], limit=14) for t in (2.5, 3.0, 3.5)])
        X = np.hstack([D, extra])
        projective_run(ctx, dreimac, raw_ripser, kind, X, True, n, p, k, perc, bump, sr, dim, mode, True)

    return driver


def circle(kind, n, gaps, less, prime=2, primes=None):
    def driver(ctx):
        D = F.circle_metric([ctx.choose("gap%d" % i, gaps) for i in range(n)])
        p = ctx.choose("prime", primes, True) if primes else prime
        n_land = ctx.choose("n_landmarks", [n - m for m in range(less + 1)])
        perc, bump, sr, dim, mode, k = opts(ctx, n_land, True, 1, dims=[1, 2, 4])
        projective_run(ctx, dreimac, raw_ripser, kind, D, True, n_land, p, k, perc, bump, sr, dim, mode, True)

    return driver


def shapes(kind, prime=2, primes=None, n_orders=None, dims=(1, 2, 3, 5)):
    def driver(ctx):
        name = ctx.choose("shape", sorted(SHAPES))
        D = SHAPES[name]()
        n = len(D)
        D = F.permuted(D, ctx.choose("order", orders(n)[::n_orders or 1]))
        D = np.hstack([D, F.clique_columns(D, 1.5, [0.6875, 0.875])])
        p = ctx.choose("prime", primes, True) if primes else prime
        n_land = ctx.choose("n_landmarks", [n, n - 1, n - 2], True)
        perc, bump, sr, dim, mode, k = opts(ctx, n_land, False, n_classes(ctx, raw_ripser, D, True, 1, 3), dims=list(dims))
        projective_run(ctx, dreimac, raw_ripser, kind, D, True, n_land, p, k, perc, bump, sr, dim, mode, True)

    return driver


def represented(kind, primes):
    """Any representative of the class: coboundaries of vertex functions are added."""

    def driver(ctx):
        name = ctx.choose("shape", ["fat42", "circle6", "two", "wedge"])
        D = {"fat42": lambda: F.fat_circle(4, 2), "circle6": lambda: F.circle_metric([1.0] * 6),
             "two": lambda: F.disjoint(F.fat_circle(4, 1), F.circle_metric([1.0] * 5), 8.0),
             "wedge": lambda: F.wedge(F.fat_circle(4, 1), F.fat_circle(4, 1))}[name]()
        n = len(D)
        p = ctx.choose("prime", primes)
        values = sorted({0, 1, 2 % p, (p - 1) // 2, (p + 1) // 2, p - 1} - {p})
        s = [0] + [ctx.choose("s%d" % v, values, True) for v in range(1, n)]
        flip = ctx.choose("orientation", [False, True])
        extra = answers.coboundary0(s, n, p, None)

        def hook(res):
            for i in range(len(res["dgms"][1])):
                answers.rerepresent(res, 1, i, p, n, extra, flip)
            return res

        dim, mode = ctx.choose("reduction", [(n - 1, "exponential"), (1, "exponential"), (2, "direct"), (2, "one-by-one")])
        k = ctx.choose("class", [0, 1] if name in ("two", "wedge") else [0])
        X = np.hstack([D, F.clique_columns(D, 1.5, [0.6875, 0.875], limit=30)])
        Hooks.ripser = hook
        try:
            projective_run(ctx, dreimac, env.ripser, kind, X, True, n, p, k, 0.5, "linear", False, dim, mode, True)
        finally:
            Hooks.clear()

    return driver


def clouds(kind, dims, least, prime=2, primes=None):
    pts = F.lattice(*dims)

    def driver(ctx):
        m = [ctx.choose("p%d" % i, [1, 0]) for i in range(len(pts))]
        X = pts[np.array(m, bool)]
        if len(X) < least:
            ctx.prune()
        p = ctx.choose("prime", primes, True) if primes else prime
        n_land = ctx.choose("n_landmarks", [len(X), len(X) - 1])
        perc, bump, sr, dim, mode, k = opts(ctx, n_land, False, n_classes(ctx, raw_ripser, X, False, 1, 2), dims=[1, 2, 3])
        projective_run(ctx, dreimac, raw_ripser, kind, X, False, n_land, p, k, perc, bump, sr, dim, mode, False)

    return driver


K = "ProjectiveCoords"


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("graphs4", graphs(K, 4, [0.6875, 0.75, 0.9375], 1), bound=2 if q else 4),
        Scenario("graphs5", graphs(K, 5, [0.6875, 0.875], 1), bound=1 if q else 3, want=128),
        Scenario("graphs6", graphs(K, 6, [0.75], 2), bound=0 if q else 1, want=256),
        Scenario("weighted4", weighted(K, 4, [2.0, 3.0, 4.0]), bound=1 if q else 3, want=128),
        Scenario("weighted5", weighted(K, 5, [2.0, 3.0, 4.0]), bound=0 if q else 1, want=256),
        Scenario("circle", circle(K, 8 if q else 10, [2.0, 3.0], 2), bound=1 if q else 2, want=128),
        Scenario("shapes", shapes(K), bound=1 if q else 3, want=256),
        Scenario("clouds", clouds(K, (3, 3), 6), bound=1 if q else 2, want=128),
        Scenario("represented", represented(K, [2]), bound=2 if q else 4, want=128),
        Scenario("copies", copies(dreimac, ["ProjectiveCoords"], SIZES if q else LARGE), want=64),
        Scenario("compiled", shapes(K, n_orders=5), "jit", bound=1 if q else 2),
    ]
