import itertools

import numpy as np

from mc.env import dreimac, raw_ripser
from mc import families as F
from mc.copies import LARGE, SIZES, copies
from mc.circle import circular_run
from mc.common import n_classes
from mc.engine import Scenario

ASSUMPTIONS = [
    "ripser, lsqr, milp are trusted as specified (C03 varies their answers)",
    "landmarks and data points satisfy the triangle inequality",
    "values are compared up to 1e-4 turns (lsqr stops at 1e-6) and a rotation per component",
]
PRIMES = [41, 2, 3, 5, 7]
PERCS = [0.5, 0.25, 0.75, 0.0, 1.0]
BUMPS = ["linear", "quadratic", "exp"]


def options(ctx, sr0, dev=True, kmax=3, primes=PRIMES, percs=PERCS):
    prime = ctx.choose("prime", primes, dev)
    perc = ctx.choose("perc", percs, dev)
    bump = ctx.choose("bump", BUMPS, dev)
    sr = ctx.choose("standard_range", [sr0, not sr0], dev)
    check = ctx.choose("check", [True, False], dev)
    k = ctx.choose("class", list(range(kmax)))
    return prime, perc, bump, sr, check, k


def graphs(n, levels, kmax):
    def driver(ctx):
        D = F.metric(ctx, n, [1.0, 2.0])
        prime, perc, bump, sr, check, k = options(ctx, False, kmax=n_classes(ctx, raw_ripser, D, True, 1, kmax))
        # the thresholds of these metrics: births 1, deaths 2
        thr = (1 - perc) * (2.0 if sr else 1.0) + perc * 2.0
        C = F.clique_columns(D, thr, levels, limit=60)
        X = np.hstack([D, C])
        circular_run(ctx, dreimac, raw_ripser, X, True, n, prime, k, perc, bump, sr, check, True)

    return driver


def weighted(n, values):
    def driver(ctx):
        D = F.metric(ctx, n, values)
        prime, perc, bump, sr, check, k = options(ctx, False, kmax=n_classes(ctx, raw_ripser, D, True, 1, 2))
        n_land = ctx.choose("n_landmarks", [n] + ([n - 1] if n > 4 else []))
        extra = np.hstack([F.clique_columns(D, t, [0.8125, 0.9375], limit=25) for t in (2.5, 3.0, 3.5)])
        X = np.hstack([D, extra]) if n_land == n else D
        circular_run(ctx, dreimac, raw_ripser, X, True, n_land, prime, k, perc, bump, sr, check, True)

    return driver


def circle(n, gaps, less):
    def driver(ctx):
        D = F.circle_metric([ctx.choose("gap%d" % i, gaps) for i in range(n)])
        prime, perc, bump, sr, check, k = options(ctx, True, kmax=1)
        n_land = ctx.choose("n_landmarks", [n - m for m in range(less + 1)])
        circular_run(ctx, dreimac, raw_ripser, D, True, n_land, prime, k, perc, bump, sr, check, True)

    return driver


SHAPES = {
    "eight_4_5": lambda: F.figure_eight(4, 5),
    "eight_6_6": lambda: F.figure_eight(6, 6),
    "theta_2_3_4": lambda: F.theta(2, 3, 4),
    "theta_4_4_4": lambda: F.theta(4, 4, 4),
    "dumbbell_5_4_2": lambda: F.dumbbell(5, 4, 2),
    "two_circles": lambda: F.disjoint(F.circle_metric([1.0] * 6), F.circle_metric([1.0] * 5), 8.0),
    "circle_and_point": lambda: F.disjoint(F.circle_metric([1.0] * 8), np.zeros((1, 1)), 16.0),
    "three_circles": lambda: F.disjoint(
        F.disjoint(F.circle_metric([1.0] * 4), F.circle_metric([1.0] * 4), 8.0), F.circle_metric([1.0] * 5), 8.0),
}


def orders(n):
    """All rotations and reflections of the labels, and three strides."""
    out = []
    for s in range(n):
        out.append([(i + s) % n for i in range(n)])
        out.append([(s - i) % n for i in range(n)])
    for st in (2, 3, 5, 7):
        if np.gcd(st, n) == 1:
            out.append([(i * st) % n for i in range(n)])
    return out


def shapes(ctx):
    name = ctx.choose("shape", sorted(SHAPES))
    D = SHAPES[name]()
    n = len(D)
    D = F.permuted(D, ctx.choose("order", orders(n)))
    D = np.hstack([D, F.clique_columns(D, 1.5, [0.6875, 0.875])])
    prime, perc, bump, sr, check, k = options(ctx, False, kmax=n_classes(ctx, raw_ripser, D, True, 1, 4))
    n_land = ctx.choose("n_landmarks", [n, n - 1, n - 2], True)
    circular_run(ctx, dreimac, raw_ripser, D, True, n_land, prime, k, perc, bump, sr, check, True)


def long_circle(sizes):
    """Many landmarks on a circle, just after the birth of the class."""

    def driver(ctx):
        n = ctx.choose("n", sizes)
        gaps = [1.0 + 0.125 * ((i * i) % 5) for i in range(n)]
        stride = ctx.choose("stride", [1, 7, 11])
        D = F.permuted(F.circle_metric(gaps), [(i * stride) % n for i in range(n)])
        perc = ctx.choose("perc", [0.02, 0.05])
        prime = ctx.choose("prime", [41, 2, 3], True)
        bump = ctx.choose("bump", BUMPS, True)
        less = ctx.choose("landmarks left out", [0, 3])
        circular_run(ctx, dreimac, raw_ripser, D, True, n - less, prime, 0, perc, bump, False, True, True)

    return driver


def clouds(dims, sizes):
    pts = F.lattice(*dims)

    def driver(ctx):
        m = [ctx.choose("p%d" % i, [1, 0]) for i in range(len(pts))]
        X = pts[np.array(m, bool)]
        if len(X) < sizes:
            ctx.prune()
        prime, perc, bump, sr, check, k = options(ctx, False, kmax=n_classes(ctx, raw_ripser, X, False, 1, 2))
        n_land = ctx.choose("n_landmarks", [len(X), len(X) - 1], False)
        circular_run(ctx, dreimac, raw_ripser, X, False, n_land, prime, k, perc, bump, sr, check, False)

    return driver


def compiled(ctx):
    """The same with compiled functions: the shapes, every option once."""
    name = ctx.choose("shape", sorted(SHAPES))
    D = SHAPES[name]()
    n = len(D)
    D = F.permuted(D, ctx.choose("order", orders(n)[1::7]))
    D = np.hstack([D, F.clique_columns(D, 1.5, [0.6875, 0.875])])
    prime, perc, bump, sr, check, k = options(ctx, False, kmax=2, primes=[41, 3], percs=[0.5, 0.75])
    n_land = ctx.choose("n_landmarks", [n, n - 1], True)
    circular_run(ctx, dreimac, raw_ripser, D, True, n_land, prime, k, perc, bump, sr, check, True)


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("graphs4", graphs(4, [0.6875, 0.75, 0.9375], 1), bound=5),
        Scenario("graphs5", graphs(5, [0.6875, 0.875], 1), bound=1 if q else 5),
        Scenario("graphs6", graphs(6, [0.75], 2), bound=0 if q else 1, want=256),
        Scenario("weighted4", weighted(4, [2.0, 3.0, 4.0]), bound=2 if q else 5),
        Scenario("weighted5", weighted(5, [2.0, 3.0]) if q else weighted(5, [2.0, 3.0, 4.0]), bound=1, want=256),
        Scenario("circle", circle(9, [2.0, 3.0], 2) if q else circle(10, [2.0, 3.0], 3),
                 bound=1 if q else 2, want=128),
        Scenario("shapes", shapes, bound=1 if q else 3, want=256),
        Scenario("long_circle", long_circle([24, 40, 65] if q else [24, 40, 65, 90, 129]), bound=1, want=32),
        Scenario("longer_circle", long_circle([141] if q else [141, 200]), bound=0, want=32),
        Scenario("clouds", clouds((3, 3), 6), bound=1 if q else 3),
        Scenario("clouds34", clouds((3, 4), 10 if q else 7), bound=0 if q else 1, want=256),
        Scenario("copies", copies(dreimac, ["CircularCoords"], SIZES if q else LARGE), want=64),
        Scenario("compiled", compiled, "jit", bound=0 if q else 1),
    ]
