import functools
import itertools

import numpy as np

from mc.env import dreimac, raw_ripser
from mc import families as F, ref
from mc.engine import Failed, Scenario
from mc.modp import column_span

ASSUMPTIONS = [
    "ripser is trusted for the diagram of the landmarks; representatives are checked algebraically",
    "degree-three lists are checked for order and content only",
]
PRIMES = [41, 2, 3, 5]


@functools.lru_cache(maxsize=20000)
def image(K, dim, p):
    return column_span(K.d0 if dim == 1 else K.d1, p)


def at_most(D, t):
    return ref.rips(D, np.nextafter(t, np.inf))


def one_cocycle(D, cd, t, p):
    """The cochain is closed on the triangles with edges shorter than t (one vertex at a time)."""
    n = len(D)
    C = np.zeros((n, n), dtype=np.int64)
    for (i, j), v in cd.items():
        C[i, j], C[j, i] = v, -v
    E = (D < t) & ~np.eye(n, dtype=bool)
    return all(not (((C[i][:, None] + C - C[i][None, :]) % p)[E & E[i][:, None] & E[i][None, :]]).any() for i in range(n))


def check_object(ctx, obj, kind, X, dm, n_land, p, maxdim, pers=None):
    pers = pers or ref.Persistence(X, n_land, dm, p, maxdim, raw_ripser)
    D = pers.D.astype(np.float32).astype(float)
    n = pers.n
    ctx.check(pers.same_landmarks, "landmarks of ripser differ from the maxmin subsample")
    direct = raw_ripser(pers.D, distance_matrix=True, coeff=p, maxdim=maxdim)["dgms"]
    ctx.check(len(obj.dgms_) == maxdim + 1, "%d diagrams for maxdim %d", len(obj.dgms_), maxdim)
    for d in range(maxdim + 1):
        dg = np.asarray(obj.dgms_[d], float)
        ctx.check(sorted(map(tuple, dg.tolist())) == sorted(map(tuple, direct[d].tolist())),
                  "degree %d: diagram %s, the landmarks' is %s", d, dg.tolist(), direct[d].tolist())
        if d == 0:
            continue
        life = dg[:, 1] - dg[:, 0]
        ctx.check(bool((np.diff(life) <= 1e-9).all()), "degree %d: not by decreasing persistence: %s", d, dg.tolist())
        if d > 2:
            continue
        reps = []
        for k in range(len(dg)):
            r = ctx.call(obj.get_representative_cocycle, k, d)
            b, e, c = r
            ctx.check((float(b), float(e)) == tuple(dg[k].tolist()), "class %d: end points %s, diagram %s", k, r[:2], dg[k])
            c = np.asarray(c)
            ctx.check(c.ndim == 2 and c.shape[1] == d + 2, "representative has shape %s", c.shape)
            ctx.check(c.dtype.kind in "iu", "representative is not integral")
            v = c[:, :-1]
            ctx.check(bool(((v >= 0) & (v < n)).all()), "vertices %s are not landmark positions", np.unique(v).tolist())
            ctx.check(all(len(set(row)) == d + 1 for row in v.tolist()), "degenerate simplex in representative")
            ctx.check(bool(((c[:, -1] >= 0) & (c[:, -1] < p)).all()), "values outside the field of %d elements", p)
            cd = {}
            for row in c.tolist():
                s = tuple(sorted(row[:-1]))
                ctx.check(s not in cd, "simplex listed twice")
                cd[s] = ref.perm_sign(row[:-1]) * row[-1]
            reps.append((float(b), float(e), cd))
            if d == 1:
                bad = not one_cocycle(D, cd, e, p)
            else:
                K = ref.rips(D, e)
                bad = ((K.d2 @ ref.vec(cd, K.tri)) % p).any()
            ctx.check(not bad, "degree %d class %d is not a cocycle below its death", d, k)
            Kb = ref.rips(D, b)
            y = ref.vec(cd, Kb.edges if d == 1 else Kb.tri)
            ctx.check(not image(Kb, d, p).reduce(y).any(), "degree %d class %d is alive before its birth", d, k)
        for t in sorted({b for b, _, _ in reps}):
            K = at_most(D, t)
            S = image(K, d, p).copy()
            for i, (b, e, cd) in enumerate(reps):
                if b <= t < e:
                    ctx.check(S.add(ref.vec(cd, K.edges if d == 1 else K.tri)),
                              "degree %d: the classes alive at %g are dependent (class %d)", d, t, i)
        ctx.note("classes_checked", len(reps))
    ctx.state(D, p, n_land, maxdim)
    ctx.outcome([np.asarray(x) for x in obj.dgms_])


KINDS = ["CircularCoords", "ToroidalCoords", "ProjectiveCoords", "LensCoords", "ComplexProjectiveCoords"]


def build(ctx, X, dm, n_land, maxdims=(1, 2)):
    kind = ctx.choose("class", KINDS, True)
    p = ctx.choose("prime", PRIMES, True)
    maxdim = ctx.choose("maxdim", list(maxdims), True)
    kw = {}
    if kind == "ProjectiveCoords":
        if p != 41:
            ctx.prune()
        p = 2
    else:
        kw["prime"] = p
    keep = np.array(X, copy=True)
    obj = ctx.call(getattr(dreimac, kind), X, n_land, distance_matrix=dm, maxdim=maxdim, **kw)
    ctx.check(np.array_equal(keep, X), "the constructor modified the data")
    check_object(ctx, obj, kind, X, dm, n_land, p, maxdim)


def metrics(n, values, rect, maxdims=(1, 2), less=1):
    def driver(ctx):
        D = F.metric(ctx, n, values)
        n_land = ctx.choose("n_landmarks", [n - m for m in range(less + 1)])
        if rect:
            extra = [np.minimum.reduce([D[i] + 0.25]) for i in range(n)]
            D = np.hstack([D, np.array(extra[::2]).T])
        build(ctx, D, True, n_land, maxdims)

    return driver


def circle(n, gaps, less):
    def driver(ctx):
        D = F.circle_metric([ctx.choose("gap%d" % i, gaps) for i in range(n)])
        n_land = ctx.choose("n_landmarks", [n - m for m in range(less + 1)])
        rows = ctx.choose("form", ["square", "rectangular"])
        if rows == "rectangular":
            D = D[:n - 1]
            n_land = min(n_land, n - 1)
        build(ctx, D, True, n_land, (1,))

    return driver


def clouds(dims, least):
    pts = F.lattice(*dims)

    def driver(ctx):
        m = [ctx.choose("p%d" % i, [1, 0]) for i in range(len(pts))]
        X = pts[np.array(m, bool)]
        if len(X) < least:
            ctx.prune()
        X = X[ctx.choose("order", [slice(None), slice(None, None, -1)])]
        n_land = ctx.choose("n_landmarks", [len(X) - i for i in (0, 1, 2)])
        build(ctx, X, False, n_land)

    return driver


def octahedra(ctx):
    from mc.props.c05 import matchings

    D = 4.0 * (1 - np.eye(7))
    for a, b in ctx.choose("antipodes", matchings(6)[::4]):
        D[a, b] = D[b, a] = ctx.choose("w%d%d" % (a, b), [6.0, 8.0, 7.0])
    for v in range(6):
        D[v, 6] = D[6, v] = ctx.choose("d%d6" % v, [4.0, 5.0])
    at = ctx.choose("position", [0, 3, 6])
    perm = [i for i in range(6)]
    perm.insert(at, 6)
    D = F.permuted(D, perm)
    n_land = ctx.choose("n_landmarks", [7, 6])
    build(ctx, D, True, n_land, (2, 3))


def pieces(dim, spans, count):
    """Disjoint spheres of dimension dim, each with its own birth and death, in every order."""
    size = 2 * dim + 2

    def driver(ctx):
        D = np.zeros((0, 0))
        chosen = []
        for i in range(count):
            b, e = ctx.choose("span%d" % i, [s for s in spans if s not in chosen])
            chosen.append((b, e))
            P = b * (F.cross_polytope(dim + 1, e / b))
            D = F.disjoint(D, P, 9.0) if len(D) else P
        n = len(D)
        stride = ctx.choose("stride", [1, 5 if n % 5 else 7])
        D = F.permuted(D, [(stride * i) % n for i in range(n)])
        n_land = n if dim > 1 else ctx.choose("n_landmarks", [n, n - 1])
        build(ctx, D, True, n_land, (dim, dim + 1))

    return driver


def close(counts):
    """Many classes, whose persistences are nearly the same."""

    def driver(ctx):
        m = ctx.choose("classes", counts)
        eps = ctx.choose("difference", [2.0**-12, 2.0**-18])
        stride = ctx.choose("stride", [1, 5, m - 1])
        born = ctx.choose("differ in", ["death", "birth"])
        D = np.zeros((0, 0))
        for i in range(m):
            x = eps * ((i * stride) % m)
            b, e = (1.0, 1.75 + x) if born == "death" else (1.0 + x, 1.75)
            P = b * F.cross_polytope(2, e / b)
            P[P > b] = e
            D = F.disjoint(D, P, 9.0) if len(D) else P
        build(ctx, D, True, len(D) - ctx.choose("landmarks left out", [0, 1]), (1,))

    return driver


class Landmarks:
    """The landmarks of a large data set, whose full distance matrix would not fit into memory."""

    def __init__(self, ctx, rows, n, perm):
        self.idx, self.n = [int(i) for i in perm], len(perm)
        ds, out = None, []
        self.same_landmarks = self.idx[0] == 0 and self.n == n
        for i, v in enumerate(self.idx):
            if i and ds[v] < ds.max() - 1e-6:
                self.same_landmarks = False
            row = rows(v)
            out.append(row[self.idx])
            ds = row if ds is None else np.minimum(ds, row)
        D = np.array(out)
        self.D = np.maximum(D, D.T)
        np.fill_diagonal(self.D, 0)


def many(sizes, lands):
    def driver(ctx):
        n, form = ctx.choose("n", sizes)
        n_land = ctx.choose("n_landmarks", lands)
        t = np.mod(np.arange(n) * np.sqrt(2), 1) * 2 * np.pi
        s = np.mod(np.arange(n) * np.sqrt(3), 1) * 0.25
        X = np.stack([(3 + s) * np.cos(t), (2 - s) * np.sin(t)], 1)
        ring = t < 0.9
        X[ring] += 9.0
        X[ring, 0] += np.cos(7 * t[ring])
        X[ring, 1] += np.sin(7 * t[ring])
        if ctx.choose("landmarks last", [False, True]):
            X = np.vstack([X[:1], X[1:][np.argsort(-np.abs(X[1:] - X[0]).sum(1))[::-1]]])  # the far points at the end
        p = ctx.choose("prime", [41, 3])
        kind = ctx.choose("class", ["CircularCoords", "ProjectiveCoords"])
        if kind == "ProjectiveCoords":
            if p != 41:
                ctx.prune()
            p = 2
        kw = {} if kind == "ProjectiveCoords" else dict(prime=p)
        if form == "cloud":
            D = X
        else:
            D = ref.pdist(X)
        rows = lambda i: np.sqrt(((X - X[i]) ** 2).sum(1))
        raw = raw_ripser(D, distance_matrix=form != "cloud", coeff=p, maxdim=1, n_perm=n_land, do_cocycles=True)
        pers = Landmarks(ctx, rows, n_land, raw["idx_perm"])
        if form == "cloud":
            # the distances of a cloud are computed by ripser, up to rounding: compare in its own ones
            pers.D = raw["dperm2all"][:, raw["idx_perm"]]
        obj = ctx.call(getattr(dreimac, kind), D, n_land, distance_matrix=form != "cloud", **kw)
        check_object(ctx, obj, kind, D, form != "cloud", n_land, p, 1, pers)

    return driver


def long_circle(sizes):
    def driver(ctx):
        n = ctx.choose("n", sizes)
        D = F.circle_metric([1.0 + 0.125 * ((i * i) % 5) for i in range(n)])
        stride = ctx.choose("stride", [1, 11, 13])
        D = F.permuted(D, [(i * stride) % n for i in range(n)])
        build(ctx, D, True, n - ctx.choose("landmarks left out", [0, 3]), (1,))

    return driver


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("metrics4", metrics(4, [2.0, 3.0, 4.0], False), bound=2 if q else 3, want=128),
        Scenario("metrics5", metrics(5, [2.0, 3.0], True), bound=1 if q else 3, want=128),
        Scenario("metrics5w", metrics(5, [2.0, 3.0, 4.0], True, less=0), bound=0 if q else 1, want=256),
        Scenario("metrics6", metrics(6, [1.0, 2.0], False, less=0), bound=0 if q else 1, want=256),
        Scenario("circle", circle(8 if q else 10, [2.0, 3.0], 3), bound=1 if q else 2, want=128),
        Scenario("clouds", clouds((3, 3), 5), bound=0 if q else 1, want=128),
        Scenario("circles", pieces(1, [(1.0, 2.0), (1.0, 2.0078125), (1.5, 2.75), (2.0, 2.5), (2.0, 3.99609375), (2.0, 4.0)], 3), bound=1, want=64),
        Scenario("spheres2", pieces(2, [(1.0, 2.0), (1.5, 2.75), (2.0, 2.5), (2.0, 2.50390625)], 3), bound=0 if q else 1, want=48),
        Scenario("spheres3", pieces(3, [(1.0, 2.0), (1.5, 2.75), (2.0, 2.5)], 2), bound=0 if q else 1, want=12),
        Scenario("close", close([19, 31, 67] if q else [19, 31, 53, 67, 131]), bound=0 if q else 1, want=72),
        Scenario("many", many([(300, "matrix"), (2000, "matrix"), (70000, "cloud")], [16, 40] if q else [16, 40, 90]), want=48),
        Scenario("long_circle", long_circle([140] if q else [40, 140, 261, 300]), bound=0 if q else 1, want=48),
        Scenario("octahedra", octahedra, bound=0 if q else 1, want=128),
    ]
