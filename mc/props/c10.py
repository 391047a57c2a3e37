import copy
import itertools
import warnings

import numpy as np

from mc.env import Hooks, dreimac
from mc import answers, families as F
from mc.engine import Failed, Scenario, Violation, digest
from mc.fresh import Fresh

ASSUMPTIONS = [
    "object states are compared through the attributes of the object (histories are merged only when all of them agree);"
    " state kept elsewhere is covered by the bounded sequences over two objects",
    "the baseline is the same query in a process that has made no other query",
]


class Boom(Exception):
    pass


def boom(ds, r):
    raise Boom("partition function failed")


def nudge(ds, r):
    """A user partition function that is not one of those provided."""
    return (r - ds) * (1 + 0.25 * ds)


def greedy(ds, r):
    """One that overwrites the array it is given."""
    out = r - ds
    ds[...] = 0
    return out


FN = {None: None, "exp": dreimac.PartUnity.exp, "quadratic": dreimac.PartUnity.quadratic, "boom": boom,
      "nudge": nudge, "greedy": greedy}


def columns(D, thr, cap):
    C = F.clique_columns(D, thr, [0.6875, 0.875])
    far = np.full((len(D), 1), 9.0)
    return np.hstack([D, C[:, :: max(1, C.shape[1] // cap)], far])


_D = {}


def data(name):
    """Data sets: rectangular and square matrices, with points not covered, and point clouds."""
    if name not in _D:
        c4 = F.circle_metric([1.0] * 4)
        _D[name] = {
            "eight": lambda: (columns(F.figure_eight(4, 5), 1.5, 12), 8, True),
            "eight again": lambda: (columns(F.permuted(F.figure_eight(4, 5), [0, 6, 2, 4, 7, 5, 1, 3]), 1.5, 12), 8, True),
            "octahedron again": lambda: (F.permuted(F.cross_polytope(3), [0, 2, 5, 1, 4, 3]), 6, True),
            "fat": lambda: (columns(F.disjoint(F.fat_circle(4, 2), F.fat_circle(4, 1), 9.0), 1.5, 12), 11, True),
            "square": lambda: (F.disjoint(F.circle_metric([1.0, 1.25, 1.5, 1.0, 1.25]), c4, 9.0), 9, True),
            "sub": lambda: (F.circle_metric([0.5] * 20), 10, True),
            "cloud": lambda: (np.array([(3 * np.cos(t) + .01 * i, 2 * np.sin(t)) for i, t in
                                        enumerate(np.arange(16) * np.pi / 8)]), 8, False),
            "octahedra": lambda: (columns(F.disjoint(F.cross_polytope(3), F.cross_polytope(3, 1.75), 9.0), 1.5, 10), 12, True),
            "late": lambda: (columns(late(), 1.5, 12), 7, True),
            "late2": lambda: (columns(late2(), 1.5, 12), 8, True),
            "octahedron": lambda: (F.cross_polytope(3), 6, True),
        }[name]()
    return _D[name]


def late():
    """A circle with triangles on its edges, two of which close between perc = 0.5 and 0.75."""
    D = F.graph_metric(7, [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (1, 5), (3, 6), (2, 6)])
    for a, b in ((2, 5), (4, 5)):
        D[a, b] = D[b, a] = 1.7
    return D


def late2():
    """An octahedron with cones over two faces, one of which closes between perc = 0.5 and 0.75."""
    D = F.disjoint(F.cross_polytope(3), np.zeros((2, 2)), 2.0)
    D[6, 7] = D[7, 6] = 2.0
    for q, face, w in ((6, (0, 2, 4), 1.0), (7, (1, 2, 5), 1.7)):
        for i in face:
            D[i, q] = D[q, i] = w
    return D


def represented(name, res):
    """Representatives of these data sets whose lift is no cocycle at several scales."""
    if name == "late":
        return answers.rerepresent(res, 1, 0, 3, 7, answers.coboundary0(LATE, 7, 3, None))
    if name == "late2":
        d = dict(zip(itertools.combinations(range(8), 2), LATE2))
        return answers.rerepresent(res, 2, 0, 3, 8, {(i, j, k): (d[j, k] - d[i, k] + d[i, j]) % 3
                                                     for i, j, k in itertools.combinations(range(8), 3)})
    return res


LATE = (0, 0, 0, 1, 0, 1, 2)
LATE2 = [1, 1, 2, 2, 1, 1, 1, 2, 0, 1, 0, 1, 2, 1, 1, 2, 1, 2, 0, 1, 2, 2, 1, 1, 1, 1, 0, 2]
PRIME = {"ProjectiveCoords": 2}


def construct(kind, name, prime):
    X, n, dm = data(name)
    X = X.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kw = {} if prime is None else dict(prime=prime)
        Hooks.ripser = lambda res: represented(name, res)
        try:
            return X, getattr(dreimac, kind)(X, n, distance_matrix=dm, **kw)
        finally:
            Hooks.clear()


def apply(obj, op, strict=True):
    """A query; the result as a list of arrays, or the class and message of the error."""
    kw = dict(op)
    method = kw.pop("method", "get_coordinates")
    if "partunity_fn" in kw:
        kw["partunity_fn"] = FN[kw["partunity_fn"]]
    if "cocycle_idxs" in kw:
        kw["cocycle_idxs"] = list(kw["cocycle_idxs"])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            r = getattr(obj, method)(**kw)
        except Exception as e:
            return "error", type(e).__name__, []
        finally:
            if strict and "cocycle_idxs" in kw and kw["cocycle_idxs"] != list(dict(op)["cocycle_idxs"]):
                raise Violation("the list of classes passed in was modified")
    return "ok", sorted({str(x.message) for x in w}), ([r] if isinstance(r, np.ndarray) else list(r))


def baseline(kind, name, prime, op):
    _, obj = construct(kind, name, prime)
    s, w, r = apply(obj, op, False)
    return s, w, [np.array(x) for x in r], [np.array(d) for d in obj.dgms_]


fresh = Fresh("mc.props.c10", "baseline")


def op(**kw):
    return tuple(sorted(kw.items()))


COMMON = [
    op(),
    op(perc=0.5, standard_range=False),
    op(perc=0.5, standard_range=False, cocycle_idx=1),
    op(perc=0.25, standard_range=False),
    op(perc=0.75, standard_range=False),
    op(perc=0.5, standard_range=False, partunity_fn="quadratic"),
    op(perc=1.0, standard_range=False, partunity_fn="exp"),
    op(perc=0.5, standard_range=False, partunity_fn="greedy"),
    op(perc=0.5, standard_range=True),
    op(perc=0.5, standard_range=False, partunity_fn="boom"),
    op(perc=0.5, standard_range=False, cocycle_idx=99),
    op(perc=0.75, standard_range=False, partunity_fn="nudge"),
    op(perc=0.68, standard_range=False),
    op(perc=0.72, standard_range=False),
    op(perc=0.5001, standard_range=False),
    op(perc=0.500000001, standard_range=False, partunity_fn="exp"),
]


def reps(hd):
    return [op(method="get_representative_cocycle", cohomology_class=k, homological_dimension=hd) for k in (0, 1)]


def ops(kind):
    if kind == "CircularCoords":
        return COMMON + reps(1) + [op(perc=0.5, standard_range=False, check_cocycle_condition=False)]
    if kind == "ToroidalCoords":
        out = [tuple((("cocycle_idxs", (v,)) if k == "cocycle_idx" else (k, v)) for k, v in o) for o in COMMON]
        return out + reps(1) + [
            op(perc=0.5, standard_range=False, cocycle_idxs=(0, 1)), op(perc=0.5, standard_range=False, cocycle_idxs=(1, 0)),
            op(perc=0.75, standard_range=False, cocycle_idxs=(0, 1)),
            op(perc=0.5, standard_range=False, cocycle_idxs=(0, 99)),
            op(perc=0.5, standard_range=False, cocycle_idxs=(0, 1), check_cocycle_condition=False)]
    if kind == "LensCoords":
        return COMMON + reps(1) + [op(perc=0.5, standard_range=False, complex_dim=d, projective_dim_red_mode=m)
                                   for d, m in ((1, "direct"), (3, "one-by-one"), (2, "nonsense"))]
    hd = 2 if kind == "ComplexProjectiveCoords" else 1
    out = COMMON + reps(hd) + [op(perc=0.5, standard_range=False, proj_dim=d, projective_dim_red_mode=m)
                               for d, m in ((1, "direct"), (3, "one-by-one"), (2, "nonsense"))]
    if hd == 2:
        out.append(op(perc=0.5, standard_range=False, check_cocycle_condition=False))
    return out


def same(ctx, got, want, what, angles):
    ctx.check(got[0] == want[0], "%s: %s, on a fresh object %s", what, got[:2], want[:2])
    ctx.check(got[1] == want[1], "%s: reports %s, on a fresh object %s", what, got[1], want[1])
    ctx.check(len(got[2]) == len(want[2]), "%s: %d arrays, on a fresh object %d", what, len(got[2]), len(want[2]))
    for x, y in zip(got[2], want[2]):
        x, y = np.asarray(x), np.asarray(y)
        ctx.check(x.shape == y.shape, "%s: shape %s, on a fresh object %s", what, x.shape, y.shape)
        if np.array_equal(x, y, equal_nan=True):
            continue
        ctx.check(np.array_equal(np.isnan(x), np.isnan(y)), "%s: undefined at other points than on a fresh object", what)
        d = np.abs(x - y)
        if angles:
            d = np.minimum(d, np.abs(2 * np.pi - d))
        ctx.check(np.nanmax(d, initial=0) < 1e-9, "%s: differs by %.3g from a fresh object", what, np.nanmax(d, initial=0))


CONFIG = [
    ("CircularCoords", "eight", 3), ("CircularCoords", "fat", 2), ("CircularCoords", "square", None),
    ("CircularCoords", "sub", None), ("CircularCoords", "cloud", None),
    ("ToroidalCoords", "eight", 3), ("ToroidalCoords", "fat", 2), ("ToroidalCoords", "square", None),
    ("ToroidalCoords", "sub", 3), ("ToroidalCoords", "fat", 3),
    ("ProjectiveCoords", "eight", None), ("ProjectiveCoords", "fat", None), ("ProjectiveCoords", "cloud", None),
    ("LensCoords", "eight", None), ("LensCoords", "square", 5), ("LensCoords", "sub", None),
    ("ComplexProjectiveCoords", "octahedra", None), ("ComplexProjectiveCoords", "octahedron", 2),
    ("ComplexProjectiveCoords", "octahedra", 3), ("ComplexProjectiveCoords", "late2", 3),
    ("CircularCoords", "late", 3), ("ToroidalCoords", "late", 3),
]


def attributes(obj):
    return digest({k: v for k, v in vars(obj).items()})


def closure(max_states, max_depth):
    """Breadth first over the states of one object until no query leads to a new state."""

    def driver(ctx):
        kind, name, prime = ctx.choose("object", CONFIG)
        todo = ops(kind)
        X, obj = construct(kind, name, prime)
        X0 = data(name)[0]
        seen = {attributes(obj)}
        level = [(obj, ())]
        depth = 0
        angles = kind in ("CircularCoords", "ToroidalCoords")
        while level and depth < max_depth and len(seen) < max_states:
            nxt = []
            for o, hist in level:
                for q in todo:
                    c = copy.deepcopy(o)
                    # the copy also copies the user's array: the original is watched in `sequences`
                    got, _ = ctx.attempt(apply, c, q)
                    if isinstance(got, Failed):
                        raise got.exc
                    same(ctx, got, fresh(kind, name, prime, q), "%s after %s" % (q, list(hist)),
                         angles and "method" not in dict(q))
                    for a, b in zip(c.dgms_, fresh(kind, name, prime, q)[3]):
                        ctx.check(np.array_equal(a, b), "the diagram changed by %s after %s", q, hist)
                    d = attributes(c)
                    ctx.outcome(d)
                    if d not in seen:
                        seen.add(d)
                        nxt.append((c, hist + (q,)))
            level = nxt
            depth += 1
        for d in seen:
            ctx.state(kind, name, prime, d)
        ctx.check(np.array_equal(X, X0), "the array passed in was modified")
        ctx.note("all_reachable_states" if not level else "bounded_histories")

    return driver


def sequences(pairs, length, n_ops):
    """Every interleaving of queries on two objects alive together."""

    def driver(ctx):
        cfg = ctx.choose("objects", pairs)
        objs = [construct(*c) for c in cfg]
        kept = []
        for t in range(length):
            i = ctx.choose("object%d" % t, list(range(len(objs))))
            kind, name, prime = cfg[i]
            q = ctx.choose("query%d" % t, ops(kind)[:n_ops] if n_ops else ops(kind))
            X, obj = objs[i]
            got, _ = ctx.attempt(apply, obj, q)
            if isinstance(got, Failed):
                raise got.exc
            same(ctx, got, fresh(kind, name, prime, q), "step %d: %s on object %d" % (t, q, i),
                 kind in ("CircularCoords", "ToroidalCoords") and "method" not in dict(q))
            kept += [(np.asarray(x), np.array(x), t) for x in got[2]]
            for x, y, s in kept:
                ctx.check(np.array_equal(x, y, equal_nan=True), "step %d changed an array returned by step %d", t, s)
            for (Xi, _), c in zip(objs, cfg):
                ctx.check(np.array_equal(Xi, data(c[1])[0]), "step %d modified an array passed in", t)
            ctx.state(*[attributes(o) for _, o in objs])
        ctx.outcome([y for _, y, _ in kept])

    return driver


def overwritten(ctx):
    """The arrays of the first answer are the caller's: overwriting them does not reach the second answer."""
    kind, name, prime = ctx.choose("object", CONFIG)
    queries = [q for q in ops(kind) if "method" not in dict(q)]
    X, obj = construct(kind, name, prime)
    angles = kind in ("CircularCoords", "ToroidalCoords")
    for t in range(2):
        q = ctx.choose("query%d" % t, queries)
        got, _ = ctx.attempt(apply, obj, q)
        if isinstance(got, Failed):
            raise got.exc
        same(ctx, got, fresh(kind, name, prime, q), "%s on an object whose last answer was overwritten" % (q,), angles)
        ctx.outcome(got[2])
        for x in got[2]:
            if x.flags.writeable:
                x[...] = 0.125
        ctx.check(np.array_equal(X, data(name)[0]), "overwriting an answer modified the array passed in")
    ctx.state(kind, name, prime, attributes(obj))


def pairs(all_):
    C = {(k, n): (k, n, p) for k, n, p in CONFIG}
    base = [(("CircularCoords", "eight", 3), ("CircularCoords", "fat", 2)),
            (("ToroidalCoords", "fat", 3), ("ToroidalCoords", "eight", 3)),
            (("ToroidalCoords", "fat", 2), ("CircularCoords", "fat", 2)),
            (("ProjectiveCoords", "eight", None), ("LensCoords", "eight", None)),
            (("LensCoords", "square", 5), ("LensCoords", "sub", None)),
            (("CircularCoords", "late", 3), ("ComplexProjectiveCoords", "late2", 3)),
            (("ProjectiveCoords", "cloud", None), ("CircularCoords", "cloud", None)),
            (("ComplexProjectiveCoords", "octahedra", None), ("ComplexProjectiveCoords", "octahedron", 2))]
    base += [((k, "eight", p), (k, "eight again", p)) for k, p in (("CircularCoords", 3), ("ToroidalCoords", 3),
                                                                 ("ProjectiveCoords", None), ("LensCoords", None))]
    base += [(("ComplexProjectiveCoords", "octahedron", 2), ("ComplexProjectiveCoords", "octahedron again", 2))]
    if all_:
        base += [(C[a], C[b]) for a in C for b in C if a < b and (C[a], C[b]) not in base]
    return base


JIT_PAIRS = [(("CircularCoords", "eight", 3), ("CircularCoords", "square", None)),
             (("ToroidalCoords", "fat", 3), ("CircularCoords", "fat", 2)),
             (("ComplexProjectiveCoords", "octahedron", 2), ("ComplexProjectiveCoords", "octahedra", None))]


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("reachable_states", closure(200 if q else 5000, 4 if q else 6), want=len(CONFIG)),
        Scenario("interleavings", sequences(pairs(not q), 3, 5 if q else 7), want=128),
        Scenario("pairs_of_queries", sequences(pairs(True) if not q else pairs(False), 2, None), want=128),
        Scenario("overwritten", overwritten, want=128),
        Scenario("compiled", sequences(JIT_PAIRS, 2, 2 if q else 5), "jit", want=12),
    ]
