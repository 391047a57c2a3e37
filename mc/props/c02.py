import itertools

import numpy as np

from mc import env
from mc.env import Hooks, dreimac
from mc import answers, circle, families as F, ref, torus
from mc.common import bumps, scale, select
from mc.copies import LARGE, SIZES, copies
from mc.engine import Failed, Scenario, Violation
from mc.env import raw_ripser

ASSUMPTIONS = [
    "classes are distinct; classes with equal lifetimes may be listed in any basis of their span",
    "energies agree with the exact ones within 1e-3 (lsqr stops at a relative tolerance of 1e-6)",
    "the matrices reported in private attributes are compared only where those attributes exist",
]

ENERGY_TOL = 1e-3


def selections(m, rmax):
    return [list(q) for r in range(1, rmax + 1) for q in itertools.permutations(range(m), r)]


def run(ctx, X, n, p, sel, perc, sr, bump, exact):
    pers = ref.Persistence(X, n, True, p, 1, env.ripser)
    obj = ctx.call(dreimac.ToroidalCoords, X.copy(), n, distance_matrix=True, prime=p)
    info = [select(pers, obj, 1, k) for k in sel]
    b, e = max(i[0] for i in info), min(i[1] for i in info)
    kw = dict(perc=perc, partunity_fn=bumps(dreimac)[bump], standard_range=sr)
    ctx.state(pers.D, [i[:2] for i in info], sel, perc, sr, bump)
    if b >= e:
        got, _ = ctx.attempt(obj.get_coordinates, cocycle_idxs=sel, **kw)
        ctx.check(isinstance(got, Failed), "coordinates were returned for classes that are never alive together %s",
                  [i[:2] for i in info])
        ctx.note("disjoint")
        ctx.outcome("disjoint")
        return
    start, thr = scale(b, e, perc, sr)
    if start > e or (thr <= b and len(sel) > 1):
        ctx.prune()  # property C08; or no scale where all classes are alive
    thr, K, varphi, covered, U = circle.reference(ctx, pers, b, e, perc, sr, bump, exact)
    got, _ = ctx.attempt(obj.get_coordinates, cocycle_idxs=sel, **kw)
    if isinstance(got, Failed):
        for _, _, cds in info:
            if all(circle.lift_candidates(K, cd, p) is None for cd in cds):
                ctx.prune()  # property C03
        raise Violation("get_coordinates %r" % got)
    ctx.check(len(got) == len(sel), "%d coordinates for %d classes", len(got), len(sel))
    N = X.shape[1]
    for t in got:
        circle.check_shape(ctx, np.asarray(t), N, covered)
    if len(sel) == 1:
        single = ctx.call(dreimac.CircularCoords(X.copy(), n, distance_matrix=True, prime=p).get_coordinates,
                          cocycle_idx=sel[0], **kw)
        err = ref.circ_err((np.asarray(got[0]) - single)[covered] / (2 * np.pi)).max(initial=0)
        ctx.check(err < 1e-9, "one class: differs from the circular coordinate by %.3g turns", err)
        ctx.outcome(np.round(single, 4))
        return
    frame = torus.Frame(K, varphi, covered, U)
    exactly = p > 2 and all(circle.is_symmetric_cocycle(K, cd, p) for i in info for cd in i[2])
    if exactly:
        # the circular coordinates of the classes, in each order classes of equal lifetime may be listed
        cands = [[symmetric_coordinates(frame, K, cd, p) for cd in i[2]] for i in info]
        W, C = related_exactly(frame, got, cands)
        ctx.check(W is not None, "not an integer change of basis of the circular coordinates (classes %s)", cands)
        ctx.note("exact_relations")
    else:
        cands = [[mod_coordinates(frame, K, cd, p) for cd in i[2]] for i in info]
        W = torus.related_mod(frame, got, cands, p)
        ctx.check(W is not None, "not an integer change of basis of lifts of the classes %s", cands)
        ctx.note("relations_modulo_p")
    W = np.array(W)
    basis_change(ctx, obj, W, cands, 0 if exactly else p)
    G = W @ frame.G @ W.T
    bad = torus.lll_defect(G)
    ctx.check(bad < ENERGY_TOL, "the basis is not LLL reduced (defect %.3g): classes %s, Gram matrix %s",
              bad, W.tolist(), G.tolist())
    if exactly and len(sel) == 2:
        G0 = max((c @ frame.G @ c.T for c in C), key=np.trace)
        ctx.check(np.trace(G) <= np.trace(G0) * (1 + ENERGY_TOL), "total energy %g, of the circular coordinates %g",
                  np.trace(G), np.trace(G0))
    reported(ctx, obj, G, exactly, C if exactly else None, frame)
    ctx.outcome(W, np.round(G, 4))
    ctx.note("lists_of_%d" % len(sel))


def reported(ctx, obj, G, exactly, C, frame):
    g, g0, cb = (getattr(obj, a, None) for a in ("_gram_matrix", "_original_gram_matrix", "_change_basis"))
    if g is not None:
        ctx.check(np.shape(g) == G.shape and np.abs(g - G).max() < ENERGY_TOL * max(1, np.abs(G).max()),
                  "reported Gram matrix %s, of the coordinates %s", np.asarray(g).tolist(), G.tolist())
    if cb is not None:
        ctx.check(np.abs(cb - np.rint(cb)).max() < 1e-9 and abs(torus.det_int(cb)) == 1,
                  "reported change of basis %s", np.asarray(cb).tolist())
        if g0 is not None:
            ctx.check(np.abs(cb @ g0 @ cb.T - G).max() < ENERGY_TOL * max(1, np.abs(G).max()),
                      "change of basis %s takes the Gram matrix %s to another than %s",
                      np.asarray(cb).tolist(), np.asarray(g0).tolist(), G.tolist())
    if exactly and g0 is not None:
        G0 = [c @ frame.G @ c.T for c in C]
        ctx.check(any(np.abs(np.abs(g0) - np.abs(x)).max() < ENERGY_TOL * max(1, np.abs(x).max()) for x in G0),
                  "reported original Gram matrix %s, of the circular coordinates %s",
                  np.asarray(g0).tolist(), [x.tolist() for x in G0])


def basis_change(ctx, obj, W, cands, p):
    """The reported change of basis takes the classes, in the order in which they were given, to the
    coordinates returned (all classes may be integrated with the opposite sign)."""
    cb = getattr(obj, "_change_basis", None)
    if cb is None:
        return
    cb = np.rint(np.asarray(cb)).astype(int)

    def same(C, sign):
        d = W - sign * (cb @ np.array(C))
        return not (d % p if p else d).any()

    ctx.check(any(same(C, s) for C in itertools.product(*cands) for s in (1, -1)),
              "the reported change of basis %s does not take the classes %s to the coordinates %s%s",
              cb.tolist(), [[list(c) for c in cs] for cs in cands], W.tolist(), " modulo %d" % p if p else "")


def symmetric_coordinates(frame, K, cd, p):
    c = np.array([ref.sym_lift(int(x), p) for x in ref.vec(cd, K.edges)], dtype=float)
    return np.rint(frame.coordinates(c)).astype(int).tolist()


def mod_coordinates(frame, K, cd, p):
    ls = circle.lift_candidates(K, cd, p, span=0)
    return np.rint(frame.coordinates(ls[0])).astype(int) % p


def related_exactly(frame, coords, cands):
    Cs = [np.array(C) for C in itertools.product(*cands) if np.linalg.matrix_rank(np.array(C)) == len(C)]
    for radii in ((1, 2, 4, 8, 16, 32), (16 if frame.b <= 2 else 8,)):
        Ws = [frame.decode(t, radii=radii) for t in coords]
        if not all(Ws):
            continue
        for W in itertools.islice(itertools.product(*Ws), 2000):
            fit = [C for C in Cs if torus.unimodular_relation(np.array(W), C) is not None]
            if fit:
                return W, fit
    return None, None


def shapes(q):
    T, E8, DB = F.theta, F.figure_eight, F.dumbbell
    c = F.circle_metric
    out = [
        T(2, 2, 2), T(2, 2, 3), T(3, 3, 3), E8(4, 4), E8(4, 5), E8(5, 7), DB(4, 4, 1), DB(4, 5, 2),
        F.disjoint(c([1.0] * 4), c([1.0] * 5), 9.0), F.disjoint(c([1.0] * 4), c([1.5] * 4), 9.0),
        F.disjoint(c([1.0] * 4), c([4.0] * 4), 20.0), F.disjoint(c([1.0] * 4), c([2.0] * 4), 20.0),
        F.wedge(E8(4, 4), c([1.0] * 4)), F.wedge(T(2, 2, 2), c([1.0] * 5)), F.wedge(T(2, 2, 2), T(2, 2, 2)),
        F.disjoint(F.disjoint(c([1.0] * 4), c([1.0] * 5), 9.0), c([1.25] * 4), 20.0), k33(), cube(),
    ]
    return out


def intervals():
    """Three and four classes with different births and deaths, with a common scale."""
    c, j = F.circle_metric, F.disjoint
    three = j(j(c([1.0] * 4), c([1.5] * 4), 9.0), c([1.25] * 5), 20.0)
    other = j(j(c([1.0] * 8), c([2.0] * 4), 12.0), c([1.75] * 4), 24.0)
    return [three, other, j(three, c([1.4375] * 4), 40.0)]


def larger(q):
    T, c, j = F.theta, F.circle_metric, F.disjoint
    out = [T(12, 14, 16), T(10, 16, 16), j(c([1.0] * 18), c([1.0 + 0.125 * (i % 3) for i in range(20)]), 20.0),
           F.wedge(T(10, 12, 14), c([1.0] * 12))]
    n = [len(D) for D in out]
    return out + [F.permuted(D, [(i * 11) % k for i in range(k)]) for D, k in zip(out, n) if k % 11]


def k33():
    return F.graph_metric(6, [(i, j) for i in range(3) for j in range(3, 6)])


def cube():
    P = F.lattice(2, 2, 2)
    return np.abs(P[:, None] - P[None]).sum(-1)


def with_points(D, thr, cap):
    C = F.clique_columns(D, thr, [0.6875, 0.875])
    step = max(1, C.shape[1] // cap)
    return np.hstack([D, C[:, ::step]])


def any_shape(primes, q, rmax=3, S=None, rmin=1):
    S = S or shapes(q)

    def driver(ctx):
        D = ctx.choose("shape", S)
        n = len(D)
        p = ctx.choose("prime", primes)
        dg = raw_ripser(D, distance_matrix=True, coeff=p, maxdim=1)["dgms"][1]
        m = min(4, len(dg))
        sel = ctx.choose("classes", [x for x in selections(m, rmax) if len(x) >= rmin])
        life = sorted(map(tuple, dg.tolist()), key=lambda t: t[0] - t[1])
        b, e = max(life[k][0] for k in sel), min(life[k][1] for k in sel)
        perc = ctx.choose("perc", [0.5, 0.875, 0.25, 1.0], True)
        sr = ctx.choose("standard_range", [False, True], True)
        bump = ctx.choose("partition", ["linear", "quadratic", "exp"], True)
        start, thr = scale(b, e, perc, sr)
        run(ctx, with_points(D, thr, 40) if thr > 0 else D, n, p, sel, perc, sr, bump, True)

    return driver


def all_graphs(n, primes):
    """Every graph on n vertices with at least two independent unfilled cycles."""

    def driver(ctx):
        D = F.metric(ctx, n, [1.0, 2.0])
        p = ctx.choose("prime", primes)
        dg = raw_ripser(D, distance_matrix=True, coeff=p, maxdim=1)["dgms"][1]
        if len(dg) < 2:
            ctx.prune()
        sel = ctx.choose("classes", [[1, 0], [0, 1], [0], [1]] if len(dg) < 3 else [[1, 0], [2, 0, 1], [1]])
        run(ctx, with_points(D, 1.5, 24), n, p, sel, 0.5, False, "linear", True)

    return driver


def elementary(k, p, big):
    """Invertible matrices over F_p: all 2x2 for p <= 3, products of elementary ones otherwise."""
    if k == 2 and p <= 3:
        return [np.array(a).reshape(2, 2) for a in itertools.product(range(p), repeat=4)
                if (a[0] * a[3] - a[1] * a[2]) % p]
    vals = [0, 1, -1, 2] if not big else [0, 1, -1, 2, -2, 3, 5]
    out = []
    if k == 2:
        for x, y in itertools.product(vals, repeat=2):
            out.append(np.array([[1, x], [0, 1]]) @ np.array([[1, 0], [y, 1]]))
    else:
        low = [0, 1, -1] if not big else [0, 1, -1, 2]
        for x, y, z in itertools.product(low, repeat=3):
            for u, v, w in itertools.product([0, 1], repeat=3) if not big else itertools.product([0, 1, -2], repeat=3):
                out.append(np.array([[1, x, y], [0, 1, z], [0, 0, 1]]) @ np.array([[1, 0, 0], [u, 1, 0], [v, w, 1]]))
    return out


def wide(k, p, big):
    """Larger coefficients, in triangular form up to the order of the classes."""
    vals = [0, 2, -3, 5] if not big else [0, 1, 2, -2, -3, 4, 5]
    out = []
    for x, y, z in itertools.product(vals, repeat=3):
        for perm in ((0, 1, 2), (2, 1, 0), (1, 2, 0)):
            out.append(np.array([[1, x, y], [0, 1, z], [0, 0, 1]])[list(perm)])
    return out


def rebased(shapes_k, primes, big, matrices=elementary):
    """Tied classes may be reported in any basis of their span."""

    def driver(ctx):
        k, D = ctx.choose("shape", shapes_k)
        n = len(D)
        p = ctx.choose("prime", primes)
        A = ctx.choose("basis", matrices(k, p, big))
        sel = ctx.choose("classes", [list(range(k)), list(range(k))[::-1]])

        def hook(res):
            dg = [tuple(x) for x in res["dgms"][1].tolist()]
            which = [i for i in range(len(dg)) if dg[i] == dg[0]][:k]
            assert len(which) == k
            return answers.rebase(res, 1, A, which, p)

        Hooks.ripser = hook
        try:
            run(ctx, with_points(D, 1.5, 24), n, p, sel, 0.5, False, "linear", True)
        finally:
            Hooks.clear()

    return driver


def one_fixed(shapes_, primes):
    """Some of the representatives do not lift as they are."""

    def driver(ctx):
        D = ctx.choose("shape", shapes_)
        n = len(D)
        p = ctx.choose("prime", primes)
        s = [0] + [ctx.choose("s%d" % v, list(range(min(p, 4))), True) for v in range(1, n)]
        which = ctx.choose("changed", [[0], [1]])
        sel = ctx.choose("classes", [[0, 1], [1, 0]])
        extra = answers.coboundary0(s, n, p, None)

        def hook(res):
            for i in which:
                answers.rerepresent(res, 1, i, p, n, extra)
            return res

        Hooks.ripser = hook
        try:
            run(ctx, with_points(D, 1.5, 24), n, p, sel, 0.5, False, "linear", True)
        finally:
            Hooks.clear()

    return driver


def triangular(k, diag, off):
    """Bases in triangular form (every basis is one, up to a rotation)."""

    def pick(ctx):
        B = np.diag([float(ctx.choose("d%d" % i, diag)) for i in range(k)])
        for i in range(k):
            for j in range(i):
                B[i, j] = ctx.choose("b%d%d" % (i, j), off)
        return B

    return pick


def any_basis(k, vals):
    return lambda ctx: np.array([[ctx.choose("b%d%d" % (i, j), vals) for j in range(k)] for i in range(k)], float)


def same_interface(fn):
    """The function is private: it is only driven directly while it maps a basis given by columns to
    the reduced basis and the change of basis."""
    try:
        B = np.array([[2.0, 7.0], [0.0, 1.0]])
        R, M = fn(B.copy())
        return bool(np.abs(B @ np.asarray(M) - R).max() < 1e-9)
    except Exception:
        return False


def lll(basis):
    """The lattice reduction itself, on every small integer lattice basis (through its Gram matrix)."""

    def driver(ctx):
        import importlib

        T = importlib.import_module("dreimac.toroidalcoords")
        fn = getattr(T, "_lll", None)
        if fn is None or not same_interface(fn):
            ctx.prune()
        B = basis(ctx)
        if abs(np.linalg.det(B)) < 0.5:
            ctx.prune()
        B = B.T  # columns are the basis
        R, M = ctx.call(fn, B.copy())
        M = np.asarray(M)
        ctx.check(np.abs(M - np.rint(M)).max() < 1e-9 and abs(torus.det_int(M)) == 1, "change of basis %s", M.tolist())
        ctx.check(np.abs(B @ M - R).max() < 1e-6, "the reduced basis is not the original one times the change of basis")
        bad = torus.lll_defect(R.T @ R)
        ctx.check(bad < 1e-9, "not LLL reduced (defect %g): %s", bad, R.tolist())
        ctx.state(B)
        ctx.outcome(R)

    return driver


def scenarios(tier):
    q = tier == "quick"
    th = (2, F.theta(2, 2, 2))
    e8 = (2, F.figure_eight(4, 4))
    db = (2, F.dumbbell(4, 4, 1))
    fat = [F.wedge(F.fat_circle(4, 1), F.fat_circle(4, 1)), F.disjoint(F.fat_circle(4, 1), F.fat_circle(4, 2), 8.0)]
    three = [(3, F.wedge(F.figure_eight(4, 4), F.circle_metric([1.0] * 4))), (3, F.wedge(F.theta(2, 2, 2), F.circle_metric([1.0] * 4)))]
    return [
        Scenario("shapes", any_shape([41, 3, 2], q), bound=1 if q else 3, want=256),
        Scenario("intervals", any_shape([41, 3] if q else [41, 3, 2, 7], q, 4, intervals(), 2 if q else 1), bound=1 if q else 2, want=128),
        Scenario("larger", any_shape([41, 3], q, 3 if not q else 2, larger(q)), bound=0 if q else 1, want=128),
        Scenario("graphs5", all_graphs(5, [41, 3, 2, 5]), want=128),
        Scenario("graphs6", all_graphs(6, [3] if q else [3, 2, 41]), want=512),
        Scenario("bases", rebased([th, e8, db], [3, 2, 41], not q), want=256),
        Scenario("bases3", rebased(three, [41] if q else [41, 7], not q), want=256),
        Scenario("one_fixed", one_fixed(fat, [5, 3] if q else [5, 3, 41]), bound=2 if q else 3, want=128),
        Scenario("bases3_wide", rebased(three, [41], not q, wide), want=128),
        Scenario("lll2", lll(any_basis(2, range(-4, 5) if q else range(-7, 8))), want=64, optional=True),
        Scenario("lll3", lll(any_basis(3, [0, 1, -2] if q else [0, 1, -1, 3, -4])), want=256, optional=True),
        Scenario("lll3_triangular", lll(triangular(3, [1, 2, 5], [0, 1, 2, -2, 3, 5, -7] if q else range(-9, 10))), want=128, optional=True),
        Scenario("lll4_triangular", lll(triangular(4, [1, 3], [0, 2, -3] if q else [0, 1, -2, 3, 5])), want=128, optional=True),
        Scenario("copies", copies(dreimac, ["ToroidalCoords"], SIZES if q else LARGE), want=64),
        Scenario("compiled", rebased([th], [41], False), "jit", want=10),
    ]
