import itertools

import numpy as np
import scipy.optimize

from mc import env
from mc.env import Hooks, dreimac
from mc import answers, circle, families as F, proj, ref, torus
from mc.common import n_classes, select
from mc.engine import Failed, Scenario, Violation
from mc.env import raw_ripser
from mc.helper import Helper, Timeout

ASSUMPTIONS = [
    "a representative may be any cocycle of the class (all coboundaries of vertex functions, either orientation of each simplex)",
    "for representatives with values near half of a large prime whose lift of least absolute value is not a cocycle an exact "
    "solver stands in for milp, which then runs for hours; ripser itself does not return for primes above 127",
    "the integer solver may return any feasible integer point up to 1e-7 of rounding noise, or report failure",
]


# ------------------------------------------------------------------ environment answers
def solver_hook(ctx, K_gens, table_index, log):
    """Answers of milp: the feasible point found plus kernel elements, noise, or failure."""

    def hook(res, a, k):
        log["calls"] = log.get("calls", 0) + 1
        if not res.success:
            log["infeasible"] = True
            return res
        how = ctx.choose("solver", ["as is", "failure", "stopped early"], True)
        if how != "as is":
            log["failed"] = True
            res.success = False
            res.status, res.message = 1, "Time limit reached."
            if how == "failure":
                res.x = None
            return res
        con = k.get("constraints", a[3] if len(a) > 3 else None)
        con = con[0] if isinstance(con, (list, tuple)) else con
        A = con.A
        A = A.toarray() if hasattr(A, "toarray") else np.asarray(A)
        x = np.array(res.x, float)
        for i, v in enumerate(kernel(A, table_index)):
            c = ctx.choose("kernel%d" % i, [0, 1, -2], True)
            x = x + c * v
        free = ~A.any(0)
        x[free] += ctx.choose("unconstrained", [0.0, 1.0, -2.0], True)
        x = x + ctx.choose("noise", [0.0, 1e-7, -1e-7], True)
        assert np.abs(A @ x - con.lb).max(initial=0) < 1e-5
        res.x = x
        return res

    return hook


def exact_solver(ctx, log):
    """Answers of milp from the Hermite form of the constraints: the solver itself is slow near half of a large prime."""

    def solve(c, *a, integrality=None, bounds=None, constraints=None, options=None):
        con = constraints[0] if isinstance(constraints, (list, tuple)) and len(constraints) == 1 else constraints
        if a or not isinstance(con, scipy.optimize.LinearConstraint) or np.any(np.asarray(c)):
            ctx.prune()
        A = con.A.toarray() if hasattr(con.A, "toarray") else np.asarray(con.A)
        lo, hi = (np.broadcast_to(np.asarray(z, float), len(A)) for z in (con.lb, con.ub))
        if not np.array_equal(lo, hi) or not np.array_equal(lo, np.rint(lo)) or not np.array_equal(A, np.rint(A)):
            ctx.prune()
        log["calls"] = log.get("calls", 0) + 1
        x, _ = ref.int_solve(A.astype(int), lo.astype(int))
        ok = x is not None
        if ok and bounds is not None and not (np.all(x >= bounds.lb) and np.all(x <= bounds.ub)):
            ctx.prune()
        return scipy.optimize.OptimizeResult(success=ok, status=0 if ok else 2, x=x.astype(float) if ok else None,
                                             fun=0.0 if ok else None, message="")

    return solve


_K = {}


def kernel(A, limit=6):
    """Some integer kernel vectors of A supported on its nonzero columns."""
    key = A.tobytes()
    if key not in _K:
        cols = np.flatnonzero(A.any(0))
        _, ker = ref.int_solve(A[:, cols].astype(int), np.zeros(len(A), int))
        out = []
        for v in ker[:limit]:
            w = np.zeros(A.shape[1])
            w[cols] = v
            out.append(w)
        _K[key] = out
    return _K[key]


def which_class(res, dim, b, e):
    return [i for i, (x, y) in enumerate(res["dgms"][dim]) if (x, y) == (b, e)]


# ------------------------------------------------------------------ degree one
def representatives(family, primes, spread, solver=False, free=(), near_half=False, corrected=False):
    """Every vertex function's coboundary added to the representative."""

    def driver(ctx):
        D = family(ctx)
        n = len(D)
        p = ctx.choose("prime", primes)
        k = ctx.choose("class", list(range(n_classes(ctx, raw_ripser, D, True, 1, 2, p))))
        b, e = ends(D, p, k)
        values = half(p) if near_half else list(range(p))[:spread]
        s = [0] + [ctx.choose("s%d" % v, values, near_half or solver and v not in free) for v in range(1, n)]
        flip = ctx.choose("orientation", [False, True], not near_half)
        extra = answers.coboundary0(s, n, p, None)

        def hook(res):
            for i in which_class(res, 1, b, e):
                answers.rerepresent(res, 1, i, p, n, extra, flip)
            return res

        log = {}
        Hooks.ripser = hook
        if solver:
            Hooks.milp = solver_hook(ctx, None, 6, log)
        if corrected:
            Hooks.milp_instead = exact_solver(ctx, log)
        try:
            C = F.clique_columns(D, 1.5, [0.6875, 0.875], limit=24)
            X = np.hstack([D, C])
            if solver:
                checked_with_solver(ctx, X, n, p, k, log)
            else:
                circle.circular_run(ctx, dreimac, env.ripser, X, True, n, p, k, 0.5, "linear", False, True, True, direct=near_half and not corrected,
                                    tol=1e-3 if corrected else ref.TOL)
            ctx.note("solver_calls", log.get("calls", 0))
        finally:
            Hooks.clear()

    return driver


def half(p):
    """Values around which the lift of least absolute value changes its sign."""
    return sorted({0, 1, (p - 1) // 2, (p + 1) // 2, p - 1})


def ends(D, p, k):
    dg = raw_ripser(D, distance_matrix=True, coeff=p, maxdim=1)["dgms"][1]
    life = sorted(map(tuple, dg.tolist()), key=lambda t: t[0] - t[1])
    return life[k]


def names_class(exc, k):
    import re

    return str(k) in re.findall(r"\d+", str(exc))


def checked_with_solver(ctx, X, n, p, k, log):
    hooked = Hooks.milp
    Hooks.milp = None
    pers = ref.Persistence(X, n, True, p, 1, env.ripser)
    Hooks.milp = hooked
    obj = ctx.call(dreimac.CircularCoords, X, n, distance_matrix=True, prime=p)
    b, e, cds = select(pers, obj, 1, k)
    thr, K, varphi, covered, U = circle.reference(ctx, pers, b, e, 0.5, False, "linear", True)
    got, _ = ctx.attempt(obj.get_coordinates, perc=0.5, cocycle_idx=k, standard_range=False)
    ctx.state(pers.D, p, k, sorted(cds[0].items()), sorted(log.items()))
    if log.get("failed"):
        ctx.check(isinstance(got, Failed), "coordinates were returned although the solver failed")
        ctx.check(names_class(got.exc, k), "the error does not name class %d: %s", k, got)
        ctx.outcome("failed")
        ctx.note("solver_failures")
        return
    ctx.check(not isinstance(got, Failed), "%s", got)
    err = circle.fit(got, K, cds, p, True, varphi, covered, U)
    for span in (4, 8, 16):
        if err > ref.TOL:
            err = min(err, circle.fit(got, K, cds, p, True, varphi, covered, U, span))
    ctx.check(err <= ref.TOL, "not the harmonic map of a lift of the class (deviation %.3g turns)", err)
    ctx.outcome(np.round(got, 4))
    ctx.note("solver_calls", log.get("calls", 0))


def graphs(n):
    return lambda ctx: F.metric(ctx, n, [1.0, 2.0])


FATS = [F.fat_circle(4, 1), F.fat_circle(4, 2), F.fat_circle(5, 1), F.permuted(F.fat_circle(4, 2), [5, 3, 0, 4, 2, 1])]


def fat(ctx):
    return ctx.choose("shape", FATS)


def fat_or_plain(ctx):
    return ctx.choose("shape", FATS[:2] + [F.circle_metric([1.0] * 4), F.circle_metric([1.0] * 7)])


def graded_fat(shapes):
    """Some edges nearly as long as the scale."""

    def family(ctx):
        D = ctx.choose("shape", shapes).copy()
        for i, j in itertools.combinations(range(len(D)), 2):
            if D[i, j] == 1.0:
                D[i, j] = D[j, i] = ctx.choose("l%d%d" % (i, j), [1.0, 1.4375, 1.1875], True)
        return D

    return family


def pendants(ctx):
    """A circle and a triangle, apart from it or on one of its edges, that is nearly as large as the
    scale (1.5), or closes between the scale and the death of the class."""
    a = ctx.choose("side", [1.0, 1.25, 1.4375, 1.5, 1.75])
    kind = ctx.choose("place", ["at a vertex", "on an edge", "on an edge, reversed"])
    D = np.full((6, 6), 2.0)
    np.fill_diagonal(D, 0)
    for i in range(4):
        D[i, (i + 1) % 4] = D[(i + 1) % 4, i] = 1.0
    for i, j in ((0, 4), (0, 5), (4, 5)) if kind == "at a vertex" else ((0, 4), (1, 4), (4, 5)):
        D[i, j] = D[j, i] = a
    return D if kind != "on an edge, reversed" else F.permuted(D, [5, 4, 3, 2, 1, 0])


# ------------------------------------------------------------------ torsion
def torsion_call(kind, D, n, p, kw, report):
    Hooks.before_milp = lambda a, k: report("milp")

    def back(res, a, k):
        report("back")
        return res

    Hooks.milp = back
    return getattr(dreimac, kind)(D, n, distance_matrix=True, prime=p).get_coordinates(**kw)


HANG_SECONDS = 20
_helper = Helper("mc.props.c03", "torsion_call")


def torsion(ctx):
    p, base = ctx.choose("space", [(2, "rp2"), (3, "moore3")])
    T = getattr(F, base)()
    kind = ctx.choose("class", ["CircularCoords", "ToroidalCoords", "ComplexProjectiveCoords"])
    stride = ctx.choose("order", [1, 5, -1])
    n = len(T)
    T = F.permuted(T, [(i * stride) % n for i in range(n)])
    circle_size = 0
    if kind == "ComplexProjectiveCoords":
        D, hd = F.suspend(T), 2
    else:
        circle_size = ctx.choose("with_circle", [0, 4, 8])
        D, hd = (T, 1) if not circle_size else (F.disjoint(F.circle_metric([1.0] * circle_size), T, 8.0), 1)
    n = len(D)
    pers = ref.Persistence(D, n, True, p, hd, raw_ripser)
    obj = ctx.call(getattr(dreimac, kind), D, n, distance_matrix=True, prime=p)
    m = len(pers.classes[hd])
    if kind == "ToroidalCoords":
        sel = ctx.choose("classes", [list(q) for r in range(1, m + 1) for q in itertools.permutations(range(m), r)])
        kw = dict(cocycle_idxs=sel)
    else:
        sel = [ctx.choose("class_index", list(range(m)))]
        kw = dict(cocycle_idx=sel[0])
    kw.update(perc=0.5, standard_range=False, check_cocycle_condition=ctx.choose("check", [True, False]))
    bad, unsure = [], []
    for k in sel:
        b, e, cds = select(pers, obj, hd, k)
        K = ref.rips(D, 0.5 * max(select(pers, obj, hd, j)[0] for j in sel) + 0.5 * min(select(pers, obj, hd, j)[1] for j in sel))
        if hd == 1:
            none = [circle.lift_candidates(K, cd, p) is None for cd in cds]
        else:
            none = [ref.lifts(ref.vec(cd, K.tri), K.d2, lambda: K.h2, p) is None for cd in cds]
        if all(none):
            bad.append(k)
        elif any(none):
            unsure.append(k)  # classes with the same lifetime: the order is not determined
    ctx.step()
    try:
        ok, got = _helper((kind, D, n, p, kw), HANG_SECONDS)
    except Timeout as t:
        raise Violation("get_coordinates does not return within %d seconds" % HANG_SECONDS,
                        key="milp-torsion-hang" if t.args[0] == "milp" and (bad or unsure) else None)
    if not ok:
        got = Failed(Exception(got))
    ctx.state(D, kind, kw)
    ctx.outcome(bad, isinstance(got, Failed))
    if not kw["check_cocycle_condition"]:
        return
    if bad:
        ctx.note("torsion_refused")
        ctx.check(isinstance(got, Failed), "coordinates were returned for torsion classes %s", bad)
        ctx.check(any(names_class(got.exc, k) for k in bad + unsure), "the error names none of the classes %s: %s", bad, got)
    elif not unsure:
        ctx.check(not isinstance(got, Failed), "%s", got)


# ------------------------------------------------------------------ several classes
def several(shapes, primes, solver, lists=([0, 1], [1, 0]), pairs=0):
    def driver(ctx):
        D = ctx.choose("shape", shapes)()
        n = len(D)
        p = ctx.choose("prime", primes)
        if pairs:
            s = [0] * n
            for v, x in zip(ctx.choose("at", list(itertools.combinations(range(n), 2))[::pairs]), ctx.choose("values", [(1, 1), (1, p - 1)])):
                s[v] = x
        else:
            s = [0] + [ctx.choose("s%d" % v, list(range(min(p, 3))), True) for v in range(1, n)]
        m = len(lists[0])
        which = ctx.choose("representatives changed", [q for r in range(m, 0, -1) for q in itertools.combinations(range(m), r)], not pairs)
        sel = list(ctx.choose("classes", list(lists)))
        extra = answers.coboundary0(s, n, p, None)

        def hook(res):
            rank = np.argsort(np.argsort(res["dgms"][1][:, 0] - res["dgms"][1][:, 1], kind="stable"))
            for i in range(len(res["dgms"][1])):
                if rank[i] in which or rank[i] >= m:
                    answers.rerepresent(res, 1, i, p, n, extra)
            return res

        log = {}
        Hooks.ripser = hook
        try:
            X = np.hstack([D, F.clique_columns(D, 1.5, [0.6875, 0.875])])
            pers = ref.Persistence(X, n, True, p, 1, env.ripser)
            obj = ctx.call(dreimac.ToroidalCoords, X, n, distance_matrix=True, prime=p)
            info = [select(pers, obj, 1, k) for k in sel]
            b, e = max(i[0] for i in info), min(i[1] for i in info)
            thr, K, varphi, covered, U = circle.reference(ctx, pers, b, e, 0.5, False, "linear", True)
            if solver:
                Hooks.milp = solver_hook(ctx, None, 4, log)
            got, _ = ctx.attempt(obj.get_coordinates, perc=0.5, cocycle_idxs=sel, standard_range=False)
        finally:
            Hooks.clear()
        ctx.state(D, p, s, sel, which, sorted(log.items()))
        if log.get("failed"):
            ctx.check(isinstance(got, Failed), "coordinates were returned although the solver failed")
            ctx.check(any(names_class(got.exc, k) for k in sel), "the error names no class: %s", got)
            return
        ctx.check(not isinstance(got, Failed), "%s", got)
        frame = torus.Frame(K, varphi, covered, U)
        # the classes modulo p in the coordinates of the generators
        cands = []
        for _, _, cds in info:
            cands.append([mod_coordinates(frame, K, cd, p) for cd in cds])
        W = torus.related_mod(frame, got, cands, p)
        ctx.check(W is not None, "the coordinates are not an integer change of basis of lifts of the classes %s", cands)
        ctx.outcome(W)
        bad = [str(a) for a, i in enumerate(info) if not any(circle.is_symmetric_cocycle(K, cd, p) for cd in i[2])]
        ctx.note("to_correct_" + "_".join(bad or ["none_or_not_determined"]))

    return driver


def mod_coordinates(frame, K, cd, p):
    """Coordinates over F_p of a class in the integer generators."""
    ls = circle.lift_candidates(K, cd, p, span=0)
    return np.rint(frame.coordinates(ls[0])).astype(int) % p


# ------------------------------------------------------------------ degree two
def degree_two(primes, solver, pattern=0, near_half=False, corrected=False):
    # lsqr stops at a relative accuracy of 1e-6, which shows with large values
    def base(ctx):
        D = np.full((7, 7), 1.0)
        np.fill_diagonal(D, 0)
        at = ctx.choose("cone_point_at", [6, 0, 3])
        old = [i for i in range(7) if i != at]
        for a, b in ((0, 1), (2, 3), (4, 5)):
            D[old[a], old[b]] = D[old[b], old[a]] = 2.0
        touch = ctx.choose("cone_over", [(0, 2, 4), (1, 2, 5), (0, 2, 4, 1)])
        for i in range(6):
            if i not in touch:
                D[old[i], at] = D[at, old[i]] = 2.0
        for i, j in itertools.combinations(range(7), 2):
            if D[i, j] == 1.0 and not pattern:
                D[i, j] = D[j, i] = ctx.choose("l%d%d" % (i, j), [1.0, 1.4375], True)
        return D

    def driver(ctx):
        D = base(ctx)
        n = len(D)
        p = ctx.choose("prime", primes)
        n_classes(ctx, raw_ripser, D, True, 2, 1, p)
        pairs = list(itertools.combinations(range(n), 2))
        if pattern:
            s = dict.fromkeys(pairs, 0)
            for q in ctx.choose("at", list(itertools.combinations(pairs, 2))[::pattern]):
                s[q] = 1
        else:
            s = {q: ctx.choose("s%d%d" % q, half(p) if near_half else list(range(min(p, 3))), True) for q in pairs}
        extra = {(i, j, k): (s[j, k] - s[i, k] + s[i, j]) % p for i, j, k in itertools.combinations(range(n), 3)}
        flip = ctx.choose("orientation", [False, True], not near_half)

        def hook(res):
            for i in range(len(res["dgms"][2])):
                answers.rerepresent(res, 2, i, p, n, extra, flip)
            return res

        log = {}
        Hooks.ripser = hook
        try:
            C = F.clique_columns(D, 1.5, [0.6875, 0.875])
            X = np.hstack([D, C[:, :: max(1, C.shape[1] // 16)]])
            if solver:
                Hooks.milp = solver_hook(ctx, None, 4, log)
            if corrected:
                Hooks.milp_instead = exact_solver(ctx, log)
            try:
                proj.projective_run(ctx, dreimac, env.ripser, proj_kind, X, True, n, p, 0, 0.5, "linear", False,
                                    n - 1, "exponential", True, direct=near_half and not corrected, tol=1e-2 if near_half else 2e-4)
            except Violation as v:
                if log.get("failed"):
                    ctx.check("raised" in v.msg, "coordinates were returned although the solver failed")
                    ctx.check(names_class(v.msg, 0), "the error does not name the class: %s", v.msg)
                    ctx.note("solver_failures")
                    return
                raise
            ctx.check(not log.get("failed"), "coordinates were returned although the solver failed")
            ctx.note("solver_calls", log.get("calls", 0))
        finally:
            Hooks.clear()

    return driver


proj_kind = "ComplexProjectiveCoords"


def scenarios(tier):
    q = tier == "quick"
    sh = [lambda: F.wedge(F.fat_circle(4, 1), F.fat_circle(4, 1)),
          lambda: F.disjoint(F.fat_circle(4, 1), F.fat_circle(4, 2), 8.0),
          lambda: F.wedge(F.fat_circle(4, 2), F.permuted(F.fat_circle(4, 1), [4, 0, 1, 2, 3]))]
    sh3 = [lambda: F.wedge(F.wedge(F.fat_circle(4, 1), F.fat_circle(4, 1)), F.fat_circle(4, 1)),
           lambda: F.disjoint(F.disjoint(F.fat_circle(4, 1), F.fat_circle(4, 2), 8.0), F.fat_circle(4, 1), 8.0)]
    return [
        Scenario("representatives4", representatives(graphs(4), [3, 2, 5, 7], 7), bound=1),
        Scenario("representatives5", representatives(graphs(5), [3] if q else [3, 2, 5], 3), bound=0 if q else 1, want=128),
        Scenario("representatives_fat", representatives(fat, [3, 2], 3), bound=1, want=128),
        Scenario("near_half", representatives(fat_or_plain, [41, 101, 127, 7], 0, near_half=True), bound=1 if q else 2, want=256),
        Scenario("near_half_corrected", representatives(fat, [41, 7] if q else [41, 101, 7, 5], 0, near_half=True, corrected=True),
                 bound=2, want=256),
        Scenario("solver5", representatives(graphs(5), [3, 2, 5], 3, True), bound=1 if q else 2, want=256),
        Scenario("solver_fat", representatives(fat, [3, 2, 5], 3, True), bound=3 if q else 4, want=256),
        Scenario("graded", representatives(graded_fat(FATS), [3, 5], 3, True), bound=2 if q else 3, want=256),
        Scenario("pendants", representatives(pendants, [3, 5], 5, True, free=(1, 4, 5)), bound=1, want=256),
        Scenario("torsion", torsion),
        Scenario("several", several(sh, [3, 2, 5], True), bound=2 if q else 3, want=256),
        Scenario("three", several(sh3, [3, 5], not q, [[0, 1, 2], [2, 1, 0], [1, 2, 0]], 7 if q else 1), bound=0 if q else 1, want=128),
        Scenario("degree_two", degree_two([3, 2, 5], True), bound=1 if q else 3, want=256),
        Scenario("degree_two_solver", degree_two([3, 5], True, 5 if q else 1), bound=1, want=256),
        Scenario("degree_two_representatives", degree_two([3, 2], False), bound=2 if q else 3, want=256),
        Scenario("degree_two_near_half", degree_two([41, 127], False, near_half=True), bound=1 if q else 2, want=256),
        Scenario("degree_two_near_half_corrected", degree_two([41] if q else [41, 127], False, near_half=True, corrected=True),
                 bound=1 if q else 2, want=256),
        Scenario("compiled_several", several(sh[:1], [3], True), "jit", bound=1, want=10),
    ]
