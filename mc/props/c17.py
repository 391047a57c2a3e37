import itertools
import math
import time

import numpy as np

from mc import ref
from mc.env import dreimac  # noqa: F401
from mc.engine import Scenario

import dreimac.combinatorial as comb

from dreimac.utils import CohomologyUtils as CU

ASSUMPTIONS = [
    "which numbering of the simplices is used, and a sign common to a whole operator (or to a row of a compact one), are conventions",
    "private functions testing the cocycle condition are driven directly only if present; through the coordinates they are covered by C03",
]


def numbering(ctx, n, dim, table=None):
    """{increasing tuple: number}, checked to be a bijection onto an initial segment."""
    if table is None:
        table = ctx.call(comb.combinatorial_number_system_table, n, max(dim, 1))
    total = int(ctx.call(comb.number_of_simplices_of_dimension, dim, n, table))
    ctx.check(total == math.comb(n, dim + 1), "%d simplices of dimension %d on %d vertices, reported %d",
              math.comb(n, dim + 1), dim, n, total)
    out = {}
    for s in itertools.combinations(range(n), dim + 1):
        out[s] = int(comb.combinatorial_number_system_forward(np.array(s), table))
    ctx.step(len(out))
    ctx.check(sorted(out.values()) == list(range(total)), "n = %d, dimension %d: the numbers are not 0..%d", n, dim, total - 1)
    return out, table


def bijection(nmax, cells):
    def driver(ctx):
        n = ctx.choose("n", list(range(1, nmax + 1)))
        ok = [d for d in range(0, n) if math.comb(n, d + 1) <= cells]
        dim = ctx.choose("dim", ok)
        extra = ctx.choose("table", ["exact", "more dimensions", "more vertices"])
        table = None
        if extra == "more dimensions":
            table = ctx.call(comb.combinatorial_number_system_table, n, dim + 3)
        num, table = numbering(ctx, n, dim, table)
        if extra == "more vertices":  # the numbers do not depend on how many vertices follow
            big, _ = numbering(ctx, n + 1, dim) if math.comb(n + 1, dim + 1) <= cells else (num, None)
            ctx.check(all(big[s] == v for s, v in num.items()), "the numbering depends on the number of vertices")
        for fn, k in ((comb.combinatorial_number_system_d1_forward, 1), (comb.combinatorial_number_system_d2_forward, 2)):
            if k == dim:
                for s, v in num.items():
                    ctx.check(int(fn(*s, table)) == v, "the number of %s is %d and %d", s, v, int(fn(*s, table)))
        ctx.state(n, dim, extra)
        ctx.outcome(sorted(num.values()))

    return driver


def large(sizes):
    """Distinct numbers in range for simplices at both ends of large vertex sets."""

    def driver(ctx):
        n = ctx.choose("n", sizes)
        dim = ctx.choose("dim", [0, 1, 2, 3])
        ends = sorted(set(list(range(5)) + [n // 2 - 1, n // 2] + list(range(n - 5, n))))
        table = ctx.call(comb.combinatorial_number_system_table, n, 3)
        total = int(comb.number_of_simplices_of_dimension(dim, n, table))
        ctx.check(total == math.comb(n, dim + 1), "%d simplices reported instead of %d", total, math.comb(n, dim + 1))
        seen = {}
        for s in itertools.combinations(ends, dim + 1):
            v = int(comb.combinatorial_number_system_forward(np.array(s), table))
            ctx.check(0 <= v < total, "n = %d: number of %s is %d, not below %d", n, s, v, total)
            ctx.check(v not in seen, "n = %d: %s and %s have the same number", n, s, seen.get(v))
            seen[v] = s
            if dim == 1:
                ctx.check(int(comb.combinatorial_number_system_d1_forward(*s, table)) == v, "edge %s", s)
            if dim == 2:
                ctx.check(int(comb.combinatorial_number_system_d2_forward(*s, table)) == v, "triangle %s", s)
        ctx.state(n, dim)
        ctx.outcome(sorted(seen))

    return driver


def vectors(nmax, dims):
    """sparse_cocycle_to_vector: all orders of the vertices of one entry, beside others."""

    def driver(ctx):
        dim = ctx.choose("dim", dims)
        n = ctx.choose("n", [m for m in range(dim + 1, nmax + 1)])
        num, table = numbering(ctx, n, dim)
        simplices = sorted(num)
        s = ctx.choose("simplex", simplices)
        order = ctx.choose("order", list(itertools.permutations(range(dim + 1))))
        others = ctx.choose("others", ["none", "one", "all", "zero entry"])
        dt, v = ctx.choose("value", [(int, 1), (int, -3), (float, 0.25), (int, 7)])
        rows, want = [], np.zeros(len(simplices), dt)
        rest = [t for t in simplices if t != s]
        rest = {"none": [], "one": rest[-1:], "all": rest, "zero entry": rest[:1]}[others]
        rows.append([s[i] for i in order] + [v])
        want[num[s]] = ref.perm_sign(order) * v
        for k, t in enumerate(rest):
            p = list(t)
            p = p[k % (dim + 1) :] + p[: k % (dim + 1)] if k % 2 == 0 else p[::-1]
            x = 0 if others == "zero entry" else (k % 3) - 1
            rows.append(p + [x])
            want[num[t]] = ref.perm_sign(p) * x
        where = ctx.choose("place", ["first", "last"]) if len(rows) > 1 else "first"
        if where == "last":
            rows = rows[::-1]
        A = np.array(rows, dt)
        A0 = A.copy()
        got = ctx.call(CU.sparse_cocycle_to_vector, A, table, n, dt)
        ctx.check(np.array_equal(A, A0), "the cochain was modified")
        ctx.check(isinstance(got, np.ndarray) and got.shape == want.shape, "shape %s", np.shape(got))
        ctx.check(np.array_equal(got, want), "%s becomes %s instead of %s", A.tolist(), got.tolist(), want.tolist())
        ctx.check(got.dtype == np.dtype(dt), "number type %s", got.dtype)
        ctx.state(dim, n, s, order, others, v, where)
        ctx.outcome(got)

    return driver


def dist_alphabet(ctx, sizes, values):
    n = ctx.choose("n", sizes)
    D = np.zeros((n, n))
    for i in range(n):
        for j in range(i + 1, n):
            D[i, j] = D[j, i] = ctx.choose("d%d%d" % (i, j), values)
    return D


def rows_of(A):
    return A.toarray() if hasattr(A, "toarray") else np.asarray(A)


def place(M, rows, cols, shape):
    out = np.zeros(shape)
    for i, r in enumerate(rows):
        for j, c in enumerate(cols):
            out[r, c] += M[i, j]
    return out


def unsigned_rows(A):
    out = []
    for r in A:
        nz = np.flatnonzero(r)
        out.append(tuple(r if not len(nz) or r[nz[0]] > 0 else -r))
    return sorted(out)


def check_operators(ctx, D, thr):
    n = len(D)
    table = ctx.call(comb.combinatorial_number_system_table, n, 3)
    nums = [numbering(ctx, n, k, table)[0] if n > k else {} for k in range(4)]
    K = ref.rips(D, thr)
    D0 = D.copy()
    d0 = ctx.call(CU.make_delta0, D, thr, table)
    d1 = ctx.call(CU.make_delta1, D, thr, table)
    c1 = ctx.call(CU.make_delta1_compact, D, thr, table)
    c2 = ctx.call(CU.make_delta2_compact, D, thr, table)
    ctx.check(np.array_equal(D, D0), "the distance matrix was modified")
    A0, A1, C1, C2 = (rows_of(x) for x in (d0, d1, c1, c2))
    e = [nums[1][x] for x in K.edges]
    t = [nums[2][x] for x in K.tri]
    v = [nums[0][(i,)] for i in range(n)]
    W0 = place(K.d0, e, v, (len(nums[1]), n))
    W1 = place(K.d1, t, e, (len(nums[2]), len(nums[1])))
    Wc1 = place(K.d1, range(len(t)), e, (len(t), len(nums[1])))
    Wc2 = place(K.d2, range(len(K.tet)), t, (len(K.tet), len(nums[2])))
    for name, A, W in (("0", A0, W0), ("1", A1, W1)):
        ctx.check(A.shape == W.shape, "coboundary operator %s: shape %s instead of %s", name, A.shape, W.shape)
        ctx.check(np.array_equal(A, W) or np.array_equal(A, -W),
                  "threshold %r: coboundary operator %s is %s, the signed incidence matrix is %s", thr, name, A.tolist(), W.tolist())
    for name, A, W in (("1", C1, Wc1), ("2", C2, Wc2)):
        ctx.check(A.shape == W.shape, "compact coboundary operator %s: shape %s instead of %s", name, A.shape, W.shape)
        ctx.check(unsigned_rows(A) == unsigned_rows(W),
                  "threshold %r: compact coboundary operator %s is %s, the signed incidence matrix is %s", thr, name, A.tolist(), W.tolist())
    ctx.check(not np.any(A1 @ A0) and not np.any(C1 @ A0), "the coboundary of a coboundary is not zero (degree 1)")
    ctx.check(not np.any(C2 @ A1), "the coboundary of a coboundary is not zero (degree 2)")
    sums = [abs(np.asarray(x.sum())) for x in (d0, d1) if hasattr(x, "sum")]
    ctx.outcome(A0, A1, C1.shape, C2.shape, sums)
    ctx.note("simplices", len(e) + len(t) + len(K.tet))


def sparse_rows(A):
    """{row: {column: value}} of the non-zero entries."""
    A = A.tocoo() if hasattr(A, "tocoo") else __import__("scipy.sparse").sparse.coo_array(A)
    r, c = (A.row, A.col) if hasattr(A, "row") else A.coords
    out = {}
    for i, j, v in zip(r.tolist(), c.tolist(), A.data.tolist()):
        if v:
            row = out.setdefault(i, {})
            row[j] = row.get(j, 0) + v
    return {i: {j: v for j, v in r.items() if v} for i, r in out.items()}


def same_rows(got, want):
    return got == want or got == {i: {j: -v for j, v in r.items()} for i, r in want.items()}


def up_to_sign(rows):
    out = []
    for r in rows:
        it = sorted(r.items())
        out.append(tuple((j, v if it[0][1] > 0 else -v) for j, v in it))
    return sorted(out)


def graphs(n):
    """Edge tests: circulant graphs, and cliques on both ends of the vertices beside a path."""
    out = [("circulant %s" % (sorted(S),), lambda i, j, S=frozenset(S): min(j - i, n - j + i) in S)
           for k in ((1, 2, 3) if n > 16 else range(n // 2 + 1)) for S in itertools.combinations(range(1, n // 2 + 1), k)
           if n <= 16 or max(S) <= 3]
    out.append(("both ends", lambda i, j: j < 4 or i >= n - 4 or (i < 4 and j >= n - 4) or j == i + 1))
    if n <= 100:
        out.append(("complete", lambda i, j: True))
    return out


def operators_large(sizes, most):
    """The operators on many vertices, against the incidence matrices in sparse form."""

    def driver(ctx):
        n = ctx.choose("n", sizes)
        gs = graphs(n)
        name, edge = gs[ctx.choose("graph", list(range(len(gs))))]
        two = n <= 100 and (name != "complete" or n <= most)  # 10^9 entries are allocated otherwise
        D = np.full((n, n), 2.0)
        np.fill_diagonal(D, 0)
        for i, j in itertools.combinations(range(n), 2):
            if edge(i, j):
                D[i, j] = D[j, i] = 1.0
        table = ctx.call(comb.combinatorial_number_system_table, n, 3)
        near = D < 1.5
        E = [s for s in itertools.combinations(range(n), 2) if near[s]]
        Tr = [(i, j, k) for i, j in E for k in range(j + 1, n) if near[i, k] and near[j, k]]
        Te = [(i, j, k, l) for i, j, k in Tr for l in range(k + 1, n) if near[i, l] and near[j, l] and near[k, l]] if two else []
        num = lambda s: int(comb.combinatorial_number_system_forward(np.array(s), table))
        W0 = {num(e): {num(e[1:]): 1, num(e[:1]): -1} for e in E}
        ne = {e: num(e) for e in E}
        nt = {t: num(t) for t in Tr}
        bd1 = lambda t: {ne[t[1:]]: 1, ne[t[::2]]: -1, ne[t[:2]]: 1}
        bd2 = lambda t: {nt[t[:i] + t[i + 1 :]]: (-1) ** i for i in range(4)}
        W1 = {nt[t]: bd1(t) for t in Tr}
        ctx.check(len(W0) == len(E) and len(W1) == len(Tr), "n = %d: the numbering is not injective", n)
        jobs = [("0", "make_delta0", W0, (math.comb(n, 2), n)), ("1", "make_delta1", W1, (math.comb(n, 3), math.comb(n, 2)))]
        for what, fn, W, shape in jobs:
            A = ctx.call(getattr(CU, fn), D, 1.5, table)
            ctx.check(A.shape == shape, "n = %d: coboundary operator %s has shape %s instead of %s", n, what, A.shape, shape)
            ctx.check(same_rows(sparse_rows(A), W), "n = %d, %s: coboundary operator %s is not the signed incidence matrix", n, name, what)
        jobs = [("1", "make_delta1_compact", [bd1(t) for t in Tr], math.comb(n, 2))]
        if two:
            jobs.append(("2", "make_delta2_compact", [bd2(t) for t in Te], math.comb(n, 3)))
        for what, fn, W, cols in jobs:
            A = ctx.call(getattr(CU, fn), D, 1.5, table)
            ctx.check(A.shape == (len(W), cols), "n = %d: compact coboundary operator %s has shape %s instead of %s", n, what, A.shape,
                      (len(W), cols))
            rows = sparse_rows(A)
            ctx.check(up_to_sign(rows.values()) == up_to_sign(W),
                      "n = %d, %s: compact coboundary operator %s is not the signed incidence matrix", n, name, what)
        ctx.state(n, name)
        ctx.outcome(n, len(E), len(Tr), len(Te))
        ctx.note("simplices", len(E) + len(Tr) + len(Te))

    return driver


def operators(sizes, values, thrs, dtypes=("f8",), layouts=("C",)):
    def driver(ctx):
        D = dist_alphabet(ctx, sizes, values)
        thr = ctx.choose("threshold", thrs)
        D = D.astype(ctx.choose("dtype", list(dtypes)))
        if ctx.choose("layout", list(layouts)) == "F":
            D = np.asfortranarray(D)
        check_operators(ctx, D, thr)
        ctx.state(D.astype(float), thr)

    return driver


def cases(thrs):
    """A few metrics for compiled runs (each call compiles its kernel anew)."""
    rng = [np.zeros((1, 1)), np.array([[0, 1.0], [1, 0]])]
    for n, seed in ((3, 5), (4, 3), (5, 11), (6, 7)):
        D = np.zeros((n, n))
        k = seed
        for i in range(n):
            for j in range(i + 1, n):
                k = (k * 7 + 3) % 11
                D[i, j] = D[j, i] = 1 + k % 3
        rng.append(D)
    rng.append(np.ones((5, 5)) - np.eye(5))

    def driver(ctx):
        i = ctx.choose("metric", list(range(len(rng))))
        thr = ctx.choose("threshold", thrs)
        check_operators(ctx, rng[i], thr)
        ctx.state(i, thr)

    return driver


_SLOW = {}


def compiles_each_time(fn, *args):
    """A function that is compiled anew in every call takes long even when called again."""
    if fn not in _SLOW:
        try:
            fn(*args)
            t = time.time()
            fn(*args)
        except TypeError:
            return False
        _SLOW[fn] = time.time() - t > 0.05
    return _SLOW[fn]


def cocycle_tests(deg, sizes, dists, values, thrs, batch, few=None):
    """The cocycle condition decided on all cochains with the given values."""
    import dreimac.toroidalcoords as T
    import dreimac.complexprojectivecoords as P

    fn = getattr(T, "_is_one_cocycle", None) if deg == 1 else getattr(P, "_is_two_cocycle", None)

    def driver(ctx):
        if fn is None:
            ctx.prune()
        D = dist_alphabet(ctx, sizes, dists)
        n = len(D)
        thr = ctx.choose("threshold", thrs)
        table = comb.combinatorial_number_system_table(n, 3)
        num, _ = numbering(ctx, n, deg, table)
        m = len(num)
        K = ref.rips(D, thr)
        cells, d = (K.edges, K.d1) if deg == 1 else (K.tri, K.d2)
        head = tuple(ctx.choose("x%d" % i, values) for i in range(m - min(batch, m)))
        yes = 0
        tails = list(itertools.product(values, repeat=min(batch, m)))
        if few and tails and compiles_each_time(fn, np.array(head + tails[0], int), D, thr, table):
            tails = tails[:: -(-len(tails) // few)]
            ctx.note("cochains_left_out", 1)
        for tail in tails:
            ctx.tick()
            x = np.array(head + tail, int)
            try:
                r = fn(x, D, thr, table)
            except TypeError:
                ctx.prune()  # a private function with another signature
            r = bool(r[0]) if isinstance(r, tuple) else bool(r)
            want = not len(d) or not np.any(d @ x[[num[s] for s in cells]])
            ctx.check(r == want, "threshold %r, distances %s: cochain %s is %sa cocycle, the test says %s",
                      thr, D.tolist(), x.tolist(), "" if want else "not ", r)
            yes += want
        ctx.step(len(tails))
        ctx.state(D, thr, head)
        ctx.outcome(yes)
        ctx.note("cocycles", yes)

    return driver


def scenarios(tier):
    q = tier == "quick"
    th = [0.5, 1.0, 1.5, 2.0, 2.5]
    out = [
        Scenario("bijection", bijection(10 if q else 14, 3500), want=32),
        Scenario("bijection_large", bijection(40 if q else 70, 10000 if q else 60000), want=64),
        Scenario("number_range", large([20, 100, 1000, 2400, 70000]), want=16),
        Scenario("vectors", vectors(5 if q else 6, [0, 1, 2, 3]), want=64),
        Scenario("operators_small", operators([1, 2, 3, 4], [1.0, 2.0, 3.0] if not q else [1.0, 2.0], th), want=64),
        Scenario("operators_types", operators([3, 4], [1.0, 2.0], [2.0, np.inf], ("f4", "i8"), ("C", "F")), want=64),
        Scenario("operators_levels", operators([4], [1.0, 2.0, 3.0], [2.0, 3.0, np.nextafter(2.0, 3)]), want=64),
        Scenario("operators_five", operators([5], [1.0, 2.0], [2.0] if q else th), want=128),
        Scenario("operators_large", operators_large([8, 10, 12, 17, 24, 70, 90, 260, 370] if q else [7, 8, 9, 10, 11, 12, 13, 14, 17, 24, 31, 70, 90, 182, 260, 370, 400], 24 if q else 31), want=256),
        Scenario("vectors_high", vectors(6 if q else 7, [4] if q else [4, 5]), want=64),
        Scenario("one_cocycles", cocycle_tests(1, [3, 4], [1.0, 2.0], [-1, 0, 1], [2.0, 2.5], 6), want=64, optional=True),
        Scenario("one_cocycles_values", cocycle_tests(1, [4], [1.0], [-2, -1, 0, 1, 2, 3], [1.5], 3), want=64, optional=True),
        Scenario("two_cocycles", cocycle_tests(2, [4], [1.0, 2.0], [-2, -1, 0, 1, 3], [2.0, 2.5], 4), want=64, optional=True),
        Scenario("two_cocycles_five", cocycle_tests(2, [5], [1.0, 2.0] if not q else [1.0], [0, 1] if not q else [-1, 0, 1], [1.5], 6),
                 want=128, optional=True),
        Scenario("compiled", cases([1.5, 2.0, 2.5, 3.5]), mode="jit", want=28),
        Scenario("compiled_vectors", vectors(4, [1, 2]), mode="jit", want=16),
        Scenario("compiled_tests", cocycle_tests(1, [4], [1.0, 2.0], [-1, 0, 1], [2.0], 6, few=4), mode="jit", want=16, optional=True),
        Scenario("compiled_tests_two", cocycle_tests(2, [4, 5] if not q else [4], [1.0, 2.0], [-1, 0, 2], [2.0], 4, few=4), mode="jit", want=16, optional=True),
    ]
    if not q:
        out.append(Scenario("operators_six", operators([6], [1.0, 2.0], [2.0]), want=256))
    return out
