import logging
import math

import numpy as np

from mc.env import dreimac
from mc.engine import Failed, Scenario

import matplotlib

matplotlib.use("Agg")
logging.getLogger("matplotlib").setLevel(logging.CRITICAL)
import matplotlib.pyplot as plt
from matplotlib.collections import PathCollection
from matplotlib.lines import Line2D
from matplotlib.offsetbox import AnnotationBbox, OffsetImage

P = dreimac.PlotUtils
ASSUMPTIONS = [
    "matplotlib is trusted: artists are inspected (positions in data and display coordinates, colours after mapping)",
    "the colour map used for values and the appearance of arrows are not specified",
]


def axes(three=False):
    """A new figure with two axes."""
    plt.close("all")
    fig = plt.figure(figsize=(4, 2), dpi=50)
    kw = dict(projection="3d") if three else {}
    return fig, [fig.add_subplot(1, 2, i + 1, **kw) for i in range(2)]


def target(ctx, ax):
    """Where to draw: (argument or None, axes expected, the other ones)."""
    how = ctx.choose("axes", ["given", "given, current ones are others", "current", "keyword none"])
    if how == "given":
        plt.sca(ax[0])
        return ax[0], ax[0], ax[1]
    if how.startswith("given,"):
        plt.sca(ax[1])
        return ax[0], ax[0], ax[1]
    plt.sca(ax[0])
    return None, ax[0], ax[1]


def drawn(ax):
    return [c for c in ax.get_children() if isinstance(c, (AnnotationBbox, PathCollection, Line2D)) or hasattr(c, "_segments3d")
            or type(c).__name__ == "FancyArrow"]


def untouched(ctx, other):
    ctx.check(not drawn(other), "something was drawn on other axes")


def patches_of(ctx, ax):
    out = []
    for c in ax.get_children():
        if isinstance(c, AnnotationBbox):
            box = c.offsetbox if isinstance(c.offsetbox, OffsetImage) else c.offsetbox.get_children()[0]
            ctx.check(isinstance(box, OffsetImage), "not an image")
            out.append((c, box))
    return out


def values_of(box):
    return np.asarray(box.get_data(), float)


def check_patches(ctx, fig, ax, X, A, dim):
    """Exactly one image per row, at its position, with the colours of a common gray scale."""
    got = patches_of(ctx, ax)
    ctx.check(len(got) == len(A), "%d patches drawn for %d rows", len(got), len(A))
    fig.canvas.draw()
    lo, hi = float(np.min(A)), float(np.max(A))
    left = list(range(len(A)))
    for ab, box in got:
        V = values_of(box)
        ctx.check(V.shape == (dim, dim), "a patch drawn has shape %s", V.shape)
        ext = box.get_window_extent(fig.canvas.get_renderer())
        at = np.array([(ext.x0 + ext.x1) / 2, (ext.y0 + ext.y1) / 2])
        pix = np.array([np.abs(ax.transData.transform(X[i]) - at).max() for i in left])
        same = np.array([np.abs(V.ravel() - A[i]).max() < 1e-9 for i in left])
        k = np.flatnonzero(same & (pix < 1.5))
        ctx.check(len(k) > 0, "no row has both the values and the position of a patch drawn (position %s)",
                  ax.transData.inverted().transform(at).round(3).tolist())
        i = left.pop(int(k[np.argmin(pix[k])]))
        if hi > lo:
            img = box.get_children()[0]
            rgb = np.asarray(img.cmap(img.norm(V.ravel())))[:, :3]
            want = np.repeat(((A[i] - lo) / (hi - lo))[:, None], 3, 1)
            flat = np.abs(rgb - want).max() < 0.01
            ctx.check(flat, "patch %d: not drawn on the common scale from %g to %g", i, lo, hi)
    x0, x1 = sorted(ax.get_xlim())
    y0, y1 = sorted(ax.get_ylim())
    ctx.check(bool(((X >= [x0 - 1e-9, y0 - 1e-9]) & (X <= [x1 + 1e-9, y1 + 1e-9])).all()), "a patch lies outside the visible range")


def patch_values(kind, n, m):
    k = np.arange(n * m).reshape(n, m)
    return {
        "ramp": k / (n * m), "ints": (k * 7) % 11, "negative": -1.0 - (k * 5) % 13, "constant": np.full((n, m), 3.0),
        "one bright": np.where(k == n * m - 1, 100.0, k % 3), "big": 1e6 + k,
    }[kind]


def positions(kind, n):
    i = np.arange(n)
    return {
        "line": np.stack([i, 2 * i], 1).astype(float), "far": np.stack([1e3 + i, -1e3 - 3 * i], 1).astype(float),
        "circle": np.stack([np.cos(i), np.sin(i)], 1), "ints": np.stack([i * i, -i], 1), "same": np.tile([[0.5, -2.0]], (n, 1)),
    }[kind]


def imscatter(sizes, dims):
    def driver(ctx):
        n = ctx.choose("n", sizes)
        dim = ctx.choose("dim", dims)
        A = patch_values(ctx.choose("values", ["ramp", "ints", "negative", "constant", "one bright", "big"]), n, dim * dim)
        X = positions(ctx.choose("positions", ["line", "far", "circle", "ints", "same"]), n)
        zoom = ctx.choose("zoom", [1, 3, 0.5], True)
        fig, ax = axes()
        arg, here, other = target(ctx, ax)
        X0, A0 = X.copy(), A.copy()
        r = ctx.call(P.imscatter, X, A, dim, zoom=zoom, ax=arg)
        ctx.check(r is here, "the axes drawn on are not returned")
        ctx.check(np.array_equal(X, X0) and np.array_equal(A, A0), "the arguments were modified")
        untouched(ctx, other)
        check_patches(ctx, fig, here, X.astype(float), A.astype(float), dim)
        ctx.state(n, dim, A, X, zoom, arg is None)
        ctx.outcome(sorted(here.get_xlim()), sorted(here.get_ylim()))

    return driver


def grid(sizes, dims):
    def driver(ctx):
        n = ctx.choose("n", sizes)
        dim = ctx.choose("dim", dims)
        A = patch_values(ctx.choose("values", ["ramp", "ints"]), n, dim * dim).astype(float)
        A[:, 0] = np.arange(n)  # all different
        fig, ax = axes()
        arg, here, other = target(ctx, ax)
        r = ctx.call(P.plot_patches, A, ax=arg) if ctx.choose("zoom", [None, 2]) is None else ctx.call(P.plot_patches, A, zoom=2, ax=arg)
        ctx.check(r is here, "the axes drawn on are not returned")
        untouched(ctx, other)
        got = patches_of(ctx, here)
        fig.canvas.draw()
        cells, rows = [], []
        for ab, box in got:
            ext = box.get_window_extent(fig.canvas.get_renderer())
            cells.append(here.transData.inverted().transform([(ext.x0 + ext.x1) / 2, (ext.y0 + ext.y1) / 2]))
            rows.append(int(round(values_of(box).ravel()[0])))
        ctx.check(sorted(rows) == list(range(n)), "rows drawn: %s of %d", sorted(rows), n)
        C = np.array(cells)
        g = math.isqrt(n - 1) + 1
        step = 1.0
        for axis in (0, 1):
            v = np.sort(C[:, axis])
            d = np.diff(v)
            d = d[d > 0.25]
            lines = len(d) + 1
            ctx.check(lines <= g, "%d %s for %d patches", lines, "columns" if axis == 0 else "rows", n)
        ctx.check(all(np.abs(C[i] - C[j]).max() > 0.25 for i in range(n) for j in range(i)), "two patches in the same cell")
        X = np.zeros((n, 2))
        for c, k in zip(C, rows):
            X[k] = np.rint(c)
        check_patches(ctx, fig, here, X, A, dim)
        ctx.state(n, dim, arg is None)
        ctx.outcome(X)

    return driver


# ------------------------------------------------------------------ projective scatter plots
def colours(kind, n):
    i = np.arange(n)
    if kind == "values":
        return np.round((i * 3.7) % 5, 6) - 1
    if kind == "ints":
        return (i * 7) % 10
    if kind == "constant":
        return np.full(n, 2.0)
    rgb = np.stack([(i % 3) / 2, (i % 5) / 4, (i % 2) * 1.0], 1)
    if kind == "rgb":
        return rgb
    return np.hstack([rgb, np.full((n, 1), 1.0)])


def disk(n, d):
    i = np.arange(n)
    X = np.stack([np.cos(2.4 * i), np.sin(2.4 * i), np.cos(5 * i)][:d], 1)
    return X * (np.sqrt((i + 0.5) / n) / np.maximum(1e-9, np.linalg.norm(X, axis=1)))[:, None]


def check_scatter(ctx, S, pts, face, f, n):
    ctx.check(len(pts) == n, "%d points drawn instead of %d", len(pts), n)
    ctx.check(np.abs(pts - S).max() < 1e-9, "points are drawn at %s instead of %s", pts[:3].tolist(), S[:3].tolist())
    face = np.asarray(face)
    if len(face) == 1:
        face = np.repeat(face, n, 0)
    ctx.check(len(face) == n, "%d colours for %d points", len(face), n)
    ctx.check(bool(np.isfinite(face).all()), "undefined colours")
    if f.ndim == 2:
        ctx.check(np.abs(face[:, :3] - f[:, :3]).max() < 1e-6, "colours %s instead of %s", face[:3].tolist(), f[:3].tolist())
    else:
        # equal values have equal colours, and brightness grows with the value
        b = face[:, :3].sum(1)
        order = np.argsort(f, kind="stable")
        for i, j in zip(order, order[1:]):
            if f[i] == f[j]:
                ctx.check(np.abs(face[i] - face[j]).max() < 1e-9, "equal values, different colours")
            else:
                ctx.check(b[i] < b[j], "colour of %g is not darker than that of %g", f[i], f[j])
        if f.max() > f.min():
            ctx.check(b.min() < 0.1 and b.max() > 2.9, "the colour scale does not span the values")


def unit_circle(ctx, xy, center=(0.0, 0.0)):
    d = xy - np.array(center)
    ctx.check(np.abs(np.linalg.norm(d, axis=1) - 1).max() < 1e-6, "the boundary is not the unit circle around %s", center)
    a = np.sort(np.mod(np.arctan2(d[:, 1], d[:, 0]), 2 * np.pi))
    gap = np.max(np.diff(np.concatenate([a, [a[0] + 2 * np.pi]])))
    ctx.check(gap < 0.1 and np.abs(xy[0] - xy[-1]).max() < 0.1, "the boundary circle is not closed")


def rp2(sizes):
    def driver(ctx):
        n = ctx.choose("n", sizes)
        f = colours(ctx.choose("colours", ["values", "ints", "constant", "rgb", "rgba"]), n)
        S = disk(n, 2)
        fig, ax = axes()
        cur = ctx.choose("current", [0, 1])
        plt.sca(ax[cur])
        kw = dict(ctx.choose("style", [{}, dict(arrowcolor="r", facecolor=(1, 1, 1))], True))
        S0, f0 = S.copy(), f.copy()
        ctx.call(P.plot_rp2_stereo, S, f, **kw)
        ctx.check(np.array_equal(S, S0) and np.array_equal(f, f0), "the arguments were modified")
        untouched(ctx, ax[1 - cur])
        here = ax[cur]
        sc = [c for c in here.get_children() if isinstance(c, PathCollection)]
        ctx.check(len(sc) == 1, "%d scatter plots", len(sc))
        fig.canvas.draw()
        sc[0].update_scalarmappable()
        check_scatter(ctx, S, np.asarray(sc[0].get_offsets()), sc[0].get_facecolors(), f, n)
        lines = here.get_lines()
        ctx.check(len(lines) == 1, "%d curves", len(lines))
        unit_circle(ctx, lines[0].get_xydata())
        x0, x1 = sorted(here.get_xlim())
        y0, y1 = sorted(here.get_ylim())
        ctx.check(x0 <= -1 and y0 <= -1 and x1 >= 1 and y1 >= 1, "part of the disk is not visible")
        p, q, o = here.transData.transform([[1, 0], [0, 1], [0, 0]])
        ctx.check(abs(np.linalg.norm(p - o) - np.linalg.norm(q - o)) < 0.5, "the circle is not drawn round")
        ctx.state(n, f, cur, str(kw))
        ctx.outcome(np.asarray(sc[0].get_facecolors()))

    return driver


def rp3(sizes):
    def driver(ctx):
        n = ctx.choose("n", sizes)
        f = colours(ctx.choose("colours", ["values", "ints", "rgb", "rgba"]), n)
        S = disk(n, 3)
        if f.ndim == 1 and f.max() == f.min():
            ctx.prune()
        fig, ax = axes(True)
        cur = ctx.choose("current", [0, 1])
        plt.sca(ax[cur])
        ball = ctx.choose("draw_sphere", [False, True])
        S0, f0 = S.copy(), f.copy()
        ctx.call(P.plot_rp3_stereo, ax[0], S, f, draw_sphere=ball)
        ctx.check(np.array_equal(S, S0) and np.array_equal(f, f0), "the arguments were modified")
        untouched(ctx, ax[1])
        sc = [c for c in ax[0].get_children() if isinstance(c, PathCollection)]
        ctx.check(len(sc) == 1, "%d scatter plots", len(sc))
        pts = np.stack([np.asarray(v, float) for v in sc[0]._offsets3d], 1)
        face = np.array(sc[0]._facecolors)  # before sorting by depth
        check_scatter(ctx, S, pts, face, f, n)
        mesh = [c for c in ax[0].get_children() if hasattr(c, "_segments3d")]
        ctx.check(len(mesh) == int(ball), "%d meshes", len(mesh))
        for m in mesh:
            sphere(ctx, m)
        fig.canvas.draw()
        ctx.state(n, f, cur, ball)
        ctx.outcome(np.asarray(face))

    return driver


def sphere(ctx, mesh):
    seg = np.concatenate([np.asarray(s, float) for s in mesh._segments3d])
    ctx.check(np.abs(np.linalg.norm(seg, axis=1) - 1).max() < 1e-9, "the mesh does not lie on the unit sphere")
    ctx.check(np.abs(seg).max(0).min() > 0.9 and (seg.max(0) > 0.5).all() and (seg.min(0) < -0.5).all(), "the mesh does not surround the origin")


def boundary(ctx):
    which = ctx.choose("helper", ["plot_proj_boundary", "plot_2sphere_boundary"])
    fig, ax = axes()
    arg, here, other = target(ctx, ax)
    how = ctx.choose("call", ["keyword", "positional"])
    if how == "positional":
        r = ctx.call(getattr(P, which), arg) if arg is not None else ctx.call(getattr(P, which))
    else:
        r = ctx.call(getattr(P, which), ax=arg)
    ctx.check(r is here, "the axes drawn on are not returned")
    untouched(ctx, other)
    lines = here.get_lines()
    centers = [(0.0, 0.0)] if which == "plot_proj_boundary" else [(0.0, 0.0), (2.5, 0.0)]
    ctx.check(len(lines) == len(centers), "%d curves", len(lines))
    for line, c in zip(sorted(lines, key=lambda l: l.get_xydata()[:, 0].mean()), centers):
        unit_circle(ctx, line.get_xydata(), c)
    fig.canvas.draw()
    p, q, o = here.transData.transform([[1, 0], [0, 1], [0, 0]])
    ctx.check(abs(np.linalg.norm(p - o) - np.linalg.norm(q - o)) < 0.5, "the circle is not drawn round")
    # points of the projection lie inside
    if which == "plot_2sphere_boundary":
        t = np.linspace(0, 6.28, 40)
        X = np.stack([np.sin(t) * np.cos(7 * t), np.sin(t) * np.sin(7 * t), np.cos(t)], 1)
        Y = ctx.call(dreimac.ProjectiveMapUtils.stereographic_projection_hemispheres, X)
        d = np.min([np.linalg.norm(Y - np.array(c), axis=1) for c in centers], axis=0)
        ctx.check(d.max() <= 1 + 1e-9, "the boundary does not bound the projection of the hemispheres")
    ctx.state(which, arg is None, how)
    ctx.outcome(which, len(lines))


def mesh3(ctx):
    fig, ax = axes(True)
    arg, here, other = target(ctx, ax)
    a = ctx.choose("n_parallels", [5, 10, 12])
    b = ctx.choose("n_meridians", [8, 20, 13])
    alpha = ctx.choose("alpha", [0.1, 0.5])
    r = ctx.call(P.plot_3sphere_mesh, n_parallels=a, n_meridians=b, alpha=alpha, ax=arg)
    ctx.check(r is here, "the axes drawn on are not returned")
    untouched(ctx, other)
    mesh = [c for c in here.get_children() if hasattr(c, "_segments3d")]
    ctx.check(len(mesh) == 1, "%d meshes", len(mesh))
    sphere(ctx, mesh[0])
    ctx.check(mesh[0].get_alpha() == alpha, "opacity %s", mesh[0].get_alpha())
    par, mer = 0, 0
    for s in mesh[0]._segments3d:
        s = np.asarray(s, float)
        if np.ptp(s[:, 2]) < 1e-9:
            par += 1
        else:
            mer += 1
    ctx.check((par, mer) == (a, b), "%d parallels and %d meridians instead of %d and %d", par, mer, a, b)
    ctx.state(a, b, alpha, arg is None)
    ctx.outcome(par, mer, alpha)


def equal(limits):
    def driver(ctx):
        L = [ctx.choose("limits_" + c, limits) for c in "xyz"]
        fig, ax = axes(True)
        which = ctx.choose("current", [0, 1])
        plt.sca(ax[which])
        ax[0].set_xlim3d(L[0])
        ax[0].set_ylim3d(L[1])
        ax[0].set_zlim3d(L[2])
        before = [np.array(g()) for g in (ax[0].get_xlim3d, ax[0].get_ylim3d, ax[0].get_zlim3d)]
        rest = [tuple(g()) for g in (ax[1].get_xlim3d, ax[1].get_ylim3d, ax[1].get_zlim3d)]
        r = ctx.call(P.set_axes_equal, ax[0])
        ctx.check(r is ax[0], "the axes are not returned")
        after = [np.array(g()) for g in (ax[0].get_xlim3d, ax[0].get_ylim3d, ax[0].get_zlim3d)]
        ctx.check(rest == [tuple(g()) for g in (ax[1].get_xlim3d, ax[1].get_ylim3d, ax[1].get_zlim3d)], "other axes changed")
        size = [abs(a[1] - a[0]) for a in after]
        ctx.check(max(size) - min(size) < 1e-6 * max(size), "ranges %s", size)
        for a, b in zip(before, after):
            t = 1e-6 * max(size)
            ctx.check(abs(a.mean() - b.mean()) < t, "centre moved from %g to %g", a.mean(), b.mean())
            ctx.check(min(b) <= min(a) + t and max(b) >= max(a) - t, "cut off: %s to %s", a.tolist(), b.tolist())
        ctx.check(max(size) <= max(abs(b[1] - b[0]) for b in before) * (1 + 1e-6), "ranges grew more than necessary")
        again = ctx.call(P.set_axes_equal, ax[0])
        ctx.check(np.allclose([ax[0].get_xlim3d(), ax[0].get_ylim3d(), ax[0].get_zlim3d()], after, rtol=1e-9), "not idempotent")
        ctx.state(str(L), which)
        ctx.outcome(np.array(after))

    return driver


# ------------------------------------------------------------------ sequences of calls
def snapshot(ax):
    out = []
    for c in drawn(ax):
        if isinstance(c, AnnotationBbox):
            out.append(("patch", tuple(map(float, c.xy)), values_of(c.offsetbox).tobytes(), c.offsetbox.get_children()[0].get_clim()))
        elif isinstance(c, Line2D):
            out.append(("line", c.get_xydata().tobytes()))
        elif isinstance(c, PathCollection):
            c.update_scalarmappable()
            out.append(("points", np.asarray(c.get_offsets()).tobytes(), np.asarray(c.get_facecolors()).tobytes()))
    return out


def sequences(depth):
    A = patch_values("ramp", 3, 4)
    B = patch_values("negative", 2, 4)
    ops = ["imscatter", "imscatter other", "patches", "boundary", "sphere boundary", "rp2"]

    def call(ctx, op, ax, explicit):
        arg = ax if explicit else None
        if not explicit:
            plt.sca(ax)
        if op == "imscatter":
            return ctx.call(P.imscatter, positions("line", 3), A, 2, ax=arg)
        if op == "imscatter other":
            return ctx.call(P.imscatter, positions("circle", 2), B, 2, ax=arg)
        if op == "patches":
            return ctx.call(P.plot_patches, A, ax=arg)
        if op == "boundary":
            return ctx.call(P.plot_proj_boundary, ax=arg)
        if op == "sphere boundary":
            return ctx.call(P.plot_2sphere_boundary, ax=arg)
        plt.sca(ax)
        ctx.call(P.plot_rp2_stereo, disk(4, 2), colours("values", 4))
        return ax

    alone = {}

    def driver(ctx):
        seq = [(ctx.choose("op%d" % i, ops), ctx.choose("axes%d" % i, [0, 1]), ctx.choose("explicit%d" % i, [True, False]))
               for i in range(depth)]
        if not alone:
            for op in ops:
                fig, ax = axes()
                call(ctx, op, ax[0], True)
                alone[op] = snapshot(ax[0])
        fig, ax = axes()
        want = [[], []]
        for op, w, explicit in seq:
            if explicit:
                plt.sca(ax[1 - w])
            r = call(ctx, op, ax[w], explicit)
            ctx.check(r is ax[w], "%s does not return the axes", op)
            want[w] += alone[op]
            for j in (0, 1):
                ctx.check(sorted(map(repr, snapshot(ax[j]))) == sorted(map(repr, want[j])),
                          "after %s, axes %d do not show what was drawn on them", seq, j)
        fig.canvas.draw()
        ctx.state(tuple(seq))
        ctx.outcome(str(seq), len(want[0]), len(want[1]))

    return driver


def scenarios(tier):
    q = tier == "quick"
    lim = [(0.0, 1.0), (-3.0, 5.0), (2.0, 2.5)] if q else [(0.0, 1.0), (-3.0, 5.0), (2.0, 2.5), (1e-6, 2e-6), (1000.0, 1001.0), (-1e5, 3.0)]
    return [
        Scenario("imscatter", imscatter([1, 2, 3, 5, 40] if q else [1, 2, 3, 4, 5, 9], [1, 2, 3] if q else [1, 2, 3, 4, 7]), bound=0 if q else 1, want=128),
        Scenario("grid", grid(list(range(1, 18)) + [25, 26, 100, 101] if q else list(range(1, 40)), [1, 3] if q else [1, 2, 3, 8]), want=128),
        Scenario("rp2", rp2([1, 2, 3, 4, 5, 12, 700, 2500]), bound=1, want=32),
        Scenario("rp3", rp3([2, 3, 4, 5, 12, 700, 2500]), bound=1, want=32),
        Scenario("boundary", boundary, want=8),
        Scenario("mesh", mesh3, want=16),
        Scenario("equal", equal(lim), want=32),
        Scenario("sequences", sequences(2 if q else 3), want=64),
    ]
