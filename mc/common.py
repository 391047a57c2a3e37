"""Shared pieces of the drivers."""
import numpy as np

from . import ref
from .engine import Failed, Prune, Violation

KNIFE = 1e-6


def bumps(dreimac):
    P = dreimac.PartUnity
    return {"linear": P.linear, "quadratic": P.quadratic, "exp": P.exp}


def knife_edge(D, x, exact):
    """Some distance is within rounding of the threshold x (without being exactly representable)."""
    d = np.abs(np.asarray(D, float) - x)
    if exact:
        d = d[d > 0]
    return bool((d < KNIFE * max(1.0, abs(x))).any())


def scale(birth, death, perc, standard_range):
    start = 2 * birth if standard_range else birth
    return start, (1 - perc) * start + perc * death


class Cls:
    """What the reference knows about a selected class at a scale."""


def select(pers, obj, dim, k):
    """End points of class k as the object reports them, and the representatives it may denote."""
    lst = pers.classes[dim]
    row = np.asarray(obj.dgms_[dim])[k]
    b, e = float(row[0]), float(row[1])
    want = lst[k][1] - lst[k][0]
    if abs((e - b) - want) > 1e-6 * max(1, abs(want)) and not (np.isinf(want) and np.isinf(e)):
        raise Violation("class %d has persistence %r, rank %d of the landmarks' diagram is %r" % (k, e - b, k, want))
    c = pers.candidates(dim, b, e)
    if not c:
        raise Violation("class %d (%r, %r) is not in the landmarks' diagram %r"
                        % (k, b, e, [(x, y) for x, y, _ in lst]))
    return b, e, c


def cover(pers, r, bump):
    dist = pers.dist
    return ref.partition(dist, r, bump)


def n_classes(ctx, raw_ripser, X, dm, hd=1, kmax=3, prime=2):
    """Number of classes of the full metric, at most kmax; the branch is cut if there is none."""
    D = X[:, : X.shape[0]] if dm else X
    dg = raw_ripser(D, distance_matrix=dm, coeff=prime, maxdim=hd)["dgms"][hd]
    if not len(dg):
        ctx.prune()
    return min(kmax, len(dg))
