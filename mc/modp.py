"""Linear algebra over a prime field."""
import functools

import numpy as np


class Span:
    """Row space over F_p, grown one vector at a time."""

    def __init__(self, p):
        self.p, self.rows = p, {}

    def reduce(self, v):
        v = np.asarray(v, dtype=np.int64) % self.p
        for i in np.flatnonzero(v):
            if v[i] and i in self.rows:
                v = (v - v[i] * self.rows[i]) % self.p
        return v

    def add(self, v):
        """True if v was independent of the span."""
        v = self.reduce(v)
        nz = np.flatnonzero(v)
        if not len(nz):
            return False
        i = int(nz[0])
        v = v * pow(int(v[i]), -1, self.p) % self.p
        for k in self.rows:
            if self.rows[k][i]:
                self.rows[k] = (self.rows[k] - self.rows[k][i] * v) % self.p
        self.rows[i] = v
        return True

    def copy(self):
        s = Span(self.p)
        s.rows = dict(self.rows)
        return s


def column_span(A, p):
    s = Span(p)
    for c in np.asarray(A).T:
        s.add(c.astype(np.int64))
    return s
