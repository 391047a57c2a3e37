"""The environment of DREiMac under the control of the harness.

Imported before dreimac: replaces the functions of third-party packages whose answers are not
determined by their specification by versions that consult a hook.  With no hook set they are the
originals."""
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "NUMBA_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"

import numpy as np
import scipy.optimize
import ripser as _ripser_pkg

assert "dreimac" not in sys.modules
REPO = os.environ.get("MC_REPO", "/repo")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

raw_ripser = _ripser_pkg.ripser
raw_milp = scipy.optimize.milp
raw_eigh = np.linalg.eigh


class Hooks:
    ripser = None
    milp = None
    before_milp = None
    milp_instead = None
    eigh = None

    @classmethod
    def clear(cls):
        cls.ripser = cls.milp = cls.eigh = cls.before_milp = cls.milp_instead = None


def ripser(*a, **k):
    res = raw_ripser(*a, **k)
    return Hooks.ripser(res) if Hooks.ripser is not None else res


def milp(*a, **k):
    if Hooks.before_milp is not None:
        Hooks.before_milp(a, k)
    res = (Hooks.milp_instead or raw_milp)(*a, **k)
    return Hooks.milp(res, a, k) if Hooks.milp is not None else res


def eigh(*a, **k):
    if Hooks.eigh is not None:
        Hooks.eigh(a, k)
    return raw_eigh(*a, **k)


_ripser_pkg.ripser = ripser
scipy.optimize.milp = milp
np.linalg.eigh = eigh

import dreimac

assert os.path.dirname(os.path.abspath(dreimac.__file__)) == os.path.join(REPO, "dreimac"), dreimac.__file__
