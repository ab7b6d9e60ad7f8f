import numpy as np

from .harness import Inconclusive, Violation


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def assume(cond, msg=""):
    if not cond:
        raise Inconclusive(msg)


def close(a, b, tol, what):
    """a and b agree within absolute tolerance tol (shapes included, NaN never agrees)."""
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    if a.shape != b.shape:
        raise Violation("%s: shape %s instead of %s" % (what, a.shape, b.shape))
    if a.size == 0:
        return
    err = np.max(np.abs(a - b))
    if not err <= tol:
        raise Violation(
            "%s: off by %.3g (tolerance %.3g): got %s, expected %s"
            % (what, err, tol, _short(a), _short(b))
        )


def _short(a):
    s = np.array2string(np.asarray(a), precision=8, threshold=12)
    return s.replace("\n", " ")[:200]
