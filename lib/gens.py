"""Strategies shared by the property modules. Every case is plain JSON."""

import math

import numpy as np
from hypothesis import strategies as st

PI = math.pi


def fl(lo, hi, nd=4):
    """Floats on a decimal grid: readable after shrinking, still thousands of values."""
    k = 10**nd
    return st.integers(int(math.ceil(lo * k)), int(math.floor(hi * k))).map(
        lambda i: i / k
    )


def vec(lo=-50.0, hi=50.0, nd=3):
    return st.tuples(fl(lo, hi, nd), fl(lo, hi, nd), fl(lo, hi, nd)).map(list)


# rotation vectors: generic, plus the axis-aligned special cases users actually pass
SPECIAL_ROTVECS = [
    [0.0, 0.0, 0.0],
    [PI / 2, 0.0, 0.0],
    [-PI / 2, 0.0, 0.0],
    [0.0, PI / 2, 0.0],
    [0.0, -PI / 2, 0.0],
    [0.0, 0.0, PI / 2],
    [PI, 0.0, 0.0],
    [0.0, PI, 0.0],
    [0.0, 0.0, PI],
]
rotvec = st.one_of(
    vec(-3.0, 3.0, 3), vec(-3.0, 3.0, 3), st.sampled_from(SPECIAL_ROTVECS)
)

angle = fl(-7.0, 7.0, 3)
scale = st.one_of(fl(0.1, 8.0, 2), st.sampled_from([0.5, 1.0, 2.0, 3.0]))

transform_case = st.fixed_dictionaries(
    {"c": vec(), "rv": rotvec, "s": scale, "a": angle}
)


def rotmat(rv):
    """Rodrigues formula, independent of scipy."""
    v = np.asarray(rv, float)
    th = np.linalg.norm(v)
    if th < 1e-14:
        return np.eye(3)
    k = v / th
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(th) * K + (1 - math.cos(th)) * (K @ K)


def rotz(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])
