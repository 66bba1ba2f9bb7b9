"""
Scenes for interpolation, and a reference for what is interpolated in them,
written point by point and neighbour by neighbour.
"""
import math
import numpy as np
from hypothesis import strategies as st
from .core import check, fail, same, short
from . import gen

# Distances closer than that part of them may be ordered either way:
NEAR = 1e-9


def npos(x):
    return gen.arr(x, 3)


@st.composite
def fields(draw, min_n=1, max_n=12, min_m=1, max_m=6, dims=(3,), scale=1.,
        coincide=True, comps=True, ks=(1, 6)):
    """
    n tracers with data, m points, possibly with companions. Some of the
    points may be at tracers, some of the tracers at the same position.
    """
    n = draw(st.integers(min_n, max_n))
    if draw(st.booleans()):
        n = max(n, max_n // 2 + 1)
    m = draw(st.integers(min_m, max_m))
    tracers = draw(gen.rows(n, 3, scale))
    points = draw(gen.rows(m, 3, scale))
    if coincide:
        for i in range(m):
            if draw(st.integers(0, 3)) == 0:
                points[i] = list(tracers[draw(st.integers(0, n - 1))])
        if n > 1 and draw(st.integers(0, 3)) == 0:
            a = draw(st.integers(0, n - 2))
            tracers[draw(st.integers(a + 1, n - 1))] = list(tracers[a])
        # Not in the same place, but much closer than the others.
        if draw(st.integers(0, 3)) == 0:
            for _ in range(draw(st.integers(1, 3))):
                off = 10.**-draw(st.integers(3, 9))
                near = [v + off * (1 + w) for v, w in zip(tracers[draw(
                    st.integers(0, n - 1))], draw(gen.reals(3)))]
                if draw(st.booleans()):
                    points[draw(st.integers(0, m - 1))] = near
                else:
                    tracers[draw(st.integers(0, n - 1))] = near
    d = draw(st.sampled_from(list(dims)))
    case = dict(tracers=tracers, points=points, data=draw(gen.rows(n, d)))
    case['comp'] = draw(companions(tracers, points)) if comps else None
    case['k'] = draw(st.integers(*ks))
    return case


@st.composite
def companions(draw, tracers, points):
    """Companion indices: usually one of the nearest tracers."""
    if len(points) == 0 or draw(st.integers(0, 2)) == 0:
        return None
    d = np.linalg.norm(npos(points)[:, None] - npos(tracers)[None], axis=2)
    order = np.argsort(d, axis=1)
    comp = []
    for i in range(len(points)):
        which = draw(st.integers(0, 5))
        if which == 0:
            comp.append(-1)
        elif which == 1:
            comp.append(draw(st.integers(0, len(tracers) - 1)))
        else:
            comp.append(int(order[i, min(which - 2, len(tracers) - 1)]))
    return comp


@st.composite
def radii(draw, case, none=True):
    """A radius that finds some of the tracers, or None."""
    if none and draw(st.integers(0, 1)):
        return None
    d = np.linalg.norm(npos(case['points'])[:, None]
        - npos(case['tracers'])[None], axis=2).ravel()
    r = sorted(d)[-draw(st.integers(1, 1 + len(d) * 2 // 3))] if len(d) else 1.
    if r > 0 and draw(st.integers(0, 2)) == 0: # barely in or out.
        return float(r) * draw(st.sampled_from([1 + 1e-4, 1 - 1e-4, 1 + 1e-6,
            1 - 1e-6]))
    return round(float(r) * draw(st.sampled_from([1.1, 0.7, 1.5])) + 1e-3, 5)


def comp_array(case):
    return None if case['comp'] is None else np.array(case['comp'], dtype=int)


class Eligible(object):
    """
    The tracers that a point can be interpolated from: not in the same place,
    not its companion, inside the radius. idx, dists - sorted by distance.
    """
    def __init__(self, tracers, point, comp=None, radius=None):
        found, self.edge = [], False
        for j, tr in enumerate(tracers):
            d = math.sqrt(sum((a - b)**2 for a, b in zip(tr, point)))
            if d == 0 or (comp is not None and j == comp):
                continue
            if radius is not None:
                if abs(d - radius) < NEAR * radius:
                    self.edge = True
                if d >= radius:
                    continue
            found.append((d, j))
        found.sort()
        self.idx = [j for _, j in found]
        self.dists = [d for d, _ in found]

    def nearest(self, k):
        return self.idx[:k], self.dists[:k]

    def ambiguous(self, k):
        """Whether the nearest k may be chosen in several ways."""
        return self.edge or (len(self.idx) > k
            and self.dists[k] - self.dists[k - 1] < NEAR * self.dists[k])

    def check_choice(self, chosen, dists, k, what):
        """A choice of the k nearest, in any order, ties either way."""
        if self.edge:
            return
        check(len(set(chosen)) == len(chosen), '%s: %s has repetitions',
            what, chosen)
        check(set(chosen) <= set(self.idx), '%s: %s, but only %s can be '
            'neighbours', what, chosen, self.idx)
        num = len(self.idx) if k is None else min(k, len(self.idx))
        check(len(chosen) == num, '%s: %s, should be %s of %s', what, chosen,
            num, self.idx)
        by_idx = dict(zip(self.idx, self.dists))
        if num:
            worst = max(by_idx[j] for j in chosen)
            check(worst <= self.dists[num - 1] * (1 + NEAR), '%s: %s, but the '
                'nearest are %s', what, chosen, self.idx[:num])
        if dists is not None:
            same(dists, [by_idx[j] for j in chosen], what + ' distances')


def eligible(case, i, radius=None):
    comp = None if case['comp'] is None else case['comp'][i]
    return Eligible(case['tracers'], case['points'][i], comp, radius)


# ---- reference interpolation, for one point ----
def ref_inv(tracers, data, idx, dists, p):
    w = [d**-p for d in dists]
    return sum(wi * data[j] for wi, j in zip(w, idx)) / math.fsum(w)


def ref_inv_jacobian(tracers, point, data, idx, dists, p):
    """d u_i / d x_j of the weighted average, by the quotient rule."""
    w = np.array([d**-p for d in dists])
    # gradient of |x - x_k|^-p by x:
    dw = np.array([[-p * d**(-p - 1) * (point[c] - tracers[j][c]) / d
        for c in range(3)] for d, j in zip(dists, idx)])
    num = sum(wi * data[j] for wi, j in zip(w, idx))
    dnum = sum(np.outer(data[j], g) for g, j in zip(dw, idx))
    den, dden = w.sum(), dw.sum(axis=0)
    return (dnum * den - np.outer(num, dden)) / den**2


def ref_rbf(tracers, data, idx, dists, eps):
    """The value, and the condition number of the problem."""
    pos = npos([tracers[j] for j in idx])
    K = np.exp(-eps * ((pos[:, None] - pos[None])**2).sum(axis=2))
    c = np.linalg.solve(K, np.array([data[j] for j in idx]))
    return np.exp(-eps * np.array(dists)**2).dot(c), np.linalg.cond(K)


def ref_corrfun(data, idx, dists, corrs, bins):
    num, den = 0., 0.
    for j, d in zip(idx, dists):
        b = max(i for i in range(len(bins)) if bins[i] <= d)
        w = np.broadcast_to(corrs[b], data[j].shape)
        num, den = num + w * data[j], den + w
    return num / den


def near_bin(dists, bins):
    return any(abs(d - b) < NEAR for d in dists for b in bins)
