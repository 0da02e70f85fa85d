"""A stand-in for the few pieces of cvxpy which BMDR and SPAL use (cvxpy is not installed here).

Solves min 0.5-style quadratic + linear over a box and at most one weighted-sum equality by projected
gradient; reports inf when the equality cannot be met, as cvxpy does for an infeasible problem."""
import types

import numpy as np


class Lin(object):
    __array_ufunc__ = None

    def __init__(self, w, b=0.):
        self.w, self.b = np.asarray(w, float), b

    def __add__(self, o):
        if isinstance(o, Lin):
            return Lin(self.w + o.w, self.b + o.b)
        return Lin(self.w, self.b + o)
    __radd__ = __add__

    def __eq__(self, rhs):
        return ('eq', self.w, rhs - self.b)
    __hash__ = None


class Variable(object):
    __array_ufunc__ = None

    def __init__(self, n):
        self.n, self.value = n, None

    def __iter__(self):
        return (Lin(r) for r in np.eye(self.n))

    def __len__(self):
        return self.n

    def __rmatmul__(self, w):
        return Lin(w)

    def __ge__(self, o):
        return ('lo', o)

    def __le__(self, o):
        return ('hi', o)
    __hash__ = object.__hash__


class Quad(object):
    __array_ufunc__ = None

    def __init__(self, x, P, q=None):
        self.x, self.P, self.q = x, np.asarray(P, float), q

    def __rmul__(self, k):
        return Quad(self.x, k * self.P, self.q)

    def __add__(self, lin):
        return Quad(self.x, self.P, lin.w)


def quad_form(x, P):
    return Quad(x, P)


def Minimize(e):
    return e


class DCPError(Exception):
    pass


def project(v, lo, hi, w, t):
    """Projection on the box intersected with w.x == t (w >= 0), or None if empty."""
    if w is None:
        return np.clip(v, lo, hi)
    if not (w * lo).sum() - 1e-9 <= t <= (w * hi).sum() + 1e-9:
        return None
    a, b = -1e6, 1e6
    for _ in range(80):
        m = (a + b) / 2
        if (w * np.clip(v - m * w, lo, hi)).sum() > t:
            a = m
        else:
            b = m
    return np.clip(v - b * w, lo, hi)


class Problem(object):
    calls = 0
    log = None      # set to a list to record (P, q, sum weights, sum, solution) of every solved problem

    def __init__(self, obj, cons):
        self.obj, self.cons = obj, cons

    def solve(self, solver=None, gp=False):
        Problem.calls += 1
        n = self.obj.x.n
        lo, hi, w, t = np.full(n, -1e3), np.full(n, 1e3), None, None
        for k in self.cons:
            if k[0] == 'lo':
                lo = np.full(n, float(k[1]))
            elif k[0] == 'hi':
                hi = np.full(n, float(k[1]))
            else:
                w, t = k[1], float(k[2])
        P, q = self.obj.P, self.obj.q
        step = 1. / (2 * np.linalg.norm(P) + 1e-9)
        x = project(np.full(n, .5), lo, hi, w, t)
        if x is None:
            self.obj.x.value = None
            return float('inf')
        for _ in range(60):
            x = project(x - step * (2 * P.dot(x) + q), lo, hi, w, t)
        self.obj.x.value = x
        if Problem.log is not None:
            Problem.log.append((P, q, w, t, x))
        return float(x.dot(P).dot(x) + q.dot(x))


def module():
    m = types.ModuleType('cvxpy')
    m.Variable, m.quad_form, m.Minimize, m.Problem = Variable, quad_form, Minimize, Problem
    m.OSQP, m.ECOS = 'OSQP', 'ECOS'
    m.error = types.SimpleNamespace(DCPError=DCPError)
    return m
