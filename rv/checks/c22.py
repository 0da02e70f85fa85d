"""C22: numeric helpers against their definitions."""
import math
from collections import Counter

import numpy as np
from scipy import stats

from alipy.data_manipulate import minmax_scale, StandardScale
from alipy.experiment.experiment_analyser import ExperimentAnalyser
from alipy.utils.interface import BaseAnalyser
from alipy.utils.misc import (nlargestarg, nsmallestarg, randperm, get_gaussian_kernel_mat, calc_kernel_matrix, check_matrix,
                              check_one_to_one_correspondence, unpack)
from rv.core import Registry

R = Registry('C22', 'Random arrays (ties, constants, negative, integer, list and array forms) through each helper next to its '
                    'definition. Non-trivial: ties, constants or more than one feature are present.',
             require=('nlargest', 'nsmallest', 'randperm', 'minmax', 'standard', 'kernel', 'ttest', 'constant_feature', 'small_integers', 'constant_difference', 'ties', 'rejections_observed'))


@R.family('extreme', 2500, 60000, 'nlargestarg / nsmallestarg')
def extreme(c):
    r = c.rng
    m = r.randint(1, 30) if r.random() < .97 else r.randint(100, 400)
    a = [r.choice([r.uniform(-5, 5), r.randint(-3, 3), float(r.randint(0, 2))]) for _ in range(m)]
    if r.random() < .1:
        a[r.randrange(m)] = r.choice([float('inf'), float('-inf')])
    n = r.choice([1, 1, 2, 3, m, r.randint(1, m), m + 2])
    arg = a if r.random() < .4 else np.array(a)
    snap = list(a)
    c.note(a, n)
    for fn, rev in ((nlargestarg, True), (nsmallestarg, False)):
        got = [int(i) for i in fn(arg, n)]
        k = min(n, m)
        c.check(len(got) == k and len(set(got)) == k and all(0 <= i < m for i in got), 'count', 'not the requested number of distinct positions', fn=fn.__name__, got=got, n=n, m=m)
        vals = [a[i] for i in got]
        c.eq(sorted(vals), sorted(sorted(a, reverse=rev)[:k]), 'values', 'not the extreme values', fn=fn.__name__, got=got, a=a)
        c.check(vals == sorted(vals), 'order', 'positions are not in ascending order of value', fn=fn.__name__, vals=vals)
        c.event('nlargest' if rev else 'nsmallest')
    c.eq(list(arg), snap, 'mutated', 'input modified')
    if len(set(a)) < m:
        c.event('ties')
    for bad in (0, -1):
        c.raises((AssertionError, ValueError), lambda: nlargestarg(arg, bad), 'badn', 'non-positive count accepted')
        c.raises((AssertionError, ValueError), lambda: nsmallestarg(arg, bad), 'badn', 'non-positive count accepted')
    c.covered((a, n), m > 1)


@R.family('randperm', 600, 10000, 'permutation range, count, spread')
def perm(c):
    r = c.rng
    start = r.choice([0, 0, 3, -4])
    size = r.randint(1, 25)
    end = start + size - 1
    if start == 0 and r.random() < .6:
        n = r.choice([end, np.int64(end)])
    else:
        n = (start, end) if start or r.random() < .5 else (None, end)
    k = r.choice([None, 0, 1, size, r.randint(0, size)])
    seen = Counter()
    kk = size if k is None else k
    orders = set()
    # enough draws for every value to occur (a miss has probability below 1e-9)
    draws = 30 if not kk or kk == size else max(30, math.ceil(math.log(1e-9 / size) / math.log(1 - kk / size)) + 1)
    for _ in range(draws):
        p = [int(x) for x in (randperm(n) if k is None else randperm(n, k))]
        c.check(len(p) == kk and len(set(p)) == kk and all(start <= x <= end for x in p), 'range', 'not distinct integers of the closed range', n=n, k=k, p=p)
        seen.update(p)
        orders.add(tuple(p))
        c.event('randperm')
    if kk:
        c.eq(set(seen), set(range(start, end + 1)), 'spread', 'some value of the range never occurs', n=n, k=k)
    if kk >= 5:
        c.check(len(orders) > 1, 'constant', 'the random permutations are all identical')
    c.raises(ValueError, lambda: randperm(n, size + 1), 'toomany', 'more than the range requested')
    c.raises(TypeError, lambda: randperm('a'), 'badtype', 'bad range accepted')
    c.raises(TypeError, lambda: randperm(n, 1.5), 'badtype', 'bad count accepted')
    c.covered((repr(n), k), size > 1)


def matrix(c):
    r = c.rng
    n, d = (r.randint(1, 12), r.randint(1, 5)) if r.random() < .95 else (r.randint(40, 150), r.randint(1, 9))
    X = c.nr.randn(n, d) * r.choice([1, 10, 1000]) + r.choice([0, 5, -100])
    if r.random() < .4:
        X = c.nr.randint(-4, 5, size=(n, d))
    for j in range(d):
        if r.random() < .25:
            X[:, j] = r.choice([0, 1, -3]) if X.dtype.kind == 'i' else r.choice([0, 1, -3, .1, .3, 1 / 3, 1e8 + .1])
    if X.dtype.kind == 'i' and r.random() < .5:
        X = (X * r.choice([1, 20, 30])).astype(np.int8) if r.random() < .6 else c.nr.randint(0, 256, size=(n, d)).astype(np.uint8)
        c.event('small_integers')
    elif X.dtype.kind == 'f' and r.random() < .2:
        X = np.asfortranarray(X)
    if n == 1 or any(X[:, j].min() == X[:, j].max() for j in range(d)):
        c.event('constant_feature')
    return X


@R.family('scale', 1500, 30000, 'minmax_scale and StandardScale')
def scale(c):
    r = c.rng
    X = matrix(c)
    X0 = X.copy()
    arg = X.tolist() if r.random() < .3 else X
    lo, hi = r.choice([(0, 1), (-1, 1), (2, 10), (-5, -1), (0.25, 0.5)])
    S = minmax_scale(arg) if (lo, hi) == (0, 1) and r.random() < .5 else minmax_scale(arg, feature_range=(lo, hi))
    want = np.empty(X.shape)
    for j in range(X.shape[1]):
        col = X0[:, j].astype(float)
        mn, mx = col.min(), col.max()
        want[:, j] = lo if mn == mx else (col - mn) / (mx - mn) * (hi - lo) + lo
    c.close(S, want, 'minmax', 'scaled values differ from the definition', range=(lo, hi), X=X0)
    c.event('minmax')
    c.raises(ValueError, lambda: minmax_scale(arg, feature_range=(hi, lo)), 'range', 'reversed range accepted')
    c.raises(ValueError, lambda: minmax_scale(arg, feature_range=(lo, lo)), 'range', 'empty range accepted')
    if r.random() < .25 and X.shape[0] > 2:
        Xn = X0.astype(float)
        Xn[r.randrange(X.shape[0]), 0] = np.nan
        Sn = minmax_scale(Xn)
        mn, mx = np.nanmin(Xn[:, 0]), np.nanmax(Xn[:, 0])
        w = (Xn[:, 0] - mn) / ((mx - mn) or 1.0)
        c.close(Sn[:, 0], w, 'minmax-nan', 'missing values disturb the scaling')
    S = StandardScale(arg)
    want = np.empty(X.shape)
    for j in range(X.shape[1]):
        col = X0[:, j].astype(float)
        sd = math.sqrt(sum((v - col.mean()) ** 2 for v in col) / len(col))
        want[:, j] = 0 if np.ptp(col) == 0 else (col - col.mean()) / sd
    c.close(S, want, 'standard', 'standardised values do not have zero mean and unit variance', X=X0)
    c.event('standard')
    c.check(np.array_equal(X, X0), 'mutated', 'input modified')
    c.covered((X0.tolist(), lo, hi), X.shape[0] > 1)


@R.family('kernel', 1200, 20000, 'Gaussian / rbf / poly / linear / callable kernel matrices')
def kernel(c):
    r = c.rng
    n, d = r.randint(1, 8), r.randint(1, 4)
    X = c.nr.randn(n, d) if r.random() < .7 else c.nr.randint(-2, 3, size=(n, d))
    if X.dtype.kind == 'i' and r.random() < .5:
        X = (X * r.choice([1, 50])).astype(np.int8)
    X0 = X.astype(float)
    arg = X.tolist() if r.random() < .3 else X
    g = r.choice([0.1, 0.5, 1.0, 2.0])
    dot = [[float(sum(X0[i] * X0[j])) for j in range(n)] for i in range(n)]
    sq = [[float(sum((X0[i] - X0[j]) ** 2)) for j in range(n)] for i in range(n)]

    def ref(f, m):
        return np.array([[f(m[i][j]) for j in range(n)] for i in range(n)])
    got = {}
    sig = r.choice([0.5, 1.0, 2.0])
    got['gauss'] = (get_gaussian_kernel_mat(arg, sigma=sig, check_arr=r.random() < .5) if sig != 1 else get_gaussian_kernel_mat(arg), ref(lambda v: math.exp(-v / (2 * sig ** 2)), sq))
    got['rbf'] = (calc_kernel_matrix(arg, 'rbf', gamma=g) if g != 1 else calc_kernel_matrix(arg, 'rbf'), ref(lambda v: math.exp(-g * v), sq))
    deg, co = r.choice([(3, 1), (2, 1), (2, 0), (1, 2)])
    got['poly'] = (calc_kernel_matrix(arg, 'poly', gamma=g, degree=deg, coef0=co) if (deg, co, g) != (3, 1, 1) else calc_kernel_matrix(arg, 'poly'), ref(lambda v: (g * v + co) ** deg, dot))
    got['linear'] = (calc_kernel_matrix(arg, 'linear'), ref(lambda v: v, dot))
    got['callable'] = (calc_kernel_matrix(arg, lambda X, Y: X.astype(float).dot(Y.T.astype(float)) + 1), ref(lambda v: v + 1, dot))
    for name, (K, W) in got.items():
        c.eq(np.shape(K), (n, n), name + '-shape', '')
        c.close(K, W, name, 'kernel matrix differs from its formula', tol=1e-6, X=X0, gamma=g, sigma=sig)
        c.close(K, np.asarray(K).T, name + '-sym', 'kernel matrix is not symmetric')
        c.check(np.linalg.eigvalsh((np.asarray(K, dtype=float) + np.asarray(K, dtype=float).T) / 2).min() > -1e-6 * max(1, abs(W).max()), name + '-psd', 'kernel matrix is not positive semi-definite', K=K)
        c.event('kernel')
    c.raises(NotImplementedError, lambda: calc_kernel_matrix(arg, 'nope'), 'unknown', 'unknown kernel accepted')
    c.check(np.array_equal(X, X0), 'mutated', 'input modified')
    c.covered((X0.tolist(), g, sig, deg), n > 1)


@R.family('ttest', 1200, 20000, 'paired_ttest decision against the Student distribution')
def ttest(c):
    r = c.rng
    n = r.randint(3, 25)
    a = [r.gauss(0, 1) for _ in range(n)]
    b = [x + r.gauss(r.choice([0, 0.2, 0.5, 1]), r.choice([0.3, 1])) for x in a]
    alpha = r.choice([0.05, 0.05, 0.01, 0.1, 0.5])
    if r.random() < .1:
        b = list(a)
    elif r.random() < .1:
        # the same difference in every fold: as significant as can be
        a = [float(r.randint(-9, 9)) for _ in range(n)]
        b = [x + r.choice([1., -2.]) for x in a] if r.random() < .5 else [x + 4 for x in a]
        c.event('constant_difference', len({x - y for x, y in zip(a, b)}) == 1)
    diff = [x - y for x, y in zip(a, b)]
    m = sum(diff) / n
    sd = math.sqrt(sum((v - m) ** 2 for v in diff) / (n - 1))
    if sd == 0:
        want = int(m != 0)
    else:
        tt = m / (sd / math.sqrt(n))
        p = 2 * stats.t.sf(abs(tt), n - 1)
        if abs(p - alpha) < 1e-9:
            c.skip()
        want = int(p <= alpha)
    fn = r.choice([ExperimentAnalyser.paired_ttest if hasattr(ExperimentAnalyser, 'paired_ttest') else BaseAnalyser.paired_ttest, BaseAnalyser.paired_ttest])
    shape = r.choice(['list', 'array', 'col'])
    A, B = (a, b) if shape == 'list' else (np.array(a), np.array(b))
    if shape == 'col':
        A, B = A.reshape(-1, 1), B.reshape(-1, 1)
    got = fn(A, B) if alpha == 0.05 and r.random() < .5 else fn(A, B, alpha=alpha)
    c.eq(int(got), want, 'decision', 'the decision differs from the paired t-test', a=a, b=b, alpha=alpha)
    c.eq(int(fn(B, A, alpha=alpha)), want, 'symmetric', 'the two-tailed test depends on the order of the samples', alpha=alpha)
    c.raises(Exception, lambda: fn(a, b[:-1]), 'length', 'samples of different length accepted')
    c.raises(Exception, lambda: fn(np.ones((2, n)), np.ones((2, n))), 'shape', 'two-dimensional samples accepted')
    c.event('ttest')
    c.covered((n, alpha, want, round(m, 6)))


@R.family('checks', 400, 5000, 'correspondence, unpacking and matrix checks')
def checks(c):
    r = c.rng
    ln = [r.randint(1, 4) for _ in range(r.randint(1, 4))]
    if r.random() < .5:
        ln = [ln[0]] * len(ln)
    args = []
    for n in ln:
        args.append(r.choice([list(range(n)), np.arange(n), np.zeros((n, 2))]) if n > 1 or r.random() < .7 else 5)
    for _ in range(r.randint(0, 2)):
        args.insert(r.randrange(len(args) + 1), None)
    c.eq(bool(check_one_to_one_correspondence(*args)), len(set(ln)) == 1, 'correspond', 'length correspondence wrong', args=args)
    u = unpack([7], [1, 2], 3, np.array([9]))
    c.check(u[0] == 7 and u[1] == [1, 2] and u[2] == 3 and u[3] == 9, 'unpack', 'unpacking wrong', got=u)
    X = c.nr.randn(r.randint(1, 4), r.randint(1, 4))
    c.close(check_matrix(X.tolist()), X, 'matrix', 'matrix check altered the matrix', tol=0)
    c.raises((TypeError, ValueError), lambda: check_matrix([1, 2, 3]), 'matrix1d', 'a vector passed as a matrix')
    c.covered((ln, len(args)))
