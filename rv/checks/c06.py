"""C06: single-label strategies only ever select distinct unlabeled instances."""
import os
import sys

import numpy as np
from sklearn.linear_model import LogisticRegression
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KNeighborsClassifier

from alipy.index.index_collections import IndexCollection
from alipy.query_strategy.query_labels import (
    QueryExpectedErrorReduction, QueryInstanceBMDR, QueryInstanceCoresetGreedy, QueryInstanceDensityWeighted, QueryInstanceGraphDensity,
    QueryInstanceLAL, QueryInstanceQBC, QueryInstanceQUIRE, QueryInstanceRandom, QueryInstanceSPAL, QueryInstanceUncertainty, QueryRandom)
from rv.core import Registry
from rv.lib import fakecvx
from rv.lib.models import Centroid

R = Registry('C06', 'Query loops until the pool is exhausted, for every instance-selection strategy, over generated data (ties, duplicated and '
                    'constant rows, wide scales), pools, containers and batch sizes; after each selection the result is compared with the '
                    'pool of that moment and every caller-owned object with its snapshot. Non-trivial: at least one selection strictly '
                    'inside the pool.',
             require=('reach', 'selections', 'strict_selections', 'exhausted', 'as_list', 'as_array', 'as_collection', 'repeated', 'batch_over_pool',
                      'by_prediction', 'read_only_prediction', 'gapped_pool', 'lal', 'qp_solved', 'duplicates'),
             assumptions=('BMDR and SPAL run against a stand-in for cvxpy (rv/lib/fakecvx.py), LAL with a selector trained from a generated file.',))


def data(c, n, kinds=None, classes=None):
    r, nr = c.rng, c.nr
    d = r.randint(1, 4)
    kind = r.choice(['normal', 'normal', 'grid', 'dup', 'const', 'wide'])
    if kind == 'normal':
        X = nr.randn(n, d)
    elif kind == 'grid':
        X = nr.randint(0, 3, (n, d)).astype(float)
    elif kind == 'dup':
        X = nr.randn(max(2, n // 3), d)[nr.randint(0, max(2, n // 3), n)]
        c.event('duplicates')
    elif kind == 'const':
        X = np.ones((n, d)) * nr.randn()
    else:
        X = nr.randn(n, d) * 10. ** r.choice([-3, 2, 3])
    k = classes or r.choice([2, 2, 3, 4])
    y = nr.permutation(np.arange(n) % k)
    lab = r.choice(['plain', 'plain', 'pm', 'odd'])
    if lab == 'pm' and k == 2:
        y = y * 2 - 1
    elif lab == 'odd':
        y = y * 3 + 2
    return X, y, kind


def pool(c, y, n):
    """train, labeled (with every class), unlabeled; not necessarily everything."""
    r = c.rng
    perm = [int(v) for v in c.nr.permutation(n)]
    k = len(set(y))
    while len(set(y[perm[:k]])) < k:
        r.shuffle(perm)
    ntr = r.randint(min(n, max(k + 2, n // 2)), n)
    nl = r.randint(k, max(k, ntr // 2))
    train, L, U = perm[:ntr], perm[:nl], perm[nl:ntr]
    if r.random() < .25 and len(U) > 3:
        U = U[:-r.randint(1, 2)]         # some train instances are in neither set
        c.event('gapped_pool')
    train = sorted(train) if r.random() < .5 else r.sample(train, ntr)
    return train, L, U


def wrap(c, v):
    k = c.rng.choice(['list', 'array', 'collection'])
    c.event('as_' + k)
    return list(v) if k == 'list' else np.array(v, dtype=int) if k == 'array' else IndexCollection(list(v))


def snap(v):
    if isinstance(v, np.ndarray):
        return (v.shape, str(v.dtype), v.tobytes())
    if isinstance(v, (list, tuple)):
        return [snap(t) if isinstance(t, (np.ndarray, list)) else t for t in v]
    return [t for t in v]


def judge(c, got, U, batch, name, one=False):
    vals = [int(v) for v in got]
    c.event('selections')
    want = min(1 if one else batch, len(U))
    c.eq(len(vals), want, name + ':count', '', selected=vals, pool=U, batch=batch)
    c.eq(len(set(vals)), len(vals), name + ':repeated-instance', '', selected=vals)
    c.check(set(vals) <= set(U), name + ':not-unlabeled', '', selected=vals, pool=U)
    if len(U) > want:
        c.event('strict_selections')
    if batch > len(U):
        c.event('batch_over_pool')
    return vals


def loop(c, name, X, y, L, U, select, deterministic=True, one=False, rounds=60, extra=()):
    """select(l, u, batch) -> selection; every caller-owned object must come through untouched."""
    r = c.rng
    L, U = list(L), list(U)
    keep = (X, y) + tuple(extra)
    strict = 0
    for rnd in range(rounds):
        batch = r.choice([1, 1, 2, 3, len(U), max(1, len(U) - 1), len(U) + r.randint(0, 4)]) or 1
        if rnd and r.random() < .6:
            batch = 1 if len(U) < 8 else r.randint(1, len(U))
        l, u = wrap(c, L), wrap(c, U)
        before = [snap(v) for v in keep + (l, u)]
        c.note('round', rnd, 'L', L, 'U', U, 'batch', batch)
        vals = judge(c, select(l, u, batch), U, batch, name, one)
        for v, b, what in zip(keep + (l, u), before, ['features', 'labels'] + ['argument'] * len(extra) + ['labeled', 'unlabeled']):
            c.check(snap(v) == b, name + ':modified-' + what, '', before=b, after=snap(v))
        if deterministic and r.random() < .4:
            again = judge(c, select(l, u, batch), U, batch, name, one)
            c.eq(sorted(again), sorted(vals), name + ':not-repeatable', '')
            c.event('repeated')
        if len(vals) < len(U):
            strict += 1
        if not U:
            c.event('exhausted')
            break
        L = L + vals
        U = [v for v in U if v not in vals]
    return strict


def model_for(c, X, y, L, boundary=False):
    m = c.rng.choice([LogisticRegression(solver='liblinear'), Centroid(), Centroid(20.), LogisticRegression(solver='lbfgs')] +
                     ([] if boundary else [GaussianNB()]))
    return m.fit(X[L], y[L])


@R.family('uncertainty', 480, 4000, 'uncertainty sampling, with given, default and refitted models')
def uncertainty(c):
    r = c.rng
    n = r.randint(5, 40)
    measure = r.choice(['entropy', 'least_confident', 'margin', 'distance_to_boundary'])
    X, y, kind = data(c, n, classes=2 if measure == 'distance_to_boundary' else None)
    _, L, U = pool(c, y, n)
    s = QueryInstanceUncertainty(X, y, measure=measure)
    how = r.choice(['default', 'given'])
    m = model_for(c, X, y, L, measure == 'distance_to_boundary')
    st = loop(c, 'uncertainty', X, y, L, U, lambda l, u, b: s.select(l, u, batch_size=b) if how == 'default' else s.select(l, u, m, batch_size=b))
    c.covered((n, len(U), measure, kind, how, c.i), st > 0)


def hard_or_soft(c, n, k):
    r, nr = c.rng, c.nr
    p = nr.dirichlet(np.ones(k) * r.choice([.2, 1, 5]), n)
    if r.random() < .3:
        p = np.eye(k)[nr.randint(0, k, n)]      # certain predictions, all scores tied at zero
    elif r.random() < .3:
        p = np.round(p, 1)
    elif r.random() < .4:                       # nearly certain predictions, far from each other on a logarithmic scale only
        p = 10 ** -nr.uniform(.3, 6, (n, k))
        p[np.arange(n), nr.randint(0, k, n)] = 1
        p /= p.sum(axis=1, keepdims=True)
    return p


@R.family('prediction', 600, 6000, 'selection from supplied predictions: uncertainty, committees, density weighting')
def prediction(c):
    r, nr = c.rng, c.nr
    n = r.randint(3, 40)
    X, y, kind = data(c, n)
    perm = [int(v) for v in nr.permutation(n)]
    U = perm[r.randint(0, n - 1):]
    L = [v for v in perm if v not in U]
    k = r.randint(2, 5)
    what = r.choice(['unc', 'unc', 'boundary', 'qbc_votes', 'qbc_onehot', 'qbc_kl', 'dw'])
    strict = 0
    for _ in range(r.randint(1, 3)):
        m = len(U)
        batch = r.choice([1, 2, m, m + 3, max(1, m - 1), r.randint(1, m)])
        u = wrap(c, U)
        if what == 'unc':
            measure = r.choice(['entropy', 'least_confident', 'margin'])
            p = hard_or_soft(c, m, k)
            s = QueryInstanceUncertainty(measure=measure) if r.random() < .5 else QueryInstanceUncertainty(X, y, measure)
        elif what == 'boundary':
            p = nr.randn(m, *r.choice([(), (1,)]))
            s = QueryInstanceUncertainty(measure='distance_to_boundary')
        elif what == 'dw':
            p = hard_or_soft(c, m, k)
            s = QueryInstanceDensityWeighted(X, y, r.choice(['entropy', 'least_confident', 'margin']), r.choice(['euclidean', 'cityblock', 'cosine', 'l1']),
                                             r.choice([0, .5, 1, 2.]))
        else:
            com = r.randint(2, 5)
            if what == 'qbc_votes':
                p = [nr.randint(0, k, m) * 2 - 3 for _ in range(com)]
            elif what == 'qbc_onehot':
                p = [np.eye(k, dtype=int)[nr.randint(0, k, m)] for _ in range(com)]
            else:
                p = [hard_or_soft(c, m, k) for _ in range(com)]
            s = QueryInstanceQBC(X, y, disagreement='KL_divergence' if what == 'qbc_kl' else 'vote_entropy')
        if what in ('unc', 'boundary', 'dw'):
            form = r.choice(['array', 'list', 'fortran', 'readonly'])
            p = p.tolist() if form == 'list' else np.asfortranarray(p) if form == 'fortran' else p
            if form == 'readonly':
                p.setflags(write=False)
                c.event('read_only_prediction')
        before = [snap(v) for v in (X, y, p, u)]
        def call():
            if what == 'dw':
                return s.select(wrap(c, L), u, batch_size=batch, proba_prediction=p)
            return s.select_by_prediction_mat(u, p, batch_size=batch)
        vals = judge(c, call(), U, batch, 'prediction:' + what)
        c.check([snap(v) for v in (X, y, p, u)] == before, 'prediction:%s:modified-argument' % what, '', prediction=p)
        c.eq([int(v) for v in call()], vals, 'prediction:%s:not-repeatable' % what)
        c.event('by_prediction')
        strict += len(vals) < len(U)
        U = [v for v in U if v not in vals]
        if not U:
            c.event('exhausted')
            break
    c.covered((n, what, k, kind, c.i), strict > 0)


@R.family('random', 240, 2000, 'random selection')
def rand(c):
    r = c.rng
    n = r.randint(4, 50)
    X, y, kind = data(c, n)
    _, L, U = pool(c, y, n)
    s = r.choice([QueryInstanceRandom, QueryRandom])(*r.choice([(), (X, y)]))
    st = loop(c, 'random', X, y, L, U, lambda l, u, b: s.select(l, u, batch_size=b), deterministic=False)
    c.covered((n, len(U), type(s).__name__, c.i), st > 0)


@R.family('committee', 80, 1200, 'query by committee with bagged models')
def committee(c):
    r = c.rng
    n = r.randint(6, 22)
    X, y, kind = data(c, n)
    _, L, U = pool(c, y, n)
    kl = r.random() < .5
    s = QueryInstanceQBC(X, y, disagreement='KL_divergence' if kl else 'vote_entropy')
    m = r.choice([None, None, Centroid(), GaussianNB(), LogisticRegression(solver='liblinear'), LogisticRegression(solver='lbfgs'), KNeighborsClassifier(1)])
    jobs = r.choice([None, None, 1])
    st = loop(c, 'committee', X, y, L, U, lambda l, u, b: s.select(l, u, model=m, batch_size=b, n_jobs=jobs), deterministic=False, rounds=3)
    c.covered((n, len(U), kl, type(m).__name__, kind, c.i), st > 0)


@R.family('error_reduction', 160, 1200, 'expected error reduction')
def error_reduction(c):
    r = c.rng
    n = r.randint(5, 14)
    X, y, kind = data(c, n)
    _, L, U = pool(c, y, n)
    s = QueryExpectedErrorReduction(X, y)
    m = r.choice([None, Centroid().fit(X[L], y[L]), Centroid(200.).fit(X[L], y[L])])
    st = loop(c, 'error_reduction', X, y, L, U, lambda l, u, b: s.select(l, u, model=m, batch_size=b), rounds=2 if m is None else 5)
    c.covered((n, len(U), type(m).__name__, kind, c.i), st > 0)


@R.family('quire', 240, 2000, 'QUIRE (one instance per selection)')
def quire(c):
    r = c.rng
    n = r.randint(5, 24)
    X, y, kind = data(c, n, classes=2)
    y = np.where(y == y.max(), 1, -1)
    train, L, U = pool(c, y, n)
    kw = r.choice([{}, {'lambda': .3}, {'kernel': 'poly', 'degree': 2}, {'kernel': 'linear'}, {'gamma': .1}, {'kernel': lambda X, Y: np.exp(-np.abs(X[:, None] - Y[None]).sum(2))}])
    if kind == 'wide':
        kw = {}
    s = QueryInstanceQUIRE(X, y, wrap(c, train).__class__ is list and train or np.array(train), **kw)
    st = loop(c, 'quire', X, y, L, U, lambda l, u, b: s.select(l, u), one=True)
    c.covered((n, len(U), str(sorted(kw)), kind, c.i), st > 0)


@R.family('graph_density', 240, 2000, 'graph density (its diversity penalty accumulates over selections)')
def graph_density(c):
    r = c.rng
    n = r.randint(4, 30)
    X, y, kind = data(c, n)
    train, L, U = pool(c, y, n)
    s = QueryInstanceGraphDensity(X, y, r.choice([list, np.array])(train), metric=r.choice(['manhattan', 'euclidean', 'chebyshev']))
    st = loop(c, 'graph_density', X, y, L, U, lambda l, u, b: s.select(l, u, batch_size=b), deterministic=False, extra=(s.train_idx,) if hasattr(s, 'train_idx') else ())
    c.covered((n, len(U), kind, c.i), st > 0)


@R.family('coreset', 320, 3000, 'core-set greedy')
def coreset(c):
    r = c.rng
    n = r.randint(4, 40)
    X, y, kind = data(c, n)
    train, L, U = pool(c, y, n)
    s = QueryInstanceCoresetGreedy(X, y, r.choice([list, np.array])(train), distance=r.choice(['euclidean', 'l1', 'cityblock', 'manhattan']))
    st = loop(c, 'coreset', X, y, L, U, lambda l, u, b: s.select(l, u, batch_size=b))
    c.covered((n, len(U), kind, c.i), st > 0)


@R.family('density_weighted', 240, 2000, 'density weighted uncertainty')
def density_weighted(c):
    r = c.rng
    n = r.randint(4, 40)
    X, y, kind = data(c, n)
    _, L, U = pool(c, y, n)
    s = QueryInstanceDensityWeighted(X, y, r.choice(['entropy', 'least_confident', 'margin']), r.choice(['euclidean', 'cityblock', 'manhattan', 'l2']),
                                     r.choice([0, .5, 1, 2.]))
    m = model_for(c, X, y, L)
    st = loop(c, 'density_weighted', X, y, L, U, lambda l, u, b: s.select(l, u, batch_size=b, model=m))
    c.covered((n, len(U), kind, c.i), st > 0)


@R.family('qp', 48, 600, 'BMDR and SPAL over a stand-in solver, whose first attempts may fail')
def qp(c):
    r = c.rng
    n = r.randint(6, 16)
    X, y, kind = data(c, n, classes=2)
    if kind == 'wide':
        X = (X - X.mean(0)) / (X.std(0) + 1e-9)
    _, L, U = pool(c, y, n)
    mod = fakecvx.module()
    flaky = r.random() < .3
    if flaky:
        class Flaky(fakecvx.Problem):
            left = [r.randint(1, 2)]

            def solve(self, solver=None, gp=False):
                if self.left[0] and any(k[0] == 'eq' for k in self.cons):
                    self.left[0] -= 1
                    raise fakecvx.DCPError()
                return fakecvx.Problem.solve(self, solver, gp)
        if r.random() < .5:
            mod.Problem = Flaky
    sys.modules['cvxpy'] = mod
    try:
        s = r.choice([QueryInstanceBMDR, QueryInstanceSPAL])(X, y, **r.choice([{}, {'kernel': 'linear'}, {'gamma_ker': .3}]))
        b0 = fakecvx.Problem.calls
        if isinstance(s, QueryInstanceSPAL):
            mod.Problem = fakecvx.Problem
        st = loop(c, type(s).__name__, X, y, L, U, lambda l, u, b: s.select(l, u, batch_size=b, qp_solver=r.choice(['ECOS', 'OSQP'])), rounds=3,
                  deterministic=False)
        c.event('qp_solved', fakecvx.Problem.calls - b0)
    finally:
        del sys.modules['cvxpy']
    c.covered((n, len(U), type(s).__name__, kind, c.i), st > 0)


@R.family('lal', 4, 24, 'LAL with a selector trained from a generated file')
def lal(c):
    r, nr = c.rng, c.nr
    n = r.randint(10, 20)
    X, y, kind = data(c, n, classes=2)
    y = (y == y.max()).astype(int)
    _, L, U = pool(c, y, n)
    path = os.path.join(c.scratch(), 'lal.npz')
    np.savez(path, nr.rand(60, 8), nr.rand(60))
    s = QueryInstanceLAL(X, y, mode=r.choice(['LAL_iterative', 'LAL_independent']), data_path=c.scratch(), cls_est=5, train_slt=False)
    c.raises((ValueError,), lambda: s.select(L, U), 'lal:untrained-accepted')
    s.train_selector_from_file(path, reg_est=5, reg_depth=4)
    st = loop(c, 'lal', X, y, L, U, lambda l, u, b: s.select(l, u, batch_size=b), deterministic=False, rounds=3)
    c.event('lal')
    c.covered((n, len(U), kind, c.i), st > 0)


@R.family('random_reach', 16, 100, 'over many random selections from one pool every instance occurs (a miss has chance < 1e-20)')
def random_reach(c):
    k = c.rng.randint(2, 7)
    ids = c.rng.sample(range(30), k)
    q = QueryInstanceRandom(np.zeros((30, 2)), np.arange(30) % 2)
    b = c.rng.choice([1, 1, 2, k - 1])
    seen = set()
    for _ in range(60 * k):
        seen |= {int(v) for v in q.select([v for v in range(30) if v not in ids], IndexCollection(ids), batch_size=max(1, b))}
    c.eq(seen, set(ids), 'random:never-selected', 'some unlabeled instance is never selected', batch=b)
    c.event('reach')
    c.covered((k, b, c.i), True)
