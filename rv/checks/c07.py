"""C07: strategies pick the instances their documented measure ranks best."""
import contextlib
import copy
import io
import os
import pickle
import sys

import numpy as np
from sklearn.ensemble._forest import _generate_sample_indices
from sklearn.linear_model import LogisticRegression

from alipy.query_strategy.query_labels import (
    QueryExpectedErrorReduction, QueryInstanceBMDR, QueryInstanceCoresetGreedy, QueryInstanceDensityWeighted, QueryInstanceGraphDensity,
    QueryInstanceLAL, QueryInstanceQBC, QueryInstanceQUIRE, QueryInstanceSPAL, QueryInstanceUncertainty)
from rv.core import Registry
from rv.checks.c06 import pool, wrap, hard_or_soft
from rv.lib import fakecvx
from rv.lib.models import Centroid, Forgetful, Table

R = Registry('C07', 'The scores of every pool instance are recomputed from the definition, on the predictions the strategy itself was given '
                    '(supplied, tabulated, or recorded from a spying committee), and no unselected instance may score strictly better '
                    'than a selected one. Non-trivial: the selection is strictly inside the pool and the scores differ.',
             require=('ranked', 'discriminating', 'unc_entropy', 'unc_margin', 'unc_least_confident', 'unc_distance_to_boundary', 'votes', 'onehot_votes',
                      'kl', 'spied_committees', 'members_missing_a_class', 'bootstraps', 'eer', 'knows_more_classes', 'BMDR', 'SPAL', 'LAL', 'coreset', 'coreset_steps', 'density_weighted', 'graph_density', 'graph_rounds', 'quire',
                      'agreed_with_model', 'scores_ordered', 'another_fold', 'unseen_class', 'pickled', 'selector_files'))


def xlogx(p):
    p = np.asarray(p, float)
    return np.where(p > 0, p * np.log(np.where(p > 0, p, 1)), 0)


def uncertainty(measure, p):
    """larger is more uncertain"""
    if measure == 'entropy':
        return -xlogx(p).sum(axis=1)
    s = np.sort(np.asarray(p, float), axis=1)
    return 1 - s[:, -1] if measure == 'least_confident' else s[:, -2] - s[:, -1]


def vote_entropy(votes):
    """votes: members x instances"""
    out = []
    for col in np.asarray(votes).T:
        _, n = np.unique(col, return_counts=True)
        out.append(-xlogx(n / len(col)).sum())
    return np.array(out)


def kl(ps):
    ps = np.asarray(ps, float)
    m = ps.mean(axis=0)
    out = 0
    for p in ps:
        out = out + np.where(p > 0, p * (np.log(np.where(p > 0, p, 1)) - np.log(np.where(m > 0, m, 1))), 0).sum(axis=1)
    return out / len(ps)


def best(c, got, U, score, mech, tol=1e-9, **wit):
    """got is a subset of the pool U no unselected member of which scores better (score: larger is better)."""
    got = [int(v) for v in got]
    score = np.asarray(score, float)
    c.check(set(got) <= set(U) and len(set(got)) == len(got), mech + ':invalid', '', got=got, U=U)
    mine = [score[U.index(v)] for v in got]
    rest = [score[k] for k, v in enumerate(U) if v not in got]
    c.event('ranked')
    if not rest:
        return False
    scale = 1 + np.abs(score).max()
    c.check(max(rest) <= min(mine) + tol * scale, mech, 'an unselected instance scores better', selected=got, selected_scores=mine,
            best_unselected=max(rest), scores=score, pool=U, **wit)
    if max(mine) > min(rest) + tol * scale:
        c.event('discriminating')
        return True
    return False


def ordered(c, values, want, mech, tol=1e-6):
    """the reported scores never invert two clearly different true ones"""
    values, want = np.asarray(values, float), np.asarray(want, float)
    c.eq(values.shape, want.shape, mech + ':shape')
    o = np.argsort(want)
    for a, b in zip(o, o[1:]):
        if want[b] - want[a] > tol:
            c.check(values[b] > values[a], mech, 'order inverted', reported=values, definition=want)
    c.event('scores_ordered')


def setup(c, lo=5, hi=40, classes=None, ties=True):
    r, nr = c.rng, c.nr
    n = r.randint(lo, hi)
    X = nr.randn(n, r.randint(1, 4))
    k = classes or r.choice([2, 2, 3, 4])
    k = min(k, n - 2)
    y = nr.permutation(np.arange(n) % k)
    X = X + r.choice([0, 1.]) * y[:, None]
    if r.random() < .3:
        y = y * 2 - 1 if k == 2 else y * 3 + 1
    train, L, U = pool(c, y, n)
    return X, y, train, L, U, n, k


def ordered_pool(c, U):
    """the pool as handed over, and in the order it iterates (predictions correspond to that)"""
    u = wrap(c, U)
    return u, [int(v) for v in u]


def other_fold(c, y, L, U, classes=None):
    """other sets of the same sizes over the same instances (as another fold has), still showing enough classes"""
    need = len(set(y[L].tolist())) if classes is None else classes
    for _ in range(50):
        p = c.rng.sample(L + U, len(L) + len(U))
        if len(set(y[p[:len(L)]].tolist())) >= need:
            c.event('another_fold')
            return p[:len(L)], p[len(L):]
    return list(L), list(U)


def batch_of(c, U):
    return c.rng.choice([1, 1, 2, 3, max(1, len(U) // 2), max(1, len(U) - 1)])


@R.family('uncertainty', 700, 20000, 'uncertainty measures, through models and through prediction matrices')
def unc(c):
    r, nr = c.rng, c.nr
    X, y, _, L, U, n, k = setup(c)
    u, U = ordered_pool(c, U)
    measure = r.choice(['entropy', 'margin', 'least_confident', 'distance_to_boundary'])
    tol = 5e-5 if measure == 'entropy' else 1e-9
    s = QueryInstanceUncertainty(X, y, measure=measure)
    sharp = unc_round(c, s, X, y, L, u, U, n, k, measure, tol)
    if r.random() < .4:
        L, U = other_fold(c, y, L, U)
        u, U = ordered_pool(c, U)
        unc_round(c, s, X, y, L, u, U, n, k, measure, tol)
    c.event('unc_' + measure)
    c.covered((n, len(U), k, measure, c.i), sharp)


def unc_round(c, s, X, y, L, u, U, n, k, measure, tol):
    r, nr = c.rng, c.nr
    p = f = None
    if measure == 'distance_to_boundary':
        f = nr.randn(n) * 10 ** r.uniform(-2, 2)
        if r.random() < .3:
            f = np.round(f)
        model = Table(X, decision=f if r.random() < .6 else f[:, None])
        mat, score = f[U], -np.abs(f[U])
        if r.random() < .4:
            mat = mat[:, None]
    else:
        p = hard_or_soft(c, n, r.randint(2, 5))
        model = Table(X, proba=p)
        mat, score = p[U], uncertainty(measure, p[U])
    b = batch_of(c, U)
    how = r.choice(['model', 'default', 'default', 'matrix', 'both'])
    if how == 'default':
        m = LogisticRegression(solver='liblinear').fit(X[L], y[L])
        if measure == 'distance_to_boundary':
            if k != 2:
                how = 'model'
            else:
                score = -np.abs(m.decision_function(X[U]))
        else:
            score = uncertainty(measure, m.predict_proba(X[U]))
    l = wrap(c, L)
    if how == 'default':
        got = s.select(l, u, batch_size=b)
        tol = max(tol, 1e-6)
    elif how == 'matrix':
        got = s.select_by_prediction_mat(u, mat.copy(), batch_size=b)
    else:
        got = s.select(l, u, model=model, batch_size=b)
    sharp = best(c, got, U, score, 'uncertainty:' + measure, tol=tol)
    if how == 'both':
        other = s.select_by_prediction_mat(u, mat.copy(), batch_size=b)
        best(c, other, U, score, 'uncertainty:%s:matrix' % measure, tol=tol)
        a, d = [np.sort([score[U.index(int(v))] for v in w]) for w in (got, other)]
        c.close(a, d, 'matrix-differs-from-model', '', tol=max(tol, 1e-9))
        c.event('agreed_with_model')
    if measure == 'entropy' and p is not None:
        ordered(c, QueryInstanceUncertainty.calc_entropy(p.copy()), uncertainty('entropy', p), 'calc-entropy')
        c.close(QueryInstanceUncertainty.calc_entropy(p.copy()), uncertainty('entropy', p), 'calc-entropy-value', '', tol=1e-5)
    return sharp


@R.family('committee', 500, 15000, 'committee disagreement on supplied predictions')
def committee(c):
    r, nr = c.rng, c.nr
    X, y, _, L, U, n, k = setup(c)
    u, U = ordered_pool(c, U)
    m, com, kk = len(U), r.randint(2, 6), r.randint(2, 4)
    b = batch_of(c, U)
    what = r.choice(['votes', 'onehot_votes', 'kl'])
    if what == 'kl':
        ps = [hard_or_soft(c, m, kk) for _ in range(com)]
        score = kl(ps)
        s, vals = QueryInstanceQBC(X, y, disagreement='KL_divergence'), QueryInstanceQBC.calc_avg_KL_divergence(ps)
    else:
        votes = nr.randint(0, kk, (com, m))
        score = vote_entropy(votes)
        if what == 'votes':
            names = nr.permutation([-3, 0, 1, 7])
            ps = [names[v] for v in votes]
            if r.random() < .3:
                ps = [list(v) for v in ps]
        else:
            ps = [np.eye(kk, dtype=r.choice([int, float]))[v] for v in votes]
        s, vals = QueryInstanceQBC(X, y), QueryInstanceQBC.calc_vote_entropy(ps)
    ordered(c, vals, score, 'committee-scores')
    sharp = best(c, s.select_by_prediction_mat(u, ps, batch_size=b), U, score, 'committee:' + what, tol=1e-6)
    c.event(what)
    c.covered((n, m, com, kk, what, b, c.i), sharp)


@R.family('bagging', 100, 1500, 'committee disagreement of a bagged committee, spied on')
def bagging(c):
    r = c.rng
    X, y, _, L, U, n, k = setup(c, hi=24)
    u, U = ordered_pool(c, U)
    b = batch_of(c, U)
    if b >= len(U):
        c.skip()
    dis = r.choice(['vote_entropy', 'KL_divergence'])
    s = QueryInstanceQBC(X, y, disagreement=dis)
    if r.random() < .4:
        s.select(wrap(c, L), u, model=Centroid(), batch_size=b)
        L, U = other_fold(c, y, L, U)
        u, U = ordered_pool(c, U)
    Centroid.log = []
    Forgetful.total = len(set(y[L].tolist()))
    kind = r.choice([Centroid, Forgetful])
    try:
        got = s.select(wrap(c, L), u, model=kind(r.choice([.5, 2.])), batch_size=b)
        log = Centroid.log
    finally:
        Centroid.log = None
    want = 'predict' if dis == 'vote_entropy' else 'predict_proba'
    members = {}
    for who, what, Xq, out in log:
        if what == want and Xq.shape == (len(U), X.shape[1]) and np.array_equal(Xq, X[U]):
            members[who] = out
    c.check(len(members) > 1, 'no-committee-over-the-pool', '', calls=[(t[1], t[2].shape) for t in log])
    ps = list(members.values())
    score = vote_entropy(ps) if dis == 'vote_entropy' else kl(ps)
    sharp = best(c, got, U, score, 'bagging:' + dis, tol=1e-6)
    if r.random() < .5:     # every member learns labeled instances with their labels, and together they learn all of them
        Centroid.fits = []
        try:
            for _ in range(4):
                s.select(wrap(c, L), wrap(c, U), model=Centroid(), batch_size=b)
            fits = Centroid.fits
        finally:
            Centroid.fits = None
        code = {v: i for i, v in enumerate(sorted(set(y[L].tolist())))}
        true = {tuple(X[v]): code[y[v]] for v in L}
        seen = set()
        for A, t in fits:
            for row, lab in zip(A, t):
                c.check(true.get(tuple(row)) == lab, 'bagging:learned-wrong', 'a committee member learned something else than a labeled instance',
                        row=row, label=lab)
                seen.add(tuple(row))
        c.check(len(fits) < 40 or len(seen) == len(true), 'bagging:never-learned', 'a labeled instance is in no bootstrap sample',
                missing=[k for k in true if k not in seen], fits=len(fits))
        c.event('bootstraps', len(fits))
    c.event('spied_committees')
    if dis != 'vote_entropy' and kind is Forgetful and any((p == 0).all(axis=0).any() for p in ps):
        c.event('members_missing_a_class')
    c.covered((n, len(U), dis, kind.__name__, b, c.i), sharp)


@R.family('error_reduction', 120, 3000, 'expected error reduction')
def eer(c):
    r = c.rng
    X, y, _, L, U, n, k = setup(c, hi=14)
    b = batch_of(c, U)
    if b >= len(U):
        c.skip()
    s = QueryExpectedErrorReduction(X, y)
    kind = r.choice(['centroid', 'centroid', 'default']) if n < 10 else 'centroid'
    if r.random() < .3:
        s.select(wrap(c, L), wrap(c, U), model=None if kind == 'default' else Centroid(2.).fit(X[L], y[L]), batch_size=b)
        L, U = other_fold(c, y, L, U)
    if kind == 'centroid' and k > 2 and r.random() < .4:      # a class nobody has seen yet
        gone = y[r.choice(L)]
        L = [v for v in L if y[v] != gone]
        c.event('unseen_class')
    make = (lambda: Centroid(2.)) if kind == 'centroid' else (lambda: LogisticRegression(solver='liblinear'))
    model = make().fit(X[L], y[L])
    if kind == 'centroid' and r.random() < .3:      # a model which knows more classes than the labeled set shows
        model = make().fit(X, y)
        L = [v for v in L if y[v] != y[U[0]]] or L
        c.event('knows_more_classes', len(set(y[L])) < len(model.classes_))
    pv = model.predict_proba(X[U])
    score = []
    for i, v in enumerate(U):
        rest = [w for w in U if w != v]
        e = 0
        for j, lab in enumerate(model.classes_):
            q = make().fit(X[L + [v]], np.append(y[L], lab)).predict_proba(X[rest])
            e += pv[i, j] * -xlogx(q).sum()
        score.append(-e)
    got = s.select(wrap(c, L), wrap(c, U), model=None if kind == 'default' else model, batch_size=b)
    sharp = best(c, got, U, score, 'error-reduction', tol=1e-6)
    c.event('eer')
    c.covered((n, len(U), k, kind, b, c.i), sharp)


def dist(name, A, B):
    D = A[:, None, :] - B[None]
    if name in ('euclidean', 'l2'):
        return np.sqrt((D ** 2).sum(2))
    if name in ('l1', 'manhattan', 'cityblock'):
        return np.abs(D).sum(2)
    na, nb = np.sqrt((A ** 2).sum(1)), np.sqrt((B ** 2).sum(1))
    return 1 - A.dot(B.T) / np.outer(na, nb)


@R.family('coreset', 300, 8000, 'core-set greedy, round after round and on unrelated labeled sets')
def coreset(c):
    r = c.rng
    X, y, train, L, U, n, k = setup(c)
    m = r.choice(['euclidean', 'l1', 'l2', 'manhattan', 'cityblock', 'cosine'])
    s = QueryInstanceCoresetGreedy(X, y, r.choice([list, np.array])(train), distance=m)
    sharp = False
    for _ in range(r.randint(1, 4)):
        b = batch_of(c, U)
        got = [int(v) for v in s.select(wrap(c, L), wrap(c, U), batch_size=b)]
        c.eq(len(got), min(b, len(U)), 'coreset:count')
        centers, left = list(L), list(U)
        for v in got:
            c.check(v in left, 'coreset:not-in-pool', '', v=v, left=left)
            gain = dist(m, X[left], X[centers]).min(axis=1)
            sharp = best(c, [v], left, gain, 'coreset', tol=1e-7, centers=centers) or sharp
            centers.append(v)
            left.remove(v)
            c.event('coreset_steps')
        step = r.choice(['label', 'forget', 'redraw'])
        if step == 'label':
            L, U = L + got, left
        elif step == 'redraw':
            both = r.sample(L + U, len(L) + len(U))
            cut = r.randint(1, len(both) - 1)
            L, U = both[:cut], both[cut:]
        if not U:
            break
    c.event('coreset')
    c.covered((n, len(U), m, c.i), sharp)


@R.family('density_weighted', 250, 8000, 'uncertainty times mean distance to the pool')
def dw(c):
    r = c.rng
    X, y, _, L, U, n, k = setup(c)
    u, U = ordered_pool(c, U)
    X = X + 3
    measure, m, beta = r.choice(['entropy', 'least_confident', 'margin']), r.choice(['euclidean', 'l1', 'l2', 'manhattan', 'cityblock', 'cosine']), r.choice([0, .5, 1., 2.])
    s = QueryInstanceDensityWeighted(X, y, measure, m, beta)
    b = batch_of(c, U)
    p = hard_or_soft(c, n, r.randint(2, 4))
    if r.random() < .4:
        s.select(wrap(c, L), u, batch_size=b, model=Table(X, proba=p))
        L, U = other_fold(c, y, L, U)
        u, U = ordered_pool(c, U)
    score = uncertainty(measure, p[U]) * dist(m, X[U], X[U]).mean(axis=0) ** beta
    if r.random() < .5:
        got = s.select(wrap(c, L), u, batch_size=b, proba_prediction=p[U])
    else:
        got = s.select(wrap(c, L), u, batch_size=b, model=Table(X, proba=p))
    sharp = best(c, got, U, score, 'density-weighted:' + measure, tol=1e-6)
    c.event('density_weighted')
    c.covered((n, len(U), measure, m, beta, b, c.i), sharp)


class Graph(object):
    """The documented graph density: mean weight of the edges of the symmetrised 10-nearest-neighbour graph; sampling a
    node lowers its neighbours' densities by its own."""

    def __init__(self, X, metric):
        n = len(X)
        D1 = dist('l1', X, X)
        np.fill_diagonal(D1, np.inf)
        A = np.zeros((n, n), bool)
        for i in range(n):
            A[i, np.argsort(D1[i], kind='stable')[:min(10, n - 1)]] = True
        A |= A.T
        W = np.where(A, np.exp(-dist(metric, X, X) / X.shape[1]), 0)
        self.nb = [np.nonzero(W[i] > 0)[0] for i in range(n)]
        self.start = np.array([W[i].sum() / max(1, (W[i] > 0).sum()) for i in range(n)])
        self.W = W
        self.d = self.start.copy()

    def out(self, which):
        self.d[list(which)] = self.d.min() - 1

    def sample(self, i):
        self.d[self.nb[i]] = self.d[self.nb[i]] - self.d[i]


@R.family('graph_density', 120, 3000, 'graph density, round after round')
def graph_density(c):
    r = c.rng
    X, y, train, L, U, n, k = setup(c, hi=30)
    X = X + c.nr.randn(*X.shape) * .01
    m = r.choice(['manhattan', 'euclidean'])
    s = QueryInstanceGraphDensity(X, y, r.choice([list, np.array])(train), metric=m)
    g = Graph(X[train], m)
    d = s.to_dict()
    c.close(d['graph_density'], g.start, 'graph-density-values')
    con = d['connectivity']
    c.close(con.toarray() if hasattr(con, 'toarray') else con, g.W, 'graph-connectivity')
    sharp = False
    for _ in range(r.randint(1, 5)):
        b = batch_of(c, U)
        got = [int(v) for v in s.select(wrap(c, L), wrap(c, U), batch_size=b)]
        if b < len(U):
            todo, taken = list(got), []
            excluded = [p for p, v in enumerate(train) if v not in U]
            g.out(excluded)
            while todo:      # the batch comes back unordered: the greedy order takes the densest of it each time
                v = max(todo, key=lambda t: g.d[train.index(t)])
                left = [t for t in U if t not in taken]
                sharp = best(c, [v], left, [g.d[train.index(t)] for t in left], 'graph-density', tol=1e-9) or sharp
                todo.remove(v)
                taken.append(v)
                g.sample(train.index(v))
                g.out(excluded)
                g.out([train.index(t) for t in taken])
        c.event('graph_rounds')
        L, U = L + got, [v for v in U if v not in got]
        if not U:
            break
    c.close(s.to_dict()['graph_density'], g.start, 'graph-density-values', 'the reported densities are those of the graph')
    c.event('graph_density')
    c.covered((n, len(U), m, c.i), sharp)


@R.family('quire', 200, 5000, 'QUIRE: the smallest worst-case evaluation')
def quire(c):
    r = c.rng
    X, y, train, L, U, n, k = setup(c, hi=24, classes=2)
    y = np.where(y == y.max(), 1, -1)
    if len(U) < 2:
        c.skip()
    lam = r.choice([.3, 1., 2.])
    kw, f = r.choice([
        (dict(kernel='rbf', gamma=.5), lambda A: np.exp(-.5 * ((A[:, None] - A[None]) ** 2).sum(2))),
        (dict(), lambda A: np.exp(-((A[:, None] - A[None]) ** 2).sum(2))),
        (dict(kernel='poly', degree=2, coef0=1, gamma=.5), lambda A: (.5 * A.dot(A.T) + 1) ** 2),
        (dict(kernel='linear'), lambda A: A.dot(A.T)),
        (dict(kernel=lambda X, Y: np.exp(-np.abs(X[:, None] - Y[None]).sum(2))), lambda A: np.exp(-np.abs(A[:, None] - A[None]).sum(2)))])
    kw['lambda'] = lam
    s = QueryInstanceQUIRE(X, y, r.choice([list, np.array])(train), **kw)
    K = f(X[train])
    M = np.linalg.inv(K + lam * np.eye(len(train)))
    sharp = False
    for _ in range(r.randint(1, 4)):
        if len(U) < 2:
            break
        if _ and r.random() < .5:
            L, U = other_fold(c, y, L, U, 1)
            if r.random() < .5:
                U[1:-1] = r.sample(U[1:-1], len(U) - 2)
        l, u = [train.index(v) for v in L], [train.index(v) for v in U]
        yl = y[L]
        # the worst case over the label of s and the (relaxed) labels of the others; instances in neither set are left out
        score = []
        det = np.linalg.det(M[np.ix_(u, u)])
        outside = len(l) + len(u) < len(train)     # the evaluation is defined over train = labeled + unlabeled
        for t in u:
            o = [v for v in u if v != t]
            inv = np.linalg.inv(M[np.ix_(o, o)])
            v = (M[t, l] - M[t, o].dot(inv).dot(M[np.ix_(o, l)])).dot(yl)
            score.append(-(M[t, t] - det / M[t, t] + 2 * abs(v)))
        got = s.select(wrap(c, L), wrap(c, U))
        c.eq(len(got), 1, 'quire:count')
        if not outside:
            sharp = best(c, got, U, score, 'quire', tol=1e-6) or sharp
            c.event('quire')
        if r.random() < .6:
            L, U = L + [int(got[0])], [v for v in U if v != int(got[0])]
    c.covered((n, len(U), lam, str(sorted(map(str, kw))), c.i), sharp)


@R.family('qp', 40, 800, 'BMDR and SPAL: the quadratic programme given to the solver, and the choice of its largest weights')
def qp(c):
    r = c.rng
    X, y, train, L, U, n, k = setup(c, hi=20, classes=2)
    X = (X - X.mean(0)) / (X.std(0) + 1e-9)
    y = np.where(y == y.max(), 1, -1)
    b = batch_of(c, U)
    if b >= len(U):
        c.skip()
    u, U = ordered_pool(c, U)
    kind = r.choice(['BMDR', 'SPAL'])
    weight, gamma = r.choice([.1, 1., 1000.]), r.choice([.1, 1.])
    ker = r.choice(['rbf', 'linear'])
    mod = fakecvx.module()
    sys.modules['cvxpy'] = mod
    fakecvx.Problem.log = []
    try:
        s = QueryInstanceBMDR(X, y, beta=weight, gamma=gamma, kernel=ker) if kind == 'BMDR' else \
            QueryInstanceSPAL(X, y, mu=weight, gamma=gamma, kernel=ker, lambda_init=r.choice([.1, 1., 5.]))
        if r.random() < .5:
            s.select(wrap(c, L), u, batch_size=b)
            L, U = other_fold(c, y, L, U)
            u, U = ordered_pool(c, U)
        if r.random() < .4:
            s = pickle.loads(pickle.dumps(s)) if r.random() < .5 else copy.deepcopy(s)
            c.event('pickled')
        del fakecvx.Problem.log[:]
        got = [int(v) for v in s.select(wrap(c, L), u, batch_size=b)]
        log = fakecvx.Problem.log
    finally:
        fakecvx.Problem.log = None
        del sys.modules['cvxpy']
    c.check(log, 'qp:not-solved')
    K = X.dot(X.T) if ker == 'linear' else np.exp(-((X[:, None] - X[None]) ** 2).sum(2))
    pred = np.linalg.solve(K[np.ix_(L, L)] + gamma * np.eye(len(L)), y[L]).dot(K[np.ix_(L, U)])
    N = len(L) + len(U)
    q = weight * ((len(U) - b) / N * K[np.ix_(L, U)].sum(axis=0) - (len(L) + b) / N * K[np.ix_(U, U)].sum(axis=0)) + pred ** 2 + 2 * np.abs(pred)
    P = weight / 4 * K[np.ix_(U, U)]
    size = max(np.abs(q).max(), 1e-9)
    P0, q0, w0, t0, x0 = log[0]
    c.close(q0, q, 'qp:linear-term', 'risk of the worst label plus the discrepancy of the two sets', tol=1e-6 * size)
    c.close(P0, P, 'qp:quadratic-term', '', tol=1e-6 * weight)
    c.check(w0 is not None and t0 == b and np.all(w0 == 1), 'qp:batch-constraint', '', weights=w0, total=t0)
    sharp = False
    if kind == 'BMDR':
        sharp = best(c, got, U, log[-1][4], 'bmdr:largest-weights', tol=1e-9)
    c.event('programmes', len(log))
    c.event(kind)
    c.covered((n, len(U), kind, weight, gamma, ker, b, c.i), sharp or kind == 'SPAL')


class Regressor(object):
    def __init__(self, w):
        self.w, self.seen = w, []

    def predict(self, F):
        out = np.sin(np.asarray(F).dot(self.w))
        self.seen.append((np.array(F), out))
        return out


@R.family('lal', 12, 200, 'LAL: the largest error reduction the trained selector predicts from the documented features')
def lal(c):
    r = c.rng
    X, y, train, L, U, n, k = setup(c, lo=10, hi=24, classes=2)
    y = np.where(y == y.max(), 1, r.choice([0, -1]))
    b = batch_of(c, U)
    if b >= len(U):
        c.skip()
    u, U = ordered_pool(c, U)
    s = QueryInstanceLAL(X, y, data_path=c.scratch(), cls_est=r.choice([5, 12]), train_slt=False)
    s._selector = reg = Regressor(c.nr.randn(8) * 3)
    s.model.set_params(n_jobs=1)
    if r.random() < .5:
        s.select(wrap(c, L), u, batch_size=b)
        L, U = other_fold(c, y, L, U)
        u, U = ordered_pool(c, U)
        del reg.seen[:]
    lab, L = ordered_pool(c, L)
    got = s.select(lab, u, batch_size=b)
    c.eq(len(reg.seen), 1, 'lal:predictions')
    F, out = reg.seen[0]
    sharp = best(c, got, U, out, 'lal')
    c.eq(F.shape, (len(U), 8), 'lal:feature-count')
    t = np.array([tree.predict_proba(X[U])[:, 0] for tree in s.model.estimators_])
    one = np.ones(len(U))
    want = np.array([t.mean(axis=0), t.std(axis=0), one * (y[L] > 0).mean(), one * s.model.oob_score_,
                     one * np.std(s.model.feature_importances_ / X.shape[1]), one * t.std(axis=0).mean(),
                     one * np.mean([tree.tree_.max_depth for tree in s.model.estimators_]), one * len(L)]).T
    c.close(F, want, 'lal:features', '', tol=1e-9)
    for tree in s.model.estimators_:        # a tree which grew on the labeled instances reproduces its sample of them
        own = np.array(L)[_generate_sample_indices(tree.random_state, len(L), len(L))]
        c.check((s.model.classes_[tree.predict(X[own]).astype(int)] == y[own]).all(), 'lal:forest', 'the forest has not learned the labeled instances')
    c.event('LAL')
    c.covered((n, len(U), b, c.i), sharp)


@R.family('selector_file', 4, 60, 'LAL: the selector is trained on the file of its mode, or on the one it is given')
def selector_file(c):
    r = c.rng
    X, y, train, L, U, n, k = setup(c, lo=10, hi=24, classes=2)
    y = np.where(y == y.max(), 1, 0)
    d = c.scratch()
    value = {}
    for name in ('LAL-iterativetree-simulatedunbalanced-big.npz', 'LAL-randomtree-simulatedunbalanced-big.npz', 'own.npz'):
        value[name] = round(r.uniform(-5, 5), 3)
        np.savez(os.path.join(d, name), c.nr.randn(30, 8), np.full((30, 1), value[name]))
    for mode, name in (('LAL_iterative', 'LAL-iterativetree-simulatedunbalanced-big.npz'), ('LAL_independent', 'LAL-randomtree-simulatedunbalanced-big.npz')):
        s = QueryInstanceLAL(X, y, mode=mode, data_path=d, cls_est=4, train_slt=False)
        c.raises(ValueError, lambda: s.select(wrap(c, L), wrap(c, U)), 'selector:untrained', 'a strategy without selector selects') if len(U) > 1 else None
        for path, want in ((None, value[name]), (os.path.join(d, 'own.npz'), value['own.npz'])):
            with contextlib.redirect_stdout(io.StringIO()):
                s.train_selector_from_file(path, reg_est=r.randint(4, 9), reg_depth=r.randint(2, 5), feat=r.randint(1, 8))
            c.close(s._selector.predict(c.nr.randn(3, 8)), [want] * 3, 'selector:wrong-file', 'the selector has learned from another file', mode=mode, path=path)
            c.event('selector_files')
        c.raises(ValueError, lambda: s.train_selector_from_file(d), 'selector:directory', 'a directory is no training file')
    c.covered((n, c.i), True)
