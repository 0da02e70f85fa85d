"""C23: multi-label strategies pick what their documented criterion ranks best."""
import copy

import numpy as np
from sklearn.linear_model import LogisticRegression
from sklearn.metrics.pairwise import linear_kernel, polynomial_kernel, rbf_kernel
from sklearn.naive_bayes import GaussianNB
from sklearn.svm import SVC

from alipy.index.index_collections import IndexCollection, MultiLabelIndexCollection
from alipy.query_strategy import multi_label as ml
from alipy.query_strategy.multi_label import (LabelRankingModel, QueryMultiLabelAdaptive, QueryMultiLabelAUDI, QueryMultiLabelMMC,
                                              QueryMultiLabelQUIRE)
from alipy.query_strategy.query_type import QueryTypeAURO
from rv.core import Registry

R = Registry('C23', 'Each multi-label strategy runs on generated data while a recorder keeps what the model it consults was trained on '
                    'and what it predicted; the criterion is then recomputed from those recordings and the selection must not be '
                    'beaten by any candidate. Non-trivial: the candidates differ under the criterion.',
             require=('quire_selected', 'audi_selected', 'auro_selected', 'mmc_selected', 'adaptive_selected', 'partly_labeled',
                      'model:own', 'model:trained', 'model:table', 'encoding:01', 'encoding:-11', 'same_under_encoding',
                      'single_class_label', 'training_observed', 'refit_compared', 'predictions_checked', 'strict_choice', 'learned', 'batches', 'another_fold'))


def data(c, n, nl, enc=(-1, 1), d=None):
    r, nr = c.rng, c.nr
    X = nr.randn(n, d or r.randint(1, 4))
    if r.random() < .15:
        X = np.round(X)
    y = np.where(nr.rand(n, nl) < r.choice([.3, .5, .7]), enc[1], enc[0])
    if r.random() < .25:
        y[:, r.randrange(nl)] = r.choice(enc)
        c.event('single_class_label')
    return X, y


def start(c, n, nl, part):
    r = c.rng
    ins = r.sample(range(n), n)
    k = r.randint(2, n - 2)
    L = [(i, j) for i in ins[:k] for j in range(nl)]
    U = [(i, j) for i in ins[k:] for j in range(nl)]
    if part:
        mv = r.sample(U, r.randint(1, max(1, len(U) // 2)))
        L, U = L + mv, [e for e in U if e not in mv]
        c.event('partly_labeled')
    r.shuffle(L)
    r.shuffle(U)
    return L, U


def give(c, E, n, nl):
    f = c.rng.choice(['collection', 'collection', 'tuples', 'onedim'])
    if f == 'collection':
        return MultiLabelIndexCollection(list(E), label_size=nl)
    return list(E) if f == 'tuples' else [i + j * n for i, j in E]


def advance(L, U, e):
    return L + [e], [u for u in U if u != e]


def another(c, n, chance, *sets):
    """Now and then the strategy goes on with another fold: index sets of the same sizes over other instances."""
    if c.rng.random() > chance:
        return sets
    c.event('another_fold')
    p = c.rng.sample(range(n), n)
    return [[(p[e[0]], e[1]) if isinstance(e, tuple) else p[e] for e in s] for s in sets]


# ------------------------------------------------------------------ QUIRE
@R.family('quire', 400, 5000, 'multi-label QUIRE: the pair with the smallest worst-case objective, by direct linear solves')
def quire(c):
    r = c.rng
    n, nl = r.randint(4, 8), r.randint(1, 3)
    X, y = data(c, n, nl)
    L, U = start(c, n, nl, r.random() < .6)
    lm = r.choice([1., 1., .3, 5.])
    kern, K = r.choice([('rbf', lambda: rbf_kernel(X, X, gamma=1.)), ('linear', lambda: linear_kernel(X, X)),
                        ('poly', lambda: polynomial_kernel(X, X, coef0=1, degree=3, gamma=1.))])
    s = QueryMultiLabelQUIRE(X, y, **dict({'kernel': kern}, **({'lambda': lm} if lm != 1. else {})))
    G = np.linalg.inv(K() + lm * np.eye(n))          # same block for each label
    strict = 0

    def m(a, b):
        return G[a[0], b[0]] if a[1] == b[1] else 0.
    while len(U) > 1:
        keys = s.select(give(c, L, n, nl), give(c, U, n, nl))
        c.eq(len(keys), 1, 'quire:count')
        got = (int(keys[0][0]), int(keys[0][1]))
        c.check(got in U, 'quire:not-unlabeled', '', got=got)
        vals = {}
        for q in U:
            rest = [u for u in U if u != q]
            M = np.array([[m(a, b) for b in rest] for a in rest])
            sl = lambda t: sum(y[e] * m(e, t) for e in L)
            worst = []
            for yq in (-1, 1):
                v = np.array([sl(t) + yq * m(q, t) for t in rest])
                worst.append(m(q, q) + 2 * yq * sl(q) - v @ np.linalg.solve(M, v))
            vals[q] = max(worst)
        best, span = min(vals.values()), max(vals.values()) - min(vals.values())
        tol = 1e-6 * max(1., max(abs(v) for v in vals.values()))
        c.check(vals[got] <= best + tol, 'quire:beaten', '', got=got, value=vals[got], best=min(vals, key=vals.get), best_value=best, labeled=L, unlabeled=U)
        c.event('quire_selected')
        if span > tol:
            strict += 1
            c.event('strict_choice')
        e = got if r.random() < .7 else r.choice(U)
        L, U = another(c, n, .2, *advance(L, U, e))
    c.covered((n, nl, kern, lm, c.i), strict > 0)


# ------------------------------------------------------------------ AUDI and AURO: label ranking model
class Recorder(object):
    """Keeps what LabelRankingModel is trained on and predicts, while installed."""

    def __enter__(self):
        self.fits, self.preds = [], []
        self.fit0, self.pred0, self.init0 = LabelRankingModel.fit, LabelRankingModel.predict, LabelRankingModel.__init__
        rec = self

        def fit(m, X, y, *a, **k):
            rec.fits.append((np.array(X), np.array(y)))
            return rec.fit0(m, X, y, *a, **k)

        def predict(m, X):
            if isinstance(m, Table):
                out = m.answer(X)
            else:
                out = rec.pred0(m, X)
            rec.preds.append((np.array(X), np.array(out[0]), np.array(out[1])))
            return out

        def init(m, init_X=None, init_y=None, **k):
            if init_X is not None:
                rec.fits.append((np.array(init_X), np.array(init_y)))
            return rec.init0(m, init_X, init_y, **k)
        LabelRankingModel.fit, LabelRankingModel.predict, LabelRankingModel.__init__ = fit, predict, init
        return self

    def __exit__(self, *a):
        LabelRankingModel.fit, LabelRankingModel.predict, LabelRankingModel.__init__ = self.fit0, self.pred0, self.init0


class Table(LabelRankingModel):
    """A trained model whose scores are chosen by the test."""

    def __init__(self, X, scores):
        self._init_flag = True
        self._ini_parameters = True
        self.X, self.scores = X, scores

    def answer(self, X):
        rows = [int(np.where((self.X == x).all(axis=1))[0][0]) for x in X]
        P = self.scores[rows].astype(float)
        return P, np.where(P[:, :-1] > P[:, -1:], 1., -1.)


def model_for(c, X, y, L, nl):
    how = c.rng.choice(['table', 'table', 'table', 'trained', 'own', 'untrained'])
    if how == 'table':
        sc = c.nr.randn(len(X), nl + 1) if c.rng.random() < .5 else c.nr.randint(-3, 4, size=(len(X), nl + 1))
        m = Table(X, sc)
    elif how == 'trained':
        w = sorted({e[0] for e in L})
        m = LabelRankingModel(X[w], y[w], n_repeat=1)
    else:
        m = LabelRankingModel() if how == 'untrained' else None
    c.event('model:' + ('own' if how in ('own', 'untrained') else how))
    return how, m


def trained_on(c, rec, X, y, L, mech):
    """whatever the model was fitted on consists of true labels of labeled entries"""
    lab = set(L)
    for FX, Fy in rec.fits:
        c.eq(len(FX), len({e[0] for e in L}), mech + ':training-rows', '', labeled=L)
        for x, row in zip(FX, Fy):
            cand = [i for i in {e[0] for e in L} if np.array_equal(X[i], x)]
            ok = any(all(row[j] == (y[i, j] if (i, j) in lab else 0) for j in range(y.shape[1])) for i in cand)
            c.check(ok, mech + ':trained-on-other-labels', 'a training row is not an instance with exactly its labeled entries',
                    row=row, instances=cand, labeled=L)
        c.event('training_observed')


def setup_rank(c, nmax=7):
    n, nl = c.rng.randint(4, nmax), c.rng.randint(2, 4)
    X, y = data(c, n, nl)
    X = X + np.arange(n)[:, None] * 1e-3      # distinct rows
    L, U = start(c, n, nl, c.rng.random() < .7)
    return n, nl, X, y, L, U


@R.family('audi', 400, 4000, 'AUDI: largest label cardinality inconsistency, then the label closest to the threshold')
def audi(c):
    r = c.rng
    n, nl, X, y, L, U = setup_rank(c)
    s = QueryMultiLabelAUDI(X, y)
    how, m = model_for(c, X, y, L, nl)
    eps = r.choice([None, None, .1, 3.])
    strict = 0
    for _ in range(2 if how == 'own' else 12):
        if len(U) < 2:
            break
        with Recorder() as rec:
            keys = s.select(give(c, L, n, nl), give(c, U, n, nl), model=m, **({} if eps is None else dict(epsilon=eps)))
        c.eq(len(keys), 1, 'audi:count')
        gi, gl = int(keys[0][0]), int(keys[0][1])
        c.check((gi, gl) in U, 'audi:not-unlabeled', '', got=(gi, gl))
        if how in ('own', 'untrained'):
            trained_on(c, rec, X, y, L, 'audi')
            c.check(rec.fits or how != 'own', 'audi:not-trained', 'without a model, one is trained on the labeled entries given')
        PX, P, lab = rec.preds[-1]
        rows = {i: k for k, x in enumerate(PX) for i in range(n) if np.array_equal(X[i], x)}
        insts = sorted({e[0] for e in U})
        c.eq(sorted(rows), insts, 'audi:candidates', 'instances scored are not those with unlabeled entries')
        if not (np.isfinite(P).all()):
            break
        full = [i for i in {e[0] for e in L} if sum((i, j) in set(L) for j in range(nl)) == nl]
        avg = np.mean([(y[i] == 1).sum() for i in full])
        un = {i: [j for j in range(nl) if (i, j) in set(U)] for i in insts}
        score = {i: abs((lab[rows[i]] == 1).sum() - avg) / max(len(un[i]), eps or .5) for i in insts}
        best = max(score.values())
        c.check(score[gi] >= best - 1e-9, 'audi:instance-beaten', '', got=gi, score=score, unlabeled=U)
        dis = {j: abs(P[rows[gi], j] - P[rows[gi], -1]) for j in un[gi]}
        c.check(dis[gl] <= min(dis.values()) + 1e-9, 'audi:label-beaten', '', got=(gi, gl), distance=dis)
        c.event('audi_selected')
        if len({round(v, 9) for v in score.values()}) > 1 or len({round(v, 9) for v in dis.values()}) > 1:
            strict += 1
            c.event('strict_choice')
        L, U = another(c, n, 0 if how == 'untrained' else .5 if how == 'own' else .2, *advance(L, U, (gi, gl) if r.random() < .7 else r.choice(U)))
    c.covered((n, nl, how, c.i), strict > 0)


@R.family('auro', 300, 3000, 'AURO: most unlabeled labels, then the top ranked label against the one closest to the threshold')
def auro(c):
    r = c.rng
    n, nl, X, y, L, U = setup_rank(c)
    s = QueryTypeAURO(X, y)
    how, m = model_for(c, X, y, L, nl)
    rel = np.where((y == 1) & (c.nr.rand(*y.shape) < .3), .5, y)       # with "less relevant" labels
    strict = 0
    for _ in range(3 if how == 'own' else 12):
        cnt = {i: sum((i, j) in set(U) for j in range(nl)) for i in range(n)}
        if max(cnt.values()) < 2:
            break
        own_y = how == 'own' and r.random() < .5
        with Recorder() as rec:
            gi, a, b = [int(v) for v in s.select(give(c, L, n, nl), give(c, U, n, nl), model=m, **(dict(y_mat=rel) if own_y else {}))]
        if how in ('own', 'untrained'):
            trained_on(c, rec, X, rel if own_y else y, L, 'auro')
            c.check(rec.fits or how != 'own', 'auro:not-trained', 'without a model, one is trained on the labeled entries given')
        c.check({(gi, a), (gi, b)} <= set(U) and a != b, 'auro:not-unlabeled', '', got=(gi, a, b))
        c.eq(cnt[gi], max(cnt.values()), 'auro:instance-beaten', 'an instance with more unlabeled labels exists', got=gi, counts=cnt)
        PX, P, lab = rec.preds[-1]
        row = [k for k, x in enumerate(PX) if np.array_equal(X[gi], x)]
        c.eq(len(row), 1, 'auro:candidates')
        p = P[row[0]]
        if not np.isfinite(p).all():
            break
        un = [j for j in range(nl) if (gi, j) in set(U)]
        c.check(p[a] >= max(p[j] for j in un) - 1e-9, 'auro:first-label-beaten', '', got=(gi, a, b), scores=p, unlabeled=un)
        dis = {j: abs(p[j] - p[-1]) for j in un if j != a}
        c.check(dis[b] <= min(dis.values()) + 1e-9, 'auro:second-label-beaten', '', got=(gi, a, b), scores=p, distance=dis)
        c.event('auro_selected')
        if len(un) > 2:
            strict += 1
            c.event('strict_choice')
        if r.random() < .6:
            L, U = advance(L, U, (gi, a))
        if r.random() < .5 and (gi, b) in U:
            L, U = advance(L, U, (gi, b))
        L, U = another(c, n, 0 if how == 'untrained' else .5 if how == 'own' else .2, L, U)
    c.covered((n, nl, how, c.i), strict > 0)


# ------------------------------------------------------------------ MMC and Adaptive: binary relevance
def scaled(enc, v):
    return enc[1] if v else enc[0]


def prob(clf, X, y, Z):
    """P(label = 1) of a fresh copy of clf trained on (X, y in {0, 1})"""
    if len(np.unique(y)) == 1:
        return np.full(len(Z), float(y[0]))
    m = copy.deepcopy(clf).fit(X, y)
    return m.predict_proba(Z)[:, list(m.classes_).index(1)]


def margin(clf, X, y, Z):
    """real-valued outputs in [-1, 1] for a label of one class, the decision value otherwise"""
    if len(np.unique(y)) == 1:
        return np.full(len(Z), 1. if y[0] else -1.)
    return copy.deepcopy(clf).fit(X, y).decision_function(Z)


def whole_forms(c, W, n, nl):
    f = c.rng.choice(['list', 'array', 'collection', 'entries'])
    if f == 'entries':
        return MultiLabelIndexCollection([(i, j) for i in W for j in range(nl)], label_size=nl)
    return list(W) if f == 'list' else np.array(W) if f == 'array' else IndexCollection(list(W))


def split_instances(c, n):
    ids = c.rng.sample(range(n), n)
    k = c.rng.randint(3, n - 3)
    return sorted(ids[:k]), sorted(ids[k:])


@R.family('mmc', 260, 2500, 'MMC: the instance with the largest expected loss reduction under the predicted number of labels')
def mmc(c):
    r = c.rng
    n, nl = r.randint(7, 14), r.randint(2, 4)
    enc = r.choice([(0, 1), (-1, 1)])
    X, t = data(c, n, nl, (0, 1))
    y = np.where(t == 1, enc[1], enc[0])
    c.event('encoding:%d%d' % enc)
    W, V = split_instances(c, n)
    base = r.choice([LogisticRegression(solver='liblinear'), LogisticRegression(solver='liblinear', C=.1), GaussianNB()])
    s = QueryMultiLabelMMC(X, y, base_clf=copy.deepcopy(base), random_state=r.choice([None, 0, 5]))
    strict = 0
    for _ in range(4):
        b = r.choice([1, 1, 2, 3])
        if len(V) <= b:
            break
        T = np.column_stack([prob(base, X[W], t[W, j], X[W]) for j in range(nl)])
        P = np.column_stack([prob(base, X[W], t[W, j], X[V]) for j in range(nl)])
        if not (np.isfinite(T).all() and np.isfinite(P).all()):
            break                     # the base learner gives no probabilities (naive Bayes on constant features)
        keys = s.select(whole_forms(c, W, n, nl), whole_forms(c, V, n, nl), batch_size=b)
        got = [int(k[0]) for k in keys]
        c.check(len(got) == b and len(set(got)) == b and set(got) <= set(V), 'mmc:not-unlabeled', '', got=got, V=V, batch=b)
        num = t[W].sum(axis=1)
        if (T.sum(axis=1) == 0).any() or (P.sum(axis=1) == 0).any():
            break                     # the normalised probabilities are undefined
        desc = lambda M: np.sort(M, axis=1)[:, ::-1] / np.fmax(M.sum(axis=1, keepdims=True), 1e-300)
        if len(set(num)) == 1:
            k = [[num[0]]] * len(V)
        else:
            lr = LogisticRegression(multi_class='multinomial', solver='newton-cg').fit(desc(T), num)
            q = lr.predict_proba(desc(P))
            k = [[m for m, v in zip(lr.classes_, row) if v >= row.max() - 1e-3] for row in q]     # ties: either number
        low, score = {}, {}
        for p, i, kk in zip(P, V, k):
            w = []
            for m in kk:
                top = sorted(range(nl), key=lambda j: -p[j])[:int(m)]       # ties give the same value
                w.append(sum((1 - (1 if j in top else -1) * (2 * p[j] - 1)) / 2 for j in range(nl)))
            low[i], score[i] = min(w), max(w)
        best = max(v for i, v in low.items() if i not in got)
        c.check(min(score[i] for i in got) >= best - 1e-6, 'mmc:beaten', '', got=got, score=score, numbers=dict(zip(V, k)), encoding=enc, P=P, T=T,
                num=num)
        c.event('mmc_selected')
        c.event('batches', b > 1)
        if max(low.values()) - min(score.values()) > 1e-6:
            strict += 1
            c.event('strict_choice')
        if r.random() < .3:           # same sizes, another fold
            W, V = [sorted(v) for v in another(c, n, 1, W, V)]
        else:
            W, V = sorted(W + got), [v for v in V if v not in got]
    c.covered((n, nl, enc, c.i), strict > 0)


@R.family('adaptive', 260, 2500, 'Adaptive: best candidate of the uncertainty / cardinality trade-offs by approximated error')
def adaptive(c):
    r = c.rng
    n, nl = r.randint(7, 12), r.randint(2, 4)
    enc = r.choice([(0, 1), (-1, 1)])
    X, t = data(c, n, nl, (0, 1))
    y = np.where(t == 1, enc[1], enc[0])
    c.event('encoding:%d%d' % enc)
    W, V = split_instances(c, n)
    base = r.choice([LogisticRegression(solver='liblinear'), SVC(kernel='linear')])
    betas = r.choice([None, None, [0.], [1.], [0., .5, 1.]])
    s = QueryMultiLabelAdaptive(X, y, base_clf=copy.deepcopy(base), betas=betas)
    bs = betas or [i / 10. for i in range(11)]
    strict = 0
    for _ in range(3):
        b = r.choice([1, 1, 2, 3])
        if len(V) <= b:
            break
        keys = s.select(whole_forms(c, W, n, nl), whole_forms(c, V, n, nl), batch_size=b)
        batch = [int(k[0]) for k in keys]
        c.check(len(batch) == b and len(set(batch)) == b and set(batch) <= set(V), 'adaptive:not-unlabeled', '', got=batch, V=V, batch=b)
        c.event('batches', b > 1)
        ok = True
        for got in batch:           # one after the other, all of them before any of their labels is known
            if len(V) > 1 and ok:
                v = adaptive_choice(c, X, t, W, V, enc, base, bs, got)
                ok = v is not None
                strict += bool(v)
            V = [w for w in V if w != got]
        if not ok:
            break
        if r.random() < .35:           # same sizes, another fold
            V = V + batch
            W, V = [sorted(v) for v in another(c, n, 1, W, V)]
        else:
            W = sorted(W + batch)
    c.covered((n, nl, enc, betas, c.i), strict > 0)


def adaptive_choice(c, X, t, W, V, enc, base, bs, got):
    nl = t.shape[1]
    F = np.column_stack([margin(base, X[W], t[W, j], X[V]) for j in range(nl)])
    if np.abs(F).min() < 1e-9:
        return None
    pred = (F > 0).astype(int)
    unc = []
    for f in F:
        sep = (min(f[f > 0]) if (f > 0).any() else np.inf) - (max(f[f < 0]) if (f < 0).any() else -np.inf)
        unc.append(1. / sep)
    lc = np.abs(pred.sum(axis=1) - t[W].sum(axis=1).mean())
    if enc == (-1, 1):
        lc = lc * 2               # the same order at every trade-off
    unc = np.array(unc)
    cand, close_call = set(), False
    for b in bs:
        sc = unc ** b * lc ** (1. - b)
        near = np.where(sc >= sc.max() - 1e-9 * max(1., sc.max()))[0]
        exact = np.where(sc == sc.max())[0]
        close_call |= len(near) != len(exact) or len(near) > 1
        cand |= set(near)
    err = {}
    for k in cand:
        G = []
        for j in range(nl):
            yj = np.append(t[W, j], pred[k, j])
            G.append(margin(base, np.vstack((X[W], X[V][k:k + 1])), yj, X[V]))
        G = np.column_stack(G)
        err[V[k]] = sum(max([0.] + [1. - v for v in g if v >= 0]) + max([0.] + [1. + v for v in g if v <= 0]) for g in G)
    c.check(got in err, 'adaptive:not-a-candidate', 'the selected instance is best under no trade-off', got=got, candidates=sorted(err))
    if not close_call:
        c.check(err[got] <= min(err.values()) + 1e-4 * max(1., min(err.values())), 'adaptive:beaten', '', got=got, error=err)
    c.event('adaptive_selected')
    if len(err) > 1 and max(err.values()) - min(err.values()) > 1e-6 or len(cand) < len(V):
        c.event('strict_choice')
        return 1
    return 0


@R.family('encoding', 120, 1200, 'MMC and Adaptive choose the same instances whether irrelevant labels are written 0 or -1')
def encoding(c):
    r = c.rng
    n, nl = r.randint(7, 12), r.randint(2, 4)
    X, t = data(c, n, nl, (0, 1))
    W, V = split_instances(c, n)
    which = r.choice(['mmc', 'adaptive'])
    kw = {}
    if which == 'adaptive':           # where both encodings compute the same floating-point scores
        W, V = W[:4], V + W[4:]
        if len(W) < 4:
            W, V = (W + V)[:4], (W + V)[4:]
        kw = dict(betas=[r.choice([0., 1.])])
    b = 1 if kw else r.randint(1, 2)
    out = []
    for enc in ((0, 1), (-1, 1)):
        y = np.where(t == 1, enc[1], enc[0])
        base = LogisticRegression(solver='liblinear')
        s = (QueryMultiLabelMMC if which == 'mmc' else QueryMultiLabelAdaptive)(X, y, base_clf=base, random_state=4, **kw)
        out.append([int(k[0]) for k in s.select(list(W), list(V), batch_size=b)])
    c.eq(out[0], out[1], which + ':encoding', 'the choice depends on how irrelevant labels are written', W=W, V=V, y=t)
    c.event('same_under_encoding')
    c.covered((n, nl, which, b, c.i), len(V) > b)


# ------------------------------------------------------------------ the ranking model itself
@R.family('ranking_model', 80, 800, 'LabelRankingModel: prediction form and purity, refits, and learning of a separable problem')
def ranking_model(c):
    r, nr = c.rng, c.nr
    n, nl, d = r.randint(4, 12), r.randint(1, 4), r.randint(1, 4)
    X = nr.randn(n, d)
    y = np.where(nr.rand(n, nl) < .5, 1, -1)
    X0, y0 = X.copy(), y.copy()
    rep = r.randint(1, 3)
    m = LabelRankingModel(X, y, n_repeat=rep) if r.random() < .5 else LabelRankingModel()
    if not m._init_flag:
        m.fit(X, y, n_repeat=rep)
    Z = nr.randn(r.randint(1, 6), d)
    Z0 = Z.copy()
    P, lab = m.predict(Z)
    c.eq((np.shape(P), np.shape(lab)), ((len(Z), nl + 1), (len(Z), nl)), 'model:shape')
    c.check(np.array_equal(lab, np.where(P[:, :-1] > P[:, -1:], 1, -1)), 'model:labels', 'a label is relevant iff it is ranked above the threshold', P=P, lab=lab)
    P2, lab2 = m.predict(Z)
    c.check(np.array_equal(P, P2) and np.array_equal(lab, lab2), 'model:predict-changes-model')
    one = np.vstack([m.predict(z[None])[0] for z in Z])
    c.close(one, P, 'model:row-dependence', 'the score of an instance depends on the others')
    c.check(np.array_equal(X, X0) and np.array_equal(y, y0) and np.array_equal(Z, Z0), 'model:modified-data')
    c.event('predictions_checked')
    # a fit that is not incremental starts from the initial model, whatever was fitted in between
    a, b = copy.deepcopy(m), copy.deepcopy(m)
    y1, y2 = np.where(nr.rand(n, nl) < .5, 1, -1), np.where(nr.rand(n, nl) < .5, 1, -1)
    a.fit(X, y1, n_repeat=rep)
    st = r.randrange(10 ** 6)
    np.random.seed(st)
    a.fit(X, y2, n_repeat=rep)
    np.random.seed(st)
    b.fit(X, y2, n_repeat=rep)
    c.close(a.predict(Z)[0], b.predict(Z)[0], 'model:refit-remembers', 'a non-incremental fit depends on an earlier fit')
    c.event('refit_compared')
    c.covered((n, nl, d, rep, c.i), True)


@R.family('learning', 24, 200, 'LabelRankingModel learns a linearly separable multi-label problem')
def learning(c):
    r, nr = c.rng, c.nr
    n, nl, d = 40, r.randint(2, 3), r.randint(2, 3)
    w = nr.randn(d, nl)
    X = nr.randn(n * 4, d)
    X = X / np.linalg.norm(X, axis=1, keepdims=True)
    X = X[np.abs(X @ w).min(axis=1) > .15 * np.abs(w).mean()][:n]
    y = np.where(X @ w > 0, 1, -1)
    m = LabelRankingModel(X, y, n_repeat=10)
    P, lab = m.predict(X)
    pairs = bad = 0
    for p, t in zip(P, y):
        for a in np.where(t == 1)[0]:
            for b in np.where(t == -1)[0]:
                pairs += 1
                bad += p[a] <= p[b]
    c.note('ranking loss', bad, pairs, 'label accuracy', (lab == y).mean())
    if pairs:
        c.check(bad <= .25 * pairs, 'model:does-not-rank', 'relevant labels are not ranked above irrelevant ones on the training data', bad=bad, pairs=pairs)
    if len(X) >= 20:
        c.check((lab == y).mean() >= .7, 'model:does-not-separate', 'predicted label sets are far from the training labels', accuracy=(lab == y).mean())
        c.event('learned')
    c.covered((nl, d, len(X), c.i), pairs > 0)
