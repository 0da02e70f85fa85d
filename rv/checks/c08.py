"""C08: multi-label strategies select distinct unlabeled pairs of the requested kind."""
import numpy as np
from sklearn.linear_model import LogisticRegression
from sklearn.svm import SVC

from alipy.index.index_collections import IndexCollection, MultiLabelIndexCollection
from alipy.query_strategy.multi_label import (LabelRankingModel, QueryMultiLabelAdaptive, QueryMultiLabelAUDI, QueryMultiLabelMMC,
                                              QueryMultiLabelQUIRE, QueryMultiLabelRandom)
from alipy.query_strategy.query_type import QueryTypeAURO
from rv.core import Registry

R = Registry('C08', 'Multi-label query loops over generated data and partially or fully labeled starts, moving what is selected from the '
                    'unlabeled to the labeled collection until the pool is exhausted; every returned key is expanded into the entries it '
                    'denotes and compared with the entries unlabeled at that moment, every caller-owned object with its snapshot. '
                    'Non-trivial: at least two selections strictly inside the pool.',
             require=('reach', 'selections', 'exhausted', 'pair_keys', 'instance_keys', 'as_collection', 'as_tuples', 'as_onedim', 'as_instances',
                      'broken_instances', 'batch_over_pool', 'moved', 'auro', 'trained_model', 'constant_cardinality', 'last_selection'))


def setup(c, n=None, nl=None, enc=(-1, 1)):
    r, nr = c.rng, c.nr
    n, nl = n or r.randint(4, 10), nl or r.randint(2, 4)
    d = r.randint(1, 4)
    X = nr.randn(n, d)
    kind = r.choice(['normal', 'normal', 'dup', 'wide'])
    if kind == 'dup':
        X = X[nr.randint(0, max(2, n // 2), n)]
    if kind == 'wide':
        X = X * 30
    y = np.where(nr.rand(n, nl) < r.choice([.3, .5, .7]), enc[1], enc[0])
    if r.random() < .15:       # the same number of labels everywhere
        k = r.randint(1, nl - 1) if nl > 1 else 1
        y = np.full((n, nl), enc[0])
        for i in range(n):
            y[i, r.sample(range(nl), k)] = enc[1]
        c.event('constant_cardinality')
    return X, y, n, nl


def start(c, n, nl, whole):
    """(labeled, unlabeled) entry sets; at least one fully labeled instance."""
    r = c.rng
    ins = r.sample(range(n), n)
    k = r.randint(2, max(2, n // 2))
    L = [(i, j) for i in ins[:k] for j in range(nl)]
    U = [(i, j) for i in ins[k:] for j in range(nl)]
    if not whole and U:
        mv = r.sample(U, r.randint(1, max(1, len(U) // 3)))
        L, U = L + mv, [e for e in U if e not in mv]
        c.event('broken_instances')
    r.shuffle(L)
    r.shuffle(U)
    return L, U


def give(c, E, n, nl, forms):
    """entries as one of the documented argument forms"""
    f = c.rng.choice(forms)
    c.event('as_' + f)
    if f == 'collection':
        return MultiLabelIndexCollection(list(E), label_size=nl)
    if f == 'tuples':
        return list(E)
    ids = [i + j * n for i, j in E]
    return np.array(ids) if c.rng.random() < .5 else ids


def snap(v):
    if isinstance(v, np.ndarray):
        return v.tobytes()
    return [k for k in v]


def entries(c, key, nl, mech):
    """the entries a key denotes"""
    c.check(isinstance(key, tuple) and len(key) in (1, 2), mech + ':malformed-key', 'a key is a tuple (instance,) or (instance, label)', key=key)
    c.check(all(isinstance(v, (int, np.integer)) for v in key), mech + ':malformed-key', '', key=key)
    i = int(key[0])
    return [(i, j) for j in range(nl)] if len(key) == 1 else [(i, int(key[1]))]


def judge(c, keys, U, n, nl, kind, want, mech):
    """keys: selection; kind 'ins' or 'pair'; want: how many keys"""
    keys = [k for k in keys]
    got = []
    for k in keys:
        e = entries(c, k, nl, mech)
        c.check(len(k) == (1 if kind == 'ins' else 2) or (kind == 'ins' and nl == 1), mech + ':wrong-kind', '', key=k, kind=kind)
        got += e
    c.eq(len(keys), want, mech + ':count', '', keys=keys, U=U)
    c.eq(len(set(got)), len(got), mech + ':repeated-entry', '', keys=keys)
    c.check(set(got) <= set(U), mech + ':not-unlabeled', '', keys=keys, U=sorted(U))
    c.event('selections')
    c.event('instance_keys' if kind == 'ins' else 'pair_keys', len(keys))
    return got


def whole(U, nl):
    return sorted(i for i in {e[0] for e in U} if all((i, j) in set(U) for j in range(nl)))


def drive(c, mech, X, y, L, U, n, nl, kind, select, forms, batches=True, rounds=40):
    """select(label, unlabel, batch)"""
    r = c.rng
    lab, unl = MultiLabelIndexCollection(list(L), label_size=nl), MultiLabelIndexCollection(list(U), label_size=nl)
    everything = set(L) | set(U)
    L, U = set(L), set(U)
    Xs, ys = X.tobytes(), y.tobytes()
    strict = 0
    for rnd in range(rounds):
        avail = len(whole(U, nl)) if kind == 'ins' else len(U)
        b = r.choice([1, 1, 2, 3, avail, avail + 2, max(1, avail - 1)]) or 1 if batches else 1
        own = r.random() < .5 or 'collection' not in forms
        f = [t for t in forms]
        a = give(c, sorted(L, key=lambda t: r.random()), n, nl, f) if own else lab
        u = give(c, sorted(U, key=lambda t: r.random()), n, nl, f) if own else unl
        c.note('round', rnd, 'unlabeled', sorted(U), 'batch', b, type(u).__name__)
        before = [snap(v) for v in (a, u, lab, unl)]
        keys = select(a, u, b)
        c.check([snap(v) for v in (a, u, lab, unl)] == before, mech + ':modified-collection', '', before=before, after=[snap(v) for v in (a, u)])
        c.check(X.tobytes() == Xs and y.tobytes() == ys, mech + ':modified-data')
        want = min(b, avail)
        if b > avail:
            c.event('batch_over_pool')
        if kind == 'pair' and want == len(U) and U:
            c.event('last_selection')
        got = judge(c, keys, U, n, nl, kind, want, mech)
        strict += len(got) < len(U)
        if not want:
            c.event('exhausted')
            break
        # the user's own step, in either order
        keys = list(keys) if r.random() < .5 else keys
        if r.random() < .5:
            unl.difference_update(keys)
            lab.update(keys)
        else:
            lab.update(keys)
            unl.difference_update(keys)
        c.event('moved')
        L, U = L | set(got), U - set(got)
        gl, gu = {tuple(int(v) for v in e) for e in lab}, {tuple(int(v) for v in e) for e in unl}
        c.eq((gl, gu), (L, U), mech + ':moved-wrongly', 'labeled / unlabeled after moving the selection', keys=keys)
        c.check(not gl & gu and gl | gu == everything, mech + ':not-conserved')
    return strict


PAIRS = ['collection', 'collection', 'tuples', 'onedim']


@R.family('random', 1000, 6000, 'random instances and random pairs')
def rand(c):
    r = c.rng
    X, y, n, nl = setup(c)
    L, U = start(c, n, nl, r.random() < .4)
    s = QueryMultiLabelRandom(X, y)
    kind = r.choice(['ins', 'pair'])
    kw = dict(select_type='ins') if kind == 'ins' else r.choice([{}, dict(select_type='ins-lab')])
    st = drive(c, 'random', X, y, L, U, n, nl, kind, lambda a, u, b: s.select(a, u, batch_size=b, **kw), PAIRS)
    c.raises((ValueError,), lambda: s.select(L, U, select_type='lab'), 'random:unknown-kind-accepted')
    c.covered((n, nl, kind, len(U), c.i), st > 1)


@R.family('quire', 320, 2500, 'multi-label QUIRE')
def quire(c):
    r = c.rng
    X, y, n, nl = setup(c)
    L, U = start(c, n, nl, r.random() < .4)
    s = QueryMultiLabelQUIRE(X, y, **r.choice([{}, {'lambda': .4}, {'kernel': 'poly'}, {'kernel': 'linear'}, {'gamma': .2}]))
    st = drive(c, 'quire', X, y, L, U, n, nl, 'pair', lambda a, u, b: s.select(a, u), PAIRS, batches=False)
    c.covered((n, nl, len(U), c.i), st > 1)


@R.family('audi', 160, 800, 'AUDI, with a model of its own, a given one, and one not trained yet')
def audi(c):
    r = c.rng
    X, y, n, nl = setup(c, n=r.randint(4, 7), nl=r.randint(2, 3))
    L, U = start(c, n, nl, r.random() < .4)
    s = QueryMultiLabelAUDI(X, y)
    how = r.choice(['own', 'trained', 'trained', 'untrained'])
    if how == 'trained':
        w = sorted({e[0] for e in L})
        m = LabelRankingModel(X[w], y[w], n_repeat=1)
        c.event('trained_model')
    else:
        m = LabelRankingModel() if how == 'untrained' else None
    kw = r.choice([{}, dict(epsilon=.1)])
    st = drive(c, 'audi', X, y, L, U, n, nl, 'pair', lambda a, u, b: s.select(a, u, model=m, **kw), PAIRS, batches=False, rounds=2 if how == 'own' else 30)
    c.covered((n, nl, len(U), how, c.i), st > 1)


@R.family('auro', 160, 800, 'AURO: an unlabeled instance and two different unlabeled labels of it')
def auro(c):
    r, nr = c.rng, c.nr
    X, y, n, nl = setup(c, n=r.randint(4, 7), nl=r.randint(2, 4))
    L, U = start(c, n, nl, r.random() < .4)
    s = QueryTypeAURO(X, y)
    w = sorted({e[0] for e in L})
    m = LabelRankingModel(X[w], y[w], n_repeat=1) if r.random() < .8 else None
    strict = 0
    L, U = set(L), set(U)
    for _ in range(30 if m else 2):
        if not any(sum((i, j) in U for j in range(nl)) > 1 for i in range(n)):
            c.event('exhausted')
            break
        a, u = give(c, sorted(L), n, nl, PAIRS), give(c, sorted(U), n, nl, PAIRS)
        before = [snap(v) for v in (a, u, X, y)]
        i, p, q = s.select(a, u, model=m, **r.choice([{}, dict(y_mat=y.copy())]))
        c.check([snap(v) for v in (a, u, X, y)] == before, 'auro:modified-argument')
        c.check(p != q, 'auro:same-label-twice', '', got=(i, p, q))
        c.check({(int(i), int(p)), (int(i), int(q))} <= U, 'auro:not-unlabeled', '', got=(i, p, q), U=sorted(U))
        c.event('selections')
        c.event('auro')
        strict += 1
        mv = {(int(i), int(p)), (int(i), int(q))} if r.random() < .6 else {(int(i), int(p))}
        L, U = L | mv, U - mv
    c.covered((n, nl, len(U), c.i), strict > 1)


def instance_forms(c, L, U, n, nl):
    """for the strategies on whole instances: the fully (un)labeled instances as a plain list, array or IndexCollection"""
    f = c.rng.choice(['list', 'array', 'collection'])
    c.event('as_instances')
    wl, wu = whole(L, nl), whole(U, nl)
    if f == 'collection':
        return IndexCollection(wl), IndexCollection(wu)
    return (wl, wu) if f == 'list' else (np.array(wl), np.array(wu))


def instances(c, mech, s, X, y, n, nl):
    r = c.rng
    L, U = start(c, n, nl, r.random() < .6)

    def select(a, u, b):
        if r.random() < .5:
            wl, wu = instance_forms(c, set(map(tuple, map(lambda e: (int(e[0]), int(e[1])), a))), {(int(e[0]), int(e[1])) for e in u}, n, nl)
            before = snap(wl), snap(wu)
            keys = s.select(wl, wu, batch_size=b)
            c.check((snap(wl), snap(wu)) == before, mech + ':modified-collection', '', before=before, after=(snap(wl), snap(wu)))
            return keys
        return s.select(a, u, batch_size=b)
    return drive(c, mech, X, y, L, U, n, nl, 'ins', select, ['collection'], rounds=6)


@R.family('mmc', 240, 1500, 'MMC')
def mmc(c):
    r = c.rng
    X, y, n, nl = setup(c, n=r.randint(6, 12), enc=r.choice([(0, 1), (0, 1), (-1, 1)]))
    s = QueryMultiLabelMMC(X, y, **r.choice([{}, dict(base_clf=LogisticRegression(solver='liblinear')), dict(random_state=3),
                                             dict(base_clf=SVC(kernel='rbf', gamma='scale', probability=True))]))
    st = instances(c, 'mmc', s, X, y, n, nl)
    c.covered((n, nl, c.i), st > 1)


@R.family('adaptive', 240, 1500, 'Adaptive')
def adaptive(c):
    r = c.rng
    X, y, n, nl = setup(c, n=r.randint(6, 12), enc=r.choice([(0, 1), (0, 1), (-1, 1)]))
    s = QueryMultiLabelAdaptive(X, y, **r.choice([{}, dict(base_clf=SVC(kernel='linear')), dict(betas=[0., .5, 1.]), dict(random_state=3)]))
    st = instances(c, 'adaptive', s, X, y, n, nl)
    c.covered((n, nl, c.i), st > 1)


@R.family('random_reach', 16, 100, 'over many random selections from one pool every candidate occurs (a miss has chance < 1e-20)')
def random_reach(c):
    r = c.rng
    n, nl = 8, r.randint(2, 3)
    U = r.sample([(i, j) for i in range(n) for j in range(nl)], r.randint(2, 7))
    whole = r.random() < .5
    if whole:
        U = [(i, j) for i in r.sample(range(n), r.randint(2, 5)) for j in range(nl)]
    L = [(i, j) for i in range(n) for j in range(nl) if (i, j) not in U]
    q = QueryMultiLabelRandom(np.zeros((n, 2)), np.ones((n, nl), int))
    cand = {(i,) for i, _ in U} if whole else set(U)
    b = r.choice([1, 1, len(cand) - 1])
    lab, unl = MultiLabelIndexCollection(list(L), label_size=nl), MultiLabelIndexCollection(list(U), label_size=nl)
    seen = set()
    for _ in range(60 * len(cand)):
        seen |= {tuple(int(x) for x in v) for v in q.select(lab, unl, batch_size=max(1, b), select_type='ins' if whole else 'ins-lab')}
    c.eq(seen, cand, 'random:never-selected', 'some candidate is never selected', batch=b, whole=whole)
    c.event('reach')
    c.covered((n, nl, whole, b, c.i), True)
