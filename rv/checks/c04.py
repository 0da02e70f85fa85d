"""C04: splits are partitions with the requested sizes and class coverage."""
import numpy as np

from alipy.data_manipulate.al_split import split, split_features, split_multi_label
from rv.core import Registry

R = Registry('C04', 'Random shapes, ratios, flags, label codings and instance names; every fold is checked for partition, sizes '
                    'and coverage. Small tight configurations force the redraw paths. Non-trivial: both parts of both divisions '
                    'are non-empty.',
             require=('single', 'single_all_class', 'named', 'named_all_class', 'multi', 'multi_all_class', 'features', 'features_all',
                      'rejections_observed', 'tight', 'label_never_positive', 'defaults', 'tight_features', 'tight_multi'))

EPS = 1e-6


def near(x, y):
    return abs(x - y) <= 0.5 + EPS


def plain(seq):
    return [x.item() if isinstance(x, np.generic) else x for x in seq]


def pair(t):
    return tuple(int(v) for v in t)


def folds_ok(c, res, count, n, universe, t, what):
    tr, te, la, un = res
    c.check(len(tr) == len(te) == len(la) == len(un) == count, 'fold-count', 'wrong number of folds', want=count, got=(len(tr), len(te), len(la), len(un)))
    for f in range(count):
        a, b = plain(tr[f]), plain(te[f])
        c.check(len(set(a)) == len(a) and len(set(b)) == len(b), 'dup', 'an instance occurs twice in train or test', fold=f, train=a, test=b)
        c.check(not set(a) & set(b), 'train-test-overlap', 'train and test overlap', fold=f, train=a, test=b)
        c.check(set(a) | set(b) == universe, 'train-test-cover', 'train and test do not cover the data', fold=f, missing=universe - set(a) - set(b), extra=(set(a) | set(b)) - universe)
        c.check(near(len(a), (1 - t) * n), 'train-size', 'training size does not follow the ratio', n=n, test_ratio=t, got=len(a))
        c.event('folds')
    if count >= 4 and n >= 12 and 2 <= len(te[0]) <= n - 2:
        c.check(len({tuple(plain(x)) for x in tr}) > 1, 'not-random', 'all folds are the same split')


def rng_names(c, n):
    k = c.rng.choice(['str', 'shifted', 'shuffled', 'big', 'array'])
    if k == 'str':
        names = ['img_%03d.png' % i for i in range(n)]
    elif k == 'shifted':
        names = [i + n * 3 for i in range(n)]
    elif k == 'shuffled':
        names = list(range(n))
        c.rng.shuffle(names)
    elif k == 'big':
        names = [1000 * i + 7 for i in range(n)]
    else:
        names = np.array([2 * i for i in range(n)])
    return names


@R.family('single', 1500, 40000, 'split() with and without all_class, labels 1-d/2-d, named instances')
def single(c):
    r = c.rng
    n = r.choice([2, 3, 5, 8, 12, 20, 37, 50])
    t = r.choice([0.1, 0.2, 0.25, 0.3, 0.5, r.uniform(0.05, 0.8)])
    rate = r.choice([0.01, 0.05, 0.1, 0.3, 0.5, 0.8, 1.0, r.uniform(0.01, 1)])
    count = r.choice([1, 2, 5])
    all_class = r.random() < .5
    ntr = (1 - t) * n
    if ntr < 1:
        c.skip()
    k = r.randint(1, 4)
    ydim = r.choice([None, 1, 1, 2])
    y = None
    if ydim == 1:
        lab = r.choice([[0, 1, 2, 3], [-1, 1, 5, 9], ['a', 'b', 'c', 'd'], [1, 2, 3, 4]])[:k]
        y = [lab[i % k] for i in range(n)] if r.random() < .5 else [lab[r.randrange(k)] for _ in range(n)]
        c.rng.shuffle(y)
        y = np.array(y)
    elif ydim == 2:
        coding = r.choice([0, -1])
        y = np.where(c.nr.rand(n, k) < .5, 1, coding)
        for j in range(k):
            y[r.randrange(n), j] = 1
        if k > 1 and r.random() < .2:
            y[:, r.randrange(k)] = coding
            c.event('label_never_positive')
    names = rng_names(c, n) if r.random() < .5 else None
    X = c.nr.randn(n, 2) if (y is None and names is None) or r.random() < .4 else None
    kw = dict(X=X, y=y, instance_indexes=names, test_ratio=t, initial_label_rate=rate, split_count=count, all_class=all_class, saving_path=None)
    if r.random() < .3:
        kw['query_type'] = 'AllLabels'
    snap = (None if y is None else y.copy(), None if X is None else X.copy())
    c.note('split', {a: (b if a not in ('X', 'y') else (None if b is None else b.tolist())) for a, b in kw.items()})
    need = all_class and y is not None
    nclass = 0 if y is None else (len(np.unique(y)) if y.ndim == 1 else y.shape[1])
    if need:
        avail = rate * ntr
        if avail < nclass - 1 - EPS:
            c.raises(ValueError, lambda: split(**kw), 'tight-accepted', 'a rate too small for all classes was accepted', n=n, t=t, rate=rate, classes=nclass)
            c.covered(('reject', n, t, rate, nclass))
            return
        # exhaustion guard: rare classes make random redraw long; keep the expected number of redraws small
        size = round(rate * round(ntr))
        for j in range(nclass):
            m = int(np.sum(y == np.unique(y)[j])) if y.ndim == 1 else int(np.sum(y[:, j] > 0))
            if 0 < (size / n) * m < 0.35:
                c.skip()
        try:
            res = split(**kw)
        except ValueError:
            c.check(avail < nclass + 1, 'feasible-rejected', 'a feasible configuration was rejected', n=n, t=t, rate=rate, classes=nclass)
            c.event('rejections_observed')
            c.covered(('reject', n, t, rate, nclass))
            return
    else:
        res = split(**kw)
    universe = set(range(n)) if names is None else set(plain(list(names)))
    folds_ok(c, res, count, n, universe, t, 'single')
    tr, te, la, un = res
    pos = {v: i for i, v in enumerate(range(n) if names is None else plain(list(names)))}
    for f in range(count):
        a, l, u = plain(tr[f]), plain(la[f]), plain(un[f])
        c.check(len(set(l)) == len(l) and len(set(u)) == len(u), 'dup', 'an instance occurs twice in labeled or unlabeled')
        c.check(not set(l) & set(u), 'label-unlabel-overlap', 'labeled and unlabeled overlap', labeled=l, unlabeled=u)
        c.check(set(l) | set(u) == set(a), 'label-unlabel-cover', 'labeled and unlabeled do not cover the training set', train=a, labeled=l, unlabeled=u)
        want = max(1.0, rate * len(a))
        c.check(near(len(l), want) and len(l) >= 1, 'label-size', 'initial labeled size does not follow the rate', train=len(a), rate=rate, got=len(l))
        if need:
            ids = [pos[v] for v in l]
            if y.ndim == 1:
                c.eq(set(plain(y[ids])), set(plain(y)), 'all-class', 'a class is missing from the initial labeled set', labeled=l, y=y)
            else:
                c.check(np.array_equal((y[ids] > 0).any(axis=0), (y > 0).any(axis=0)), 'all-class', 'a label is missing from the initial labeled set', labeled=l, y=y)
            c.event('named_all_class' if names is not None else 'single_all_class')
    c.event('single')
    if names is not None:
        c.event('named')
    c.check((y is None or np.array_equal(y, snap[0])) and (X is None or np.array_equal(X, snap[1])), 'mutated', 'the given data were modified')
    c.covered((n, t, rate, count, all_class, ydim, names is not None), len(te[0]) > 0 and len(un[0]) > 0)


@R.family('multi', 900, 20000, 'split_multi_label() with 0/1 and -1/1 labels')
def multi(c):
    r = c.rng
    n = r.choice([4, 8, 12, 20, 40])
    L = r.choice([1, 2, 3, 5])
    t = r.choice([0.2, 0.3, 0.5])
    rate = r.choice([0.05, 0.1, 0.3, 0.5, 0.8, 1.0])
    count = r.choice([1, 3])
    all_class = r.random() < .6
    coding = r.choice([0, -1])
    y = np.where(c.nr.rand(n, L) < r.choice([.3, .5]), 1, coding)
    for j in range(L):
        for _ in range(max(1, n // 4)):
            y[r.randrange(n), j] = 1
    if L > 1 and r.random() < .15:
        y[:, r.randrange(L)] = coding
        c.event('label_never_positive')
    y0 = y.copy()
    kw = dict(test_ratio=t, initial_label_rate=rate, split_count=count, all_class=all_class, saving_path=None)
    how = r.choice(['y', 'both', 'shape'])
    if how != 'shape' or all_class:
        kw['y'] = y
    if how != 'y':
        kw['label_shape'] = y.shape
    c.note(how, n, L, t, rate, all_class, y.tolist())
    ntr = (1 - t) * n
    if all_class:
        if max(1, rate * ntr) < L - 1 - EPS:
            c.raises(ValueError, lambda: split_multi_label(**kw), 'tight-accepted', 'a rate too small for all classes was accepted', n=n, t=t, rate=rate, L=L)
            c.covered(('reject', n, t, rate, L))
            return
        size = max(1, round(rate * round(ntr)))
        if any(0 < (size / n) * int((y[:, j] > 0).sum()) < .35 for j in range(L)):
            c.skip()
        try:
            res = split_multi_label(**kw)
        except ValueError:
            c.check(rate * ntr < L + 1, 'feasible-rejected', 'a feasible configuration was rejected', n=n, t=t, rate=rate, L=L)
            c.covered(('reject', n, t, rate, L))
            return
    else:
        res = split_multi_label(**kw)
    folds_ok(c, res, count, n, set(range(n)), t, 'multi')
    tr, te, la, un = res
    for f in range(count):
        for key in list(la[f]) + list(un[f]):
            c.check(isinstance(key, tuple) and len(key) == 1, 'key-form', 'a fully labeled instance is not a whole-instance key', key=key)
        a, l, u = plain(tr[f]), [int(k[0]) for k in la[f]], [int(k[0]) for k in un[f]]
        c.check(len(set(l)) == len(l) and len(set(u)) == len(u) and not set(l) & set(u), 'label-unlabel-overlap', 'labeled and unlabeled overlap', labeled=l, unlabeled=u)
        c.check(set(l) | set(u) == set(a), 'label-unlabel-cover', 'labeled and unlabeled do not cover the training set')
        c.check(near(len(l), max(1.0, rate * len(a))), 'label-size', 'initial labeled size does not follow the rate', train=len(a), rate=rate, got=len(l))
        if all_class:
            c.check(np.array_equal((y[l] > 0).any(axis=0), (y > 0).any(axis=0)), 'all-class', 'a label has no positive instance in the initial labeled set', labeled=l, y=y)
            c.event('multi_all_class')
    c.check(np.array_equal(y, y0), 'mutated', 'the given labels were modified')
    c.event('multi')
    c.covered((n, L, t, rate, all_class, how), len(un[0]) > 0 and len(te[0]) > 0)


@R.family('features', 900, 20000, 'split_features() at random missing rates; small shapes force redraws')
def features(c):
    r = c.rng
    n = r.choice([3, 4, 6, 10, 20, 30])
    d = r.choice([1, 2, 3, 4, 7])
    t = r.choice([0.1, 0.3, 0.5])
    miss = r.choice([0.1, 0.3, 0.5, 0.6, 0.75, 0.9, r.uniform(0, .95)])
    count = r.choice([1, 3])
    allf = r.random() < .6
    X = c.nr.randn(n, d)
    X0 = X.copy()
    kw = dict(test_ratio=t, missing_rate=miss, split_count=count, all_features=allf, saving_path=None)
    how = r.choice(['X', 'both', 'shape'])
    if how != 'shape':
        kw['feature_matrix'] = X
    if how != 'X':
        kw['feature_matrix_shape'] = X.shape
    rate = 1 - miss
    ntr = round((1 - t) * n)
    c.note(how, n, d, t, miss, allf)
    if allf and rate * ntr < d - 1 - EPS:
        c.raises(ValueError, lambda: split_features(**kw), 'tight-accepted', 'a rate too small for all features was accepted', n=n, t=t, miss=miss, d=d)
        c.covered(('reject', n, d, t, miss))
        return
    try:
        res = split_features(**kw)
    except ValueError:
        c.check(allf and rate * ntr < d + 1, 'feasible-rejected', 'a feasible configuration was rejected', n=n, t=t, miss=miss, d=d)
        c.covered(('reject', n, d, t, miss))
        return
    folds_ok(c, res, count, n, set(range(n)), t, 'features')
    tr, te, la, un = res
    for f in range(count):
        a = plain(tr[f])
        l, u = [pair(k) for k in la[f]], [pair(k) for k in un[f]]
        cells = {(i, j) for i in a for j in range(d)}
        c.check(len(set(l)) == len(l) and len(set(u)) == len(u) and not set(l) & set(u), 'label-unlabel-overlap', 'known and missing entries overlap')
        c.check(set(l) | set(u) == cells, 'label-unlabel-cover', 'known and missing entries do not cover the training entries', missing=cells - set(l) - set(u), extra=(set(l) | set(u)) - cells)
        c.check(near(len(l), rate * len(a) * d), 'label-size', 'number of known entries does not follow the rate', train=len(a), d=d, rate=rate, got=len(l))
        if allf:
            c.eq({j for _, j in l}, set(range(d)), 'all-features', 'a feature is known nowhere', known=sorted(l))
            if len(l) <= 2.2 * d:
                c.event('tight')
            c.event('features_all')
        c.check(all(isinstance(k, tuple) for k in la[f]), 'key-form', 'an entry is not a tuple')
    c.check(np.array_equal(X, X0), 'mutated', 'the given features were modified')
    c.event('features')
    c.covered((n, d, t, miss, allf, how), len(l) > 0 and len(u) > 0)


@R.family('tight', 300, 4000, 'rates at the rounding boundary of the feasibility test: reject or cover, never loop')
def tight(c):
    r = c.rng
    k = r.randint(2, 4)
    n = r.randint(3 * k, 6 * k)
    t = r.choice([0.25, 0.3, 0.4, r.uniform(.1, .5)])
    ntr = round((1 - t) * n)
    rate = min(1.0, (k + r.choice([-.5, -.4, 0, .3, .5, -0.5001, .4999])) / r.choice([ntr, (1 - t) * n]))
    y = np.array([i % k for i in range(n)])
    c.note('tight', n, k, t, rate)
    try:
        tr, te, la, un = split(y=y, test_ratio=t, initial_label_rate=rate, split_count=1, all_class=True, saving_path=None)
    except ValueError:
        c.check(rate * (1 - t) * n < k + 1, 'feasible-rejected', 'a feasible configuration was rejected')
        c.event('rejections_observed')
    else:
        c.eq(set(plain(y[la[0]])), set(range(k)), 'all-class', 'a class is missing from the initial labeled set')
        c.event('tight')
    c.covered((n, k, t, rate))


@R.family('tight_matrix', 400, 6000, 'multi-label and feature splits at the smallest feasible rate, where most draws have to be repeated')
def tight_matrix(c):
    r = c.rng
    k = r.randint(2, 4)
    t = r.choice([0.2, 0.3, 0.5])
    if r.random() < .5:
        n = r.randint(3 * k, 8 * k)
        X = c.nr.randn(n, k)
        ntr = int(round((1 - t) * n))
        rate = (k + r.choice([-.4, 0, .2])) / ntr
        c.note('features', n, k, t, rate)
        count = r.randint(1, 3)
        try:
            res = split_features(feature_matrix=X, test_ratio=t, missing_rate=1 - rate, split_count=count, all_features=True, saving_path=None)
        except ValueError:
            c.check(rate * ntr < k + 1, 'feasible-rejected')
            c.covered(('reject', n, k, t, rate))
            return
        folds_ok(c, res, count, n, set(range(n)), t, 'features')
        for f in range(count):
            l, u = [pair(v) for v in res[2][f]], [pair(v) for v in res[3][f]]
            cells = {(i, j) for i in plain(res[0][f]) for j in range(k)}
            c.check(set(l) | set(u) == cells and not set(l) & set(u) and len(l) + len(u) == len(cells), 'label-unlabel-cover', 'known and missing entries are not a partition of the training entries', labeled=l, unlabeled=u)
            c.eq({j for _, j in l}, set(range(k)), 'all-features', 'a feature is known nowhere', known=l)
            c.check(near(len(l), rate * ntr * k), 'label-size', '', got=len(l), rate=rate, train=ntr, d=k)
        c.event('tight_features')
    else:
        n = r.randint(4 * k, 8 * k)
        y = np.where(c.nr.rand(n, k) < .5, 1, r.choice([0, -1]))
        for j in range(k):
            y[j, j] = 1
        ntr = int(round((1 - t) * n))
        rate = (k + r.choice([-.4, 0, .2])) / ntr
        c.note('multi', n, k, t, rate, y.tolist())
        count = r.randint(1, 3)
        if any(int((y[:, j] > 0).sum()) * k / n < .35 for j in range(k)):
            c.skip()
        try:
            res = split_multi_label(y=y, test_ratio=t, initial_label_rate=rate, split_count=count, all_class=True, saving_path=None)
        except ValueError:
            c.check(rate * ntr < k + 1, 'feasible-rejected')
            c.covered(('reject', n, k, t, rate))
            return
        folds_ok(c, res, count, n, set(range(n)), t, 'multi')
        for f in range(count):
            l, u = [int(v[0]) for v in res[2][f]], [int(v[0]) for v in res[3][f]]
            c.check(sorted(l + u) == sorted(plain(res[0][f])), 'label-unlabel-cover', 'labeled and unlabeled are not a partition of the training set', labeled=l, unlabeled=u)
            c.check((y[l] > 0).any(axis=0).all(), 'all-class', 'a label has no positive instance in the initial labeled set', labeled=l, y=y)
            c.check(near(len(l), max(1, rate * ntr)), 'label-size', '', got=len(l), rate=rate, train=ntr)
        c.event('tight_multi')
    c.covered((n, k, t, rate, c.i))


@R.family('defaults', 40, 400, 'the documented default ratios and number of splits')
def defaults(c):
    r = c.rng
    n, k = r.randint(90, 160), r.randint(2, 3)
    X = c.nr.randn(n, k)
    y = np.array([i % k for i in range(n)])
    Y = np.where(c.nr.rand(n, k) < .6, 1, 0)
    full = round(.05 * round(.7 * n))
    for what, res, per, size in (
            ('split', split(X=X, y=y, saving_path=None), 1, .05), ('named', split(instance_indexes=['n%d' % i for i in range(n)], saving_path=None), 1, .05),
            ('multi', split_multi_label(y=Y, saving_path=None) if full >= k else None, 1, .05),
            ('features', split_features(feature_matrix=X, saving_path=None), k, .5)):
        if res is None:
            continue
        u = set(range(n)) if what != 'named' else {'n%d' % i for i in range(n)}
        folds_ok(c, res, 10, n, u, .3, what)
        for f in range(10):
            c.check(near(len(res[2][f]), size * len(res[0][f]) * per), 'default-label-size', 'the initial labeled part does not have the documented default size', what=what, n=n, got=len(res[2][f]))
            c.eq(len(res[2][f]) + len(res[3][f]), len(res[0][f]) * per, 'label-unlabel-cover', '', what=what)
    c.event('defaults')
    c.covered((n, k))


@R.family('reject', 60, 600, 'inconsistent lengths and missing data are rejected')
def reject(c):
    r = c.rng
    n = r.randint(3, 10)
    X, y = c.nr.randn(n, 2), np.arange(n) % 2
    c.raises(Exception, lambda: split(saving_path=None), 'no-data', 'a split of nothing was accepted')
    c.raises(ValueError, lambda: split(X=X, y=np.append(y, 1), saving_path=None), 'len-mismatch', 'different lengths accepted')
    c.raises(ValueError, lambda: split(X=X, instance_indexes=list(range(n + 1)), saving_path=None), 'len-mismatch', 'different lengths accepted')
    c.raises(NotImplementedError, lambda: split(X=X, query_type='Relations', saving_path=None), 'query-type', 'unsupported query type accepted')
    c.raises(Exception, lambda: split_multi_label(saving_path=None), 'no-data', 'a split of nothing was accepted')
    c.raises(Exception, lambda: split_features(saving_path=None), 'no-data', 'a split of nothing was accepted')
    c.covered(n)
