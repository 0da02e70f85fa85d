"""C05: saved splits load back identically."""
import os

import numpy as np

from alipy.data_manipulate.al_split import split, split_features, split_multi_label, split_load, split_save
from rv.core import Registry

R = Registry('C05', 'Sequences of splits (single-label, named, multi-label, feature; 1..6 folds) saved into the same fresh folder '
                    'and loaded after each save. Non-trivial: the folder already held another split.',
             require=('saved:single', 'saved:multi', 'saved:features', 'saved:named', 'saved:ragged', 'one_fold', 'overwritten'))


def norm(x):
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (tuple, list, np.ndarray)):
        return tuple(norm(i) for i in x)
    return x


def lists(res):
    return [[[norm(k) for k in fold] for fold in part] for part in res]


def one(c, path):
    r = c.rng
    n = r.choice([3, 4, 6, 10, 15] + [130] * (r.random() < .2))
    k = r.choice([1, 1, 2, 3, 6, 11])
    t = r.choice([0.2, 0.3, 0.5])
    rate = r.choice([0.1, 0.3, 0.6])
    kind = r.choice(['single', 'single', 'multi', 'features', 'named', 'ragged', 'intnames'])
    if kind in ('single', 'ragged'):
        res = split(X=c.nr.randn(n, 2), test_ratio=t, initial_label_rate=rate, split_count=k, saving_path=path if kind == 'single' else None)
        if kind == 'ragged':
            res = [[list(fold)[:r.randint(1, len(fold))] if len(fold) else [] for fold in part] for part in res]
            split_save(*res, path=path)
    elif kind == 'intnames':
        b, a = r.choice([(100, 3), (100, 3), (1, 10 ** 12), (1, 2 ** 31 - 2), (-7, 5)])
        names = [b * i + a for i in range(n)]
        res = split(instance_indexes=names, test_ratio=t, initial_label_rate=rate, split_count=k, saving_path=path)
    elif kind == 'named':
        f = r.choice(['img %d.png', 'img %d.png', '%d', '%d,\n#', '\u00e9-%d', '%d.0'])
        names = [f % i for i in range(n)]
        res = split(instance_indexes=names, test_ratio=t, initial_label_rate=rate, split_count=k, saving_path=path)
    elif kind == 'multi':
        res = split_multi_label(label_shape=(n, 3), test_ratio=t, initial_label_rate=rate, split_count=k, all_class=False, saving_path=path)
    else:
        res = split_features(feature_matrix_shape=(n, r.choice([1, 2, 4])), test_ratio=t, missing_rate=rate, split_count=k, all_features=False, saving_path=path)
    c.event('saved:' + kind)
    if k == 1:
        c.event('one_fold')
    return kind, k, n, res


@R.family('roundtrip', 700, 15000, 'up to 4 saves into one folder, each loaded and compared')
def roundtrip(c):
    path = os.path.join(c.scratch(), 'splits')
    os.mkdir(path)
    hist = []
    c.check(all(x is None for x in split_load(path)), 'empty', 'loading an empty folder invents a split')
    for s in range(c.rng.randint(1, 4)):
        kind, k, n, res = one(c, path)
        want = lists(res)
        c.note('save', kind, k, n, want)
        hist.append((kind, k, n))
        if s:
            c.event('overwritten')
        for again in range(2):
            got = split_load(path)
            c.check(len(got) == 4 and all(x is not None for x in got), 'lost', 'a saved part cannot be loaded', got=got, history=hist)
            for name, g, w in zip(('train', 'test', 'labeled', 'unlabeled'), got, want):
                c.eq([[norm(x) for x in fold] for fold in g], w, 'content-' + name, 'loaded %s lists differ' % name, history=hist)
            if kind in ('single', 'ragged', 'intnames'):
                c.check(all(isinstance(x, (int, np.integer)) for part in got for fold in part for x in fold), 'index-type', 'loaded indexes are not integers', history=hist)
            if kind in ('multi', 'features'):
                c.check(all(isinstance(x, tuple) for part in got[2:] for fold in part for x in fold), 'key-form', 'loaded keys are not tuples', history=hist)
    c.covered(hist, len(hist) > 1)


@R.family('errors', 20, 200, 'no saving without a path; bad paths rejected')
def errors(c):
    path = os.path.join(c.scratch(), 'd')
    os.mkdir(path)
    os.chdir(path)
    res = split(X=c.nr.randn(6, 2), split_count=2, saving_path=None)
    c.eq(os.listdir(path), [], 'saved-anyway', 'files written although saving is disabled')
    c.raises(TypeError, lambda: split_save(*res, path=3), 'badpath', 'non-string path accepted')
    c.raises(Exception, lambda: split_save(*res, path=os.path.join(path, 'none')), 'badpath', 'missing folder accepted')
    c.raises(Exception, lambda: split_load(os.path.join(path, 'none')), 'badpath', 'missing folder accepted')
    c.raises(TypeError, lambda: split_load(3), 'badpath', 'non-string path accepted')
    res = split(X=c.nr.randn(6, 2), split_count=2)     # default: current folder
    got = split_load('.')
    c.eq([[[norm(x) for x in f] for f in p] for p in got], lists(res), 'default-path', 'split saved to the default folder does not load back')
    c.covered(c.seed)
