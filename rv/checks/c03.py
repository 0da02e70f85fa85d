"""C03: multi-label index tools against the set of pairs the index denotes."""
import copy

import numpy as np

from alipy.index.index_collections import MultiLabelIndexCollection, FeatureIndexCollection
from alipy.index.multi_label_tools import (check_index_multilabel, infer_label_size_multilabel, flattern_multilabel_index,
                                           integrate_multilabel_index, get_labelmatrix_in_multilabel, get_Xy_in_multilabel)
from rv.core import Registry

R = Registry('C03', 'Random indexes mixing (i,), (i,j), (i,(j,..)), (i,[j,..]) keys with repetitions, as lists, single '
                    'tuples, object arrays and collections, evaluated by all tools next to a direct expansion. Non-trivial: a '
                    'repeated instance or a mixture of key shapes.',
             require=('tool:flatten', 'tool:integrate', 'tool:labelmatrix', 'tool:Xy', 'tool:infer', 'rejections_observed'))


def gen(c, n, L, k, whole=True):
    r = c.rng
    keys, seq = [], []          # seq: pairs in order
    for _ in range(k):
        i = r.randrange(n)
        kind = r.choice((['whole'] if whole else []) + ['pair', 'pair', 'multi'])
        if kind == 'whole':
            keys.append((i,))
            seq += [(i, l) for l in range(L)]
        elif kind == 'pair':
            l = r.randrange(L)
            keys.append((i, np.int64(l) if r.random() < .2 else l))
            seq.append((i, l))
        else:
            ls = [r.randrange(L) for _ in range(r.randint(1, L + 1))]
            if r.random() < .7:
                ls = list(dict.fromkeys(ls))
            t = r.choice([tuple, list, np.array])(ls)
            keys.append((i, t))
            seq += [(i, l) for l in ls]
    return keys, seq


def forms(c, keys, L):
    f = c.rng.choice(['list', 'list', 'objarray', 'collection', 'feature', 'tuple'])
    if f == 'objarray':
        a = np.empty(len(keys), dtype=object)
        for j, k in enumerate(keys):
            a[j] = k
        return f, a
    if f == 'collection':
        return f, MultiLabelIndexCollection([k if len(k) == 1 else (k[0], k[1] if np.isscalar(k[1]) else list(k[1])) for k in keys], label_size=L)
    if f == 'feature':
        return f, FeatureIndexCollection([k if len(k) == 1 else (k[0], k[1] if np.isscalar(k[1]) else list(k[1])) for k in keys], feature_size=L)
    if f == 'tuple' and len(keys) == 1:
        return f, keys[0]
    return 'list', list(keys)


def ip(t):
    return (int(t[0]), int(t[1]))


def expand(keys, L):
    out = []
    for k in keys:
        if len(k) == 1:
            out += [(int(k[0]), l) for l in range(L)]
        elif np.isscalar(k[1]):
            out.append(ip(k))
        else:
            out += [(int(k[0]), int(l)) for l in k[1]]
    return out


@R.family('expand', 2500, 80000, 'flatten / integrate / infer')
def expand_family(c):
    r = c.rng
    n, L = r.randint(1, 6), r.randint(1, 6)
    keys, seq = gen(c, n, L, r.randint(1, 7))
    form, arg = forms(c, keys, L)
    c.note(form, keys, 'L=%d' % L)
    snapshot = repr(keys)
    flat = flattern_multilabel_index(arg, L)
    c.event('tool:flatten')
    c.check(all(isinstance(t, tuple) and len(t) == 2 and np.isscalar(t[1]) for t in flat), 'flatten-shape', 'flattened keys are not pairs', flat=flat)
    want = set(seq)
    c.eq(set(map(ip, flat)), want, 'flatten', 'flattened pairs differ', keys=keys, L=L)
    if form in ('list', 'objarray', 'tuple'):
        c.eq(list(map(ip, flat)), seq, 'flatten-order', 'flattening lost order or multiplicity', keys=keys, L=L)
    integ = integrate_multilabel_index(arg, label_size=L)
    c.event('tool:integrate')
    c.eq(len({int(t[0]) for t in integ}), len(integ), 'integrate-dup', 'an instance appears twice', integ=integ)
    got = {}
    for t in integ:
        c.check(isinstance(t, tuple) and len(t) in (1, 2), 'integrate-shape', 'malformed integrated key', key=t)
        if len(t) == 1:
            got[int(t[0])] = set(range(L))
        else:
            ls = [int(x) for x in t[1]]
            c.check(len(ls) == len(set(ls)) and 0 < len(ls) < L, 'integrate-full', 'a complete or repeated row is not a bare instance key', key=t, L=L)
            got[int(t[0])] = set(ls)
    ref = {}
    for i, l in seq:
        ref.setdefault(i, set()).add(l)
    c.eq(got, ref, 'integrate', 'integrated index denotes other pairs', keys=keys, L=L)
    if form in ('list', 'objarray'):
        c.eq([int(t[0]) for t in integ], list(dict.fromkeys(i for i, _ in seq)), 'integrate-order', 'instances not in first-mention order')
    # inverse to each other as sets
    c.eq(set(map(ip, flattern_multilabel_index(integ, L))), want, 'roundtrip', 'flatten(integrate(x)) differs from x', keys=keys, L=L)
    again = integrate_multilabel_index(flat, label_size=L)
    c.eq({int(t[0]): (frozenset(range(L)) if len(t) == 1 else frozenset(map(int, t[1]))) for t in again}, {k: frozenset(v) for k, v in ref.items()},
         'roundtrip', 'integrate(flatten(x)) differs from x', keys=keys, L=L)
    # inference
    mentioned = [l for k in keys if len(k) == 2 for l in ([k[1]] if np.isscalar(k[1]) else list(k[1]))]
    listform = list(keys)
    if mentioned:
        size = int(max(mentioned)) + 1
        c.eq(int(infer_label_size_multilabel(listform)), size, 'infer', 'inferred label count is not one more than the largest label', keys=keys)
        c.event('tool:infer')
        c.eq(set(map(ip, flattern_multilabel_index(listform))), set(expand(listform, size)), 'flatten-infer', 'flattening with inferred count differs', keys=keys)
        got = set()
        for t in integrate_multilabel_index(listform):
            got |= {(int(t[0]), l) for l in (range(size) if len(t) == 1 else map(int, t[1]))}
        c.eq(got, set(expand(listform, size)), 'integrate-infer', 'integrating with inferred count differs', keys=keys)
    else:
        c.raises(Exception, lambda: infer_label_size_multilabel(listform), 'infer-whole', 'label count inferred from whole-instance keys')
    c.eq(repr(keys), snapshot, 'mutated', 'the given index was modified')
    c.covered((form, keys, L), len({len(k) for k in keys}) > 1 or len(ref) < len(keys))


@R.family('retrieve', 2000, 60000, 'get_labelmatrix / get_Xy on random matrices')
def retrieve(c):
    r = c.rng
    n, L = r.randint(1, 8), r.randint(1, 6)
    if n == 1 and r.random() < .5:
        n = 2
    d = r.randint(1, 4)
    Y = c.nr.randint(-9, 9, size=(n, L)) if r.random() < .5 else c.nr.randn(n, L)
    X = c.nr.randn(n, d)
    keys, seq = gen(c, n, L, r.randint(1, 8))
    form, arg = forms(c, keys, L)
    unk = r.choice([0, -1, 0.5, 99, -7.25])
    c.note(form, keys, 'unknown', unk)
    order = list(dict.fromkeys(i for i, _ in seq)) if form not in ('collection', 'feature') else None
    Y0, X0 = Y.copy(), X.copy()
    kw = dict(unknown_element=unk) if unk != 0 or r.random() < .5 else {}
    yarg = Y.tolist() if r.random() < .2 else Y
    M, idx = get_labelmatrix_in_multilabel(arg, yarg, **kw)
    c.event('tool:labelmatrix')
    idx = [int(i) for i in idx]
    if order is not None:
        c.eq(idx, order, 'row-order', 'rows are not in first-mention order', keys=keys)
    c.eq(sorted(idx), sorted({i for i, _ in seq}), 'rows', 'not one row per mentioned instance', keys=keys)
    want = np.full((len(idx), L), float(unk))
    known = set(seq)
    for a, i in enumerate(idx):
        for l in range(L):
            if (i, l) in known:
                want[a, l] = Y0[i, l]
    c.close(M, want, 'labels', 'retrieved labels differ', tol=0, keys=keys, Y=Y0, unknown=unk)
    Xs, M2, idx2 = get_Xy_in_multilabel(arg, X.tolist() if r.random() < .2 else X, yarg, **kw)
    c.event('tool:Xy')
    c.eq([int(i) for i in idx2], idx, 'Xy-rows', 'instance order differs between the two retrievals')
    c.close(M2, want, 'Xy-labels', 'labels retrieved with the features differ', tol=0)
    c.close(Xs, X0[idx], 'Xy-features', 'features do not belong to the rows', tol=0)
    M[...] = 12345
    M2[...] = 12345
    Xs[...] = 12345
    c.check(np.array_equal(Y, Y0) and np.array_equal(X, X0), 'source-changed', 'the source matrices are modified or shared')
    if r.random() < .2:
        c.raises((ValueError, AssertionError, TypeError), lambda: get_Xy_in_multilabel(arg, np.vstack([X, X]), Y), 'len-mismatch', 'X and y of different length accepted')
        c.raises((ValueError, AssertionError, IndexError), lambda: get_labelmatrix_in_multilabel([(n, 0)], Y), 'oob-instance', 'out-of-range instance accepted', n=n)
        c.raises((ValueError, AssertionError, IndexError), lambda: get_labelmatrix_in_multilabel([(0, L)], Y), 'oob-label', 'out-of-range label accepted', L=L)
        c.raises((ValueError, AssertionError, IndexError), lambda: get_labelmatrix_in_multilabel([(0, -1)], Y), 'oob-label', 'negative label accepted', L=L)
        c.raises(ValueError, lambda: get_labelmatrix_in_multilabel([(0, 0, 0)], Y), 'malformed', 'a three-part key was accepted')
    c.covered((form, keys, L, n), len(order or idx) < len(keys) or len({len(k) for k in keys}) > 1)


@R.family('reject', 200, 3000, 'malformed and out-of-range keys')
def reject(c):
    r = c.rng
    L = r.randint(1, 6)
    i = r.randint(0, 5)
    bad = r.choice([[(i, 0), [i, 0]], [[i, 0]], [i], ['a'], [(i, 0), i]])
    c.raises(TypeError, lambda: check_index_multilabel(bad), 'check', 'malformed index accepted', index=bad)
    c.raises(TypeError, lambda: flattern_multilabel_index(bad, L), 'check', 'malformed index accepted', index=bad)
    c.raises(TypeError, lambda: integrate_multilabel_index(bad, L), 'check', 'malformed index accepted', index=bad)
    good = [(i, 0), (i + 1,)]
    c.eq(check_index_multilabel(good), good, 'check-same', 'valid index altered')
    c.eq(check_index_multilabel((i, 0)), [(i, 0)], 'check-single', 'single key not wrapped')
    for l in (L, L + 2, -1):
        c.raises((AssertionError, ValueError), lambda: flattern_multilabel_index([(i, l)], L), 'oob', 'out-of-range label accepted', label=l, L=L)
        try:
            flat = flattern_multilabel_index([(i, (0, l))], L)
        except (AssertionError, ValueError):
            flat = []
        c.check(all(0 <= t[1] < L for t in flat), 'oob-multi', 'a label outside the range came out', flat=flat)
    for s in (0, -2):
        c.raises((AssertionError, ValueError), lambda: flattern_multilabel_index([(i, 0)], s), 'size', 'non-positive label count accepted')
        c.raises((AssertionError, ValueError), lambda: integrate_multilabel_index([(i, 0)], s), 'size', 'non-positive label count accepted')
    c.covered((L, i, repr(bad)))
