"""C02: MultiLabelIndexCollection / FeatureIndexCollection against a reference set of pairs."""
import copy
import warnings

import numpy as np

from alipy.index.index_collections import MultiLabelIndexCollection, FeatureIndexCollection
from alipy.utils.ace_warnings import RepeatElementWarning, InexistentElementWarning
from rv.core import Registry

R = Registry('C02', 'Random histories of whole-instance, pair and multi-pair keys on the real collections next to a '
                    'reference set of (instance, label) pairs; after every operation all encodings (pairs, instance lists, 1-d '
                    'positions in both orders, dense/weighted/sparse masks) are decoded and compared. Non-trivial: both held '
                    'and absent pairs exist at the end.',
             require=('key:whole', 'key:pair', 'key:multi', 'mask:sparse', 'mask:dense', 'roundtrip:1d', 'roundtrip:mask',
                      'rejections_observed', 'full_instances', 'partial_instances', 'copied_when_emptied'))

FORMATS = ['bsr_matrix', 'coo_matrix', 'csc_matrix', 'csr_matrix', 'dia_matrix', 'dok_matrix', 'lil_matrix']


def ip(t):
    return (int(t[0]), int(t[1]))


def rand_key(c, n, L, numpy_ok=True):
    r = c.rng
    i = r.randrange(n)
    kind = r.choice(['whole', 'pair', 'pair', 'multi', 'multi'])
    c.event('key:' + kind)
    conv = (lambda v: np.int64(v)) if (numpy_ok and r.random() < .25) else (lambda v: v)
    if kind == 'whole':
        return (conv(i),), {(i, l) for l in range(L)}
    if kind == 'pair':
        l = r.randrange(L)
        return (conv(i), conv(l)), {(i, l)}
    ls = r.sample(range(L), r.randint(1, L))
    seq = tuple(conv(l) for l in ls)
    return (conv(i), seq), {(i, l) for l in ls}


def hashable_multi(c, key):
    """Multi-pair keys may carry a list when they come inside a list."""
    if len(key) == 2 and isinstance(key[1], tuple) and c.rng.random() < .4:
        return (key[0], list(key[1]))
    return key


def rand_keys(c, n, L, k):
    keys, pairs = [], set()
    for _ in range(k):
        key, p = rand_key(c, n, L)
        keys.append(hashable_multi(c, key))
        pairs |= p
    return keys, pairs


def observe(c, col, model, n, L, what, full=True, final=False):
    if not c.look(final):
        return
    c.event('observations')
    got = [ip(t) if isinstance(t, tuple) and len(t) == 2 and not isinstance(t[1], (tuple, list)) else t for t in col.index]
    c.check(len(got) == len(set(got)) and set(got) == model, 'content', 'held pairs differ from the reference after %s' % what,
            got=sorted(got, key=str), want=sorted(model))
    c.eq(len(col), len(model), 'len', 'length differs after %s' % what)
    c.check({ip(t) for t in col} == model, 'iteration', 'iteration differs after %s' % what)
    k = (c.rng.randrange(n), c.rng.randrange(L))
    c.eq(k in col, k in model, 'membership', 'membership of a pair differs', pair=k)
    if not full:
        return
    inst = sorted({i for i, _ in model})
    c.eq([int(x) for x in col.get_instance_index()], inst, 'instances', 'instance list differs')
    fullrows = sorted(i for i in inst if sum((i, l) in model for l in range(L)) == L)
    part = sorted(set(inst) - set(fullrows))
    c.eq(sorted(int(x) for x in col.get_unbroken_instances()), fullrows, 'unbroken', 'fully covered instances differ', model=sorted(model), L=L)
    c.eq(sorted(int(x) for x in col.get_break_instances()), part, 'broken', 'partially covered instances differ', model=sorted(model), L=L)
    c.event('full_instances', len(fullrows))
    c.event('partial_instances', len(part))
    c.eq(sorted(int(x) for x in col.get_onedim_index()), sorted(i * L + l for i, l in model), 'onedim-C', 'row-major positions differ')
    rows = n + c.rng.choice([0, 0, 1, 3])
    c.eq(sorted(int(x) for x in col.get_onedim_index(order='F', ins_num=rows)), sorted(i + l * rows for i, l in model), 'onedim-F', 'column-major positions differ')
    want = np.zeros((rows, L))
    for i, l in model:
        want[i, l] = 1
    m = col.get_matrix_mask((rows, L), sparse=False)
    c.check(isinstance(m, np.ndarray) and m.shape == want.shape and np.array_equal(m.astype(float), want), 'mask-dense', 'dense mask differs', got=m)
    pos = np.arange(rows * L).reshape(rows, L)
    c.eq(sorted(int(v) for v in pos[m]), sorted(i * L + l for i, l in model), 'mask-selects', 'indexing a matrix by the boolean mask selects other entries', got=m)
    fv = c.rng.choice([2, 0.5, -1, 7, True, 1])
    m = col.get_matrix_mask((rows, L), fill_value=fv, sparse=False)
    c.check(np.array_equal(np.asarray(m, dtype=float), want * float(fv)), 'mask-fill', 'dense mask with a fill value differs', fill=fv, got=m)
    c.event('mask:dense')
    fmt = c.rng.choice(FORMATS)
    fv = c.rng.choice([1, 1, 2, 0.5])
    m = col.get_matrix_mask((rows, L), fill_value=fv, sparse=True, sparse_format=fmt)
    c.check(m.shape == want.shape and np.array_equal(np.asarray(m.todense(), dtype=float), want * fv), 'mask-sparse', 'sparse mask differs', fmt=fmt, got=m.todense(), want=want * fv)
    c.eq(m.getformat() + '_matrix', fmt, 'mask-format', 'sparse mask has another format')
    c.event('mask:sparse')
    m = col.get_matrix_mask((rows, L))
    c.check(np.array_equal(np.asarray(m.todense(), dtype=float), want), 'mask-default', 'default mask differs', got=m.todense())
    # round trips
    if model:
        cls = c.rng.choice([MultiLabelIndexCollection, FeatureIndexCollection])
        order = c.rng.choice('CF')
        one = col.get_onedim_index(order=order, ins_num=rows)
        arr = one if c.rng.random() < .5 else np.array(one)
        back = cls.construct_by_1d_array(arr, label_mat_shape=(rows, L), order=order)
        c.eq({ip(t) for t in back.index}, model, 'roundtrip-1d', 'rebuilding from 1-d positions gives another set', order=order, shape=(rows, L))
        if order == 'F':
            back = cls.construct_by_1d_array(arr, label_mat_shape=(rows, L))
            c.eq({ip(t) for t in back.index}, model, 'roundtrip-1d', 'default order is not column-major', shape=(rows, L))
        c.event('roundtrip:1d')
        same_range(c, back, model, L)
    dense = want.astype(c.rng.choice([int, bool, float]))
    back = c.rng.choice([MultiLabelIndexCollection, FeatureIndexCollection]).construct_by_element_mask(
        dense if c.rng.random() < .6 else dense.tolist())
    c.eq({ip(t) for t in back.index}, model, 'roundtrip-mask', 'rebuilding from the element mask gives another set')
    same_range(c, back, model, L)
    c.event('roundtrip:mask')


def same_range(c, col, model, L):
    """A rebuilt collection still knows the label range: a whole-instance key covers L labels."""
    col.update([(0,)])
    c.eq({ip(t) for t in col.index}, set(model) | {(0, l) for l in range(L)}, 'label-range', 'label range lost', L=L)


@R.family('history', 1600, 50000, 'up to 16 random operations with mixed key shapes, plain and feature collections')
def history(c):
    r = c.rng
    n, L = r.randint(1, 6), r.randint(1, 5)
    cls = r.choice([MultiLabelIndexCollection, MultiLabelIndexCollection, FeatureIndexCollection])
    kw = 'label_size' if cls is MultiLabelIndexCollection else 'feature_size'
    keys, model = rand_keys(c, n, L, r.choice([0, 1, 2, 3, 5]))
    src = list(keys)
    if src and r.random() < .2:
        src = r.choice([np.array(src + [None], dtype=object)[:-1]])
    if len(keys) == 1 and r.random() < .5 and all(not isinstance(x, list) for x in keys[0]):
        src = [keys[0]]
    c.note('init', cls.__name__, n, L, keys)
    col = cls(src, **{kw: L})
    if isinstance(src, list):
        src.append((0, 0))
    observe(c, col, model, n, L, 'construction')
    ops = []
    for step in range(r.randint(2, 16)):
        op = r.choice(['add', 'add', 'discard', 'discard', 'remove', 'update', 'update', 'update1', 'difference_update',
                       'difference_update', 'difference_update1', 'copy', 'oob', 'self', 'collection', 'clear', 'wrongtype'])
        ops.append(op)
        if op == 'add':
            key, p = rand_key(c, n, L)
            c.note('add', key)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                c.check(col.add(key) is col, 'returns-self', 'add does not return the collection')
            if len(p) == 1:
                c.eq(any(issubclass(x.category, RepeatElementWarning) for x in w), p <= model, 'add-warning', 'repeat warning iff present', key=key)
            model |= p
        elif op in ('discard', 'remove'):
            key, p = rand_key(c, n, L)
            c.note(op, key)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                getattr(col, op)(key)
            if len(p) == 1:
                c.eq(any(issubclass(x.category, InexistentElementWarning) for x in w), not (p <= model), 'discard-warning', 'absent warning iff absent', key=key)
            model -= p
        elif op in ('update', 'difference_update'):
            keys, p = rand_keys(c, n, L, r.choice([0, 1, 2, 4]))
            c.note(op, keys)
            if not keys:
                continue
            arg = keys
            c.check(getattr(col, op)(arg) is col, 'returns-self', op + ' does not return the collection')
            model = model | p if op == 'update' else model - p
        elif op in ('update1', 'difference_update1'):
            key, p = rand_key(c, n, L)
            c.note(op, key)
            getattr(col, op[:-1])(key)
            model = model | p if op == 'update1' else model - p
        elif op == 'collection':
            keys, p = rand_keys(c, n, L, r.choice([1, 2, 4]))
            other = MultiLabelIndexCollection(keys, label_size=L)
            o0 = set(other.index)
            which = r.choice(['update', 'difference_update'])
            c.note(which, 'collection', keys)
            getattr(col, which)(other)
            model = model | p if which == 'update' else model - p
            c.eq(set(other.index), o0, 'argument-changed', 'the argument collection was changed')
        elif op == 'self':
            if r.random() < .5:
                col.update(col)
            else:
                col.difference_update(col)
                model = set()
        elif op == 'clear':
            if r.random() < .7:
                continue
            col.clear()
            model = set()
        elif op == 'copy':
            cp = cls(col)
            observe(c, cp, set(model), n, L, 'copying')
            key, p = rand_key(c, n, L)
            cp.update([key])
            observe(c, cp, model | p, n, L, 'updating a copy')
            key, q = rand_key(c, n, L)
            cp.difference_update([key])
            observe(c, cp, (model | p) - q, n, L, 'subtracting from a copy')
            lst = col.index
            lst.append((0, 0))
            if r.random() < .4:     # the rest of the history happens to a copy
                col = cls(col) if r.random() < .7 else copy.deepcopy(col)
                c.event('went_on_with_a_copy')
                c.event('copied_when_emptied', not model)
        elif op == 'oob':
            i = r.randrange(n)
            bad = r.choice([(i, L), (i, L + 3), (i, -1), (i, (0, L)), (i, 0, 0)])
            how = r.choice(['add', 'update'])
            c.note(how, 'out of range', bad)
            if how == 'add' or isinstance(bad[1], tuple) is False and len(bad) == 2:
                f = (lambda: col.add(bad)) if how == 'add' else (lambda: col.update([bad]))
                c.raises((ValueError, AssertionError), f, 'out-of-range', 'an entry outside the label range was accepted', key=bad, L=L)
        elif op == 'wrongtype':
            c.raises((AssertionError, TypeError), lambda: col.add([0, 0]), 'wrongtype', 'a non-tuple key was accepted')
            c.raises((AssertionError, TypeError), lambda: col.update(3), 'wrongtype', 'a non-tuple key was accepted')
        c.event('operations')
        observe(c, col, set(model), n, L, op, full=r.random() < .6)
    observe(c, col, set(model), n, L, 'the history', final=True)
    c.covered((cls.__name__, n, L, ops, sorted(model)), 0 < len(model) < n * L)


@R.family('infer', 400, 8000, 'construction without an explicit label count')
def infer(c):
    r = c.rng
    n, L = r.randint(1, 6), r.randint(1, 6)
    keys, pairs = [], set()
    for _ in range(r.randint(1, 6)):
        i = r.randrange(n)
        if r.random() < .5:
            l = r.randrange(L)
            keys.append((i, l))
            pairs.add((i, l))
        else:
            ls = r.sample(range(L), r.randint(1, L))
            keys.append((i, tuple(ls)))
            pairs |= {(i, l) for l in ls}
    size = max(l for _, l in pairs) + 1
    if r.random() < .5:
        i = r.randrange(n)
        keys.insert(r.randrange(len(keys) + 1), (i,))
        pairs |= {(i, l) for l in range(size)}
    c.note('keys', keys)
    col = r.choice([MultiLabelIndexCollection, FeatureIndexCollection])(keys)
    observe(c, col, pairs, n, size, 'construction with inferred label count')
    c.raises((Exception,), lambda: MultiLabelIndexCollection([(0,), (1,)]), 'infer-whole', 'label count inferred from whole-instance keys only')
    c.covered(keys, len(keys) > 1)


@R.family('small', 1, 1, 'every subset of the entries of all matrices up to 2x3/3x2 through every encoding (exhaustive)')
def small(c):
    for n, L in ((1, 1), (1, 3), (2, 2), (3, 1), (2, 3), (3, 2)):
        cells = [(i, l) for i in range(n) for l in range(L)]
        for mask in range(2 ** len(cells)):
            model = {p for k, p in enumerate(cells) if mask >> k & 1}
            col = MultiLabelIndexCollection(sorted(model), label_size=L)
            observe(c, col, model, n, L, 'construction', final=True)
            c.covered((n, L, mask), 0 < len(model) < n * L)
