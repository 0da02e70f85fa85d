"""C01: IndexCollection against a reference ordered set, over random operation histories."""
import copy
import warnings

import numpy as np

from alipy.index.index_collections import IndexCollection, MultiLabelIndexCollection, map_whole_index_to_train
from alipy.utils.ace_warnings import RepeatElementWarning, InexistentElementWarning
from rv.core import Registry

R = Registry('C01', 'Random operation histories on the real collections next to a reference ordered set; after '
                    'every operation all observers (len, in, iteration, [], .index, type) are compared. Non-trivial: the '
                    'history changed the collection; distinct by operation sequence.',
             require=('op:add', 'op:discard', 'op:update', 'op:difference_update', 'op:remove', 'op:clear',
                      'op:self_alias', 'op:numpy_value', 'op:pop', 'rejections_observed', 'warned_repeat', 'warned_absent',
                      'sampled', 'mapped', 'large_histories', 'copied_when_emptied'))

POOLS = {
    'int': lambda r: [r.randint(-3, 12) for _ in range(14)],
    'str': lambda r: [r.choice(['a', 'b', 'cc', 'x1', 'Zed', 'q', '0', '10', '2', 'é']) for _ in range(14)],
    'float': lambda r: [r.choice([0.5, 1.5, -2.25, 3.0, 1e6, 0.1, 7.75]) for _ in range(14)],
    'tuple': lambda r: [(r.randint(0, 4), r.randint(0, 3)) for _ in range(14)],
}
FOREIGN = {'int': ['a', 1.5, (1, 2)], 'str': [1, 2.5, ('a', 'b')], 'float': [1, 'a', (1.0, 2.0)], 'tuple': [1, 'a', 0.5]}


def plain(x):
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, tuple):
        return tuple(plain(i) for i in x)
    return x


def npify(c, kind, v):
    if kind == 'int':
        c.event('op:numpy_value')
        return c.rng.choice([np.int64, np.int32, np.int16])(v)
    if kind == 'float':
        c.event('op:numpy_value')
        return np.float64(v)
    if kind == 'str':
        c.event('op:numpy_value')
        return np.str_(v)
    return v


def observe(c, col, model, what, final=False):
    if not c.look(final):
        return
    c.event('observations')
    got = [plain(x) for x in col.index]
    c.eq(got, model, 'content', 'exposed list differs from the reference set after %s' % what)
    c.eq(len(col), len(model), 'len', 'length differs after %s' % what)
    c.eq([plain(x) for x in col], model, 'iteration', 'iteration differs after %s' % what)
    c.check(len(set(got)) == len(got), 'duplicate', 'duplicate element', got=got)
    if model:
        k = c.rng.randrange(len(model))
        c.eq(plain(col[k]), model[k], 'getitem', 'positional access differs')
        c.check(model[k] in col, 'membership', 'a held element is not reported as a member', element=model[k])
    c.check(isinstance(col.index, list), 'index-type', 'exposed list is not a list')


def as_arg(c, kind, vals):
    """One of the accepted bulk argument forms."""
    form = c.rng.choice(['list', 'list', 'array', 'collection', 'nplist'])
    if kind == 'tuple' and form in ('array', 'nplist'):
        form = 'list'
    if form == 'list' or not vals:
        return list(vals)
    if form == 'array':
        return np.array(vals)
    if form == 'nplist':
        return [npify(c, kind, v) for v in vals]
    return IndexCollection(list(vals))


def build(c, kind, vals):
    form = c.rng.choice(['list', 'array', 'collection'])
    if kind == 'tuple' and form == 'array':
        form = 'list'
    if len(vals) == 1 and c.rng.random() < .3:
        col = IndexCollection(vals[0])
        c.event('single_object')
        c.eq([plain(x) for x in col.index], vals, 'construct-single', 'collection built from one object does not hold it')
        return col, list(vals)
    if not vals and c.rng.random() < .3:
        return IndexCollection(), []
    src = list(vals)
    if form == 'array':
        src = np.array(vals) if vals else np.array([])
    elif form == 'collection':
        src = IndexCollection(list(vals))
    before = copy.deepcopy(src)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        col = IndexCollection(src)
    if form != 'collection' and len(set(vals)) != len(vals):
        c.check(any(issubclass(x.category, RepeatElementWarning) for x in w), 'no-repeat-warning',
                'construction from repeated elements gave no warning', src=src)
        c.event('warned_repeat')
    got = [plain(x) for x in col.index]
    c.eq(sorted(got), sorted(set(vals)), 'construct', 'constructed collection is not the set of the given elements', src=src)
    # the caller's container is independent of the collection
    if form == 'array' and len(src):
        src[:] = src[0]
    elif form == 'list' and src:
        src.append(src[0])
        src.reverse()
    elif form == 'collection' and vals:
        src.discard(vals[0])
    c.eq([plain(x) for x in col.index], got, 'shares-state', 'changing the constructor argument changed the collection')
    return col, got


@R.family('history', 4000, 120000, 'up to 25 random operations over int/str/float/tuple elements')
def history(c):
    r = c.rng
    kind = r.choice(list(POOLS))
    big = r.random() < .04
    bulk = [0, 1, 2, 3, 6]
    if big:
        # histories over hundreds of elements, with bulk operations up to that size
        size = r.choice([70, 70, 150])
        pool = {'int': lambda: [r.randint(-size, size) for _ in range(size)],
                'str': lambda: ['k%03d' % r.randint(0, size) for _ in range(size)],
                'float': lambda: [r.randint(0, size) / 8. + .0625 for _ in range(size)],
                'tuple': lambda: [(r.randint(0, size // 4), r.randint(0, 5)) for _ in range(size)]}[kind]()
        bulk = [1, 20, 33, 65, 130, size]
        c.event('large_histories')
    else:
        pool = POOLS[kind](r)
    vals = [r.choice(pool) for _ in range(r.choice([0, 0, 1, 2, 3, 5, 8] + bulk[3:] * big))]
    col, model = build(c, kind, vals)
    c.note('init', vals)
    observe(c, col, model, 'construction')
    typed = bool(vals)
    ops = []
    changed = False
    for _ in range(r.randint(3, 10 if big else 25)):
        op = r.choice(['add', 'add', 'discard', 'discard', 'remove', 'update', 'update', 'difference_update',
                       'difference_update', 'clear', 'foreign', 'alias', 'copy', 'pop', 'expose', 'absent_bulk', 'foreign_bulk'])
        before = list(model)
        ops.append(op)
        if op == 'add':
            v = r.choice(pool)
            arg = npify(c, kind, v) if r.random() < .4 else v
            c.note('add', arg)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                ret = col.add(arg)
            c.check(ret is col, 'returns-self', 'add does not return the collection')
            warned = any(issubclass(x.category, RepeatElementWarning) for x in w)
            c.eq(warned, v in model, 'add-warning', 'repeat warning given iff the element is present', v=v)
            if v not in model:
                model.append(v)
            else:
                c.event('warned_repeat')
            typed = True
            c.event('op:add')
        elif op in ('discard', 'remove'):
            v = r.choice(pool)
            arg = npify(c, kind, v) if r.random() < .3 else v
            c.note(op, arg)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                getattr(col, op)(arg)
            warned = any(issubclass(x.category, InexistentElementWarning) for x in w)
            c.eq(warned, v not in model, 'discard-warning', 'absent warning given iff the element is absent', v=v)
            if v in model:
                model.remove(v)
            else:
                c.event('warned_absent')
            c.event('op:' + op)
        elif op == 'update':
            vs = [r.choice(pool) for _ in range(r.choice(bulk))]
            if r.random() < .15:
                vs = vs[:1] or [pool[0]]
                arg = vs[0]
            else:
                arg = as_arg(c, kind, vs)
            c.note('update', arg)
            order = [plain(x) for x in arg] if not (isinstance(arg, (str, tuple)) or not hasattr(arg, '__len__')) else [plain(arg)]
            ret = col.update(arg)
            c.check(ret is col, 'returns-self', 'update does not return the collection')
            for v in order:
                if v not in model:
                    model.append(v)
            typed = typed or bool(vs)
            c.event('op:update')
        elif op in ('difference_update', 'absent_bulk'):
            if op == 'absent_bulk':
                vs = [v for v in pool if v not in model][:3]
            else:
                vs = [r.choice(pool) for _ in range(r.choice(bulk))]
            if r.random() < .15 and vs:
                vs = vs[:1]
                arg = vs[0]
            else:
                arg = as_arg(c, kind, vs)
            c.note('difference_update', arg)
            ret = col.difference_update(arg)
            c.check(ret is col, 'returns-self', 'difference_update does not return the collection')
            model = [v for v in model if v not in vs]
            c.event('op:difference_update')
        elif op == 'clear':
            if r.random() < .6:
                continue
            col.clear()
            model = []
            c.event('op:clear')
        elif op == 'pop':
            if not model or r.random() < .5:
                continue
            v = plain(col.pop())
            c.check(v in model, 'pop', 'popped something that was not held', v=v)
            model.remove(v)
            c.event('op:pop')
        elif op == 'foreign':
            if not (typed and model):
                continue
            f = r.choice(FOREIGN[kind])
            c.note('add foreign', f)
            c.raises(TypeError, lambda: col.add(f), 'foreign-accepted', 'an element of another type was accepted', value=f)
        elif op == 'foreign_bulk':
            if not (typed and model):
                continue
            f = r.choice(FOREIGN[kind][:2])
            good = [r.choice(pool) for _ in range(r.choice([2] + bulk[2:] * big))]
            arg = good + [f]
            r.shuffle(arg)
            c.note('update foreign', arg)
            c.raises(TypeError, lambda: col.update(arg), 'foreign-accepted', 'a bulk update with a foreign element was accepted', value=arg)
            now = [plain(x) for x in col.index]
            c.check(f not in now or type(f) is type(pool[0]), 'foreign-held', 'foreign element held', now=now)
            c.check(now[:len(model)] == model and set(now) <= set(model) | set(good), 'foreign-bulk', 'bulk update lost or invented elements', now=now, model=model)
            model = now
        elif op == 'alias':
            c.event('op:self_alias')
            if r.random() < .6:
                c.note('update(self)')
                col.update(col)
            else:
                c.note('difference_update(self)')
                col.difference_update(col)
                model = []
        elif op == 'copy':
            c.note('copy')
            cp = IndexCollection(col)
            c.eq([plain(x) for x in cp.index], model, 'copy', 'copy differs from the original')
            c.eq(cp.get_elementType(), col.get_elementType(), 'copy-type', 'copy has another element type')
            extra = [v for v in pool if v not in model]
            if extra and model:
                cp.add(extra[0])
            if model:
                cp.discard(model[0])
            observe(c, col, model, 'changing a copy')
            if r.random() < .4:     # the rest of the history happens to a copy
                col = IndexCollection(col) if r.random() < .7 else copy.deepcopy(col)
                c.event('went_on_with_a_copy')
                c.event('copied_when_emptied', not model)
            c.event('op:copy')
        elif op == 'expose':
            lst = col.index
            lst.append('junk')
            lst.reverse()
            c.event('op:expose')
        changed |= model != before
        c.event('operations')
        observe(c, col, model, op)
        v = r.choice(pool)
        if c.look():
            c.eq(v in col, v in model, 'membership', 'membership differs', v=v)
        if model and c.look():
            c.check(col.get_elementType() is type(model[0]), 'element-type', 'reported element type is wrong',
                    got=col.get_elementType(), model=model)
    observe(c, col, model, 'the history', final=True)
    c.covered((kind, vals, ops), changed)


@R.family('sampling', 400, 8000, 'random_sampling at random rates and sizes; spread checked over repeated draws')
def sampling(c):
    r = c.rng
    n = r.randint(1, 30) if r.random() < .95 else r.randint(60, 110)
    kind = r.choice(['int', 'int', 'str', 'tuple'])
    vals = {'int': [7 * i - 3 for i in range(n)], 'str': ['k%02d' % i for i in range(n)],
            'tuple': [(i, i % 3) for i in range(n)]}[kind]
    r.shuffle(vals)
    col = IndexCollection(list(vals))
    before = list(col.index)
    rate = r.choice([0.1, 0.25, 0.3, 0.5, 0.66, 0.75, 0.9, r.uniform(0.02, 0.98)])
    seen, first = set(), set()
    for k in range(40):
        s = col.random_sampling(rate) if not (k == 0 and abs(rate - .3) < 1e-9) else col.random_sampling()
        got = [plain(x) for x in s.index]
        c.check(abs(len(got) - rate * n) <= 0.5 + 1e-9, 'sample-size', 'sample size is not the requested fraction', n=n, rate=rate, got=len(got))
        c.check(len(set(got)) == len(got) and set(got) <= set(vals), 'sample-members', 'sample is not a set of distinct members', got=got)
        c.check(isinstance(s, IndexCollection) and s is not col, 'sample-type', 'sample is not a new collection')
        c.eq(col.index, before, 'sample-mutates', 'sampling changed the collection')
        seen |= set(got)
        first.add(tuple(got))
        c.event('sampled')
        if got:
            s.discard(s[0])
            c.eq(col.index, before, 'sample-shares', 'changing a sample changed the collection')
    if n >= 2 and rate * n >= 1 and (1 - rate) ** 40 * n < 1e-9:
        c.eq(seen, set(vals), 'sample-spread', 'some member is never sampled in 40 draws', rate=rate, missing=set(vals) - seen)
    if n >= 8 and 0.25 <= rate <= .75:
        c.check(len(first) > 1, 'sample-constant', '40 random samples are all identical')
    for bad in (0, 1, -0.5, 1.5):
        c.raises((AssertionError, ValueError), lambda: col.random_sampling(bad), 'sample-rate', 'invalid rate accepted', rate=bad)
    c.covered((kind, n, rate), 0 < round(rate * n) < n)


@R.family('mapping', 800, 20000, 'map_whole_index_to_train for list/array training indexes, plain and multi-label')
def mapping(c):
    r = c.rng
    n = r.randint(1, 25) if r.random() < .9 else r.randint(60, 200)
    names = r.choice(['int', 'str', 'perm'])
    whole = list(range(n * 2)) if names != 'str' else ['s%d' % i for i in range(n * 2)]
    r.shuffle(whole)
    train = whole[:n]
    sub = r.sample(train, r.randint(1, n))
    arg = train if r.random() < .5 else np.array(train)
    keep = list(train)
    if r.random() < .5:
        got = map_whole_index_to_train(arg, IndexCollection(list(sub)))
        c.eq(sorted(plain(x) for x in got), sorted(train.index(s) for s in sub), 'map', 'mapped positions do not hold the elements', train=train, sub=sub)
        c.check(type(got) is IndexCollection, 'map-type', 'wrong result type')
        kind = 'single'
    else:
        ls = r.randint(1, 6)
        pairs = sorted({(s, r.randrange(ls)) for s in sub for _ in range(3)})
        src = MultiLabelIndexCollection(list(pairs), label_size=ls)
        got = map_whole_index_to_train(arg, src)
        c.eq(sorted((int(a), int(b)) for a, b in got), sorted((train.index(s), l) for s, l in pairs), 'map-ml', 'mapped pairs differ', train=train, pairs=pairs)
        c.check(isinstance(got, MultiLabelIndexCollection), 'map-type', 'wrong result type')
        c.eq(sorted(src.index), pairs, 'map-mutates', 'mapping changed its argument')
        # the label range survives the translation: a whole-instance key still means all labels
        full = set((int(a), int(b)) for a, b in got) | {(0, l) for l in range(ls)}
        got.update([(0,)])
        c.eq(set((int(a), int(b)) for a, b in got), full, 'map-label-range', 'label range lost by the translation', label_size=ls, pairs=pairs)
        kind = 'multi'
    c.eq(list(arg), keep, 'map-mutates', 'mapping changed the training index')
    outside = [w for w in whole if w not in train]
    if outside and names != 'str' or outside:
        c.raises((AssertionError, ValueError, IndexError, KeyError), lambda: map_whole_index_to_train(arg, IndexCollection([outside[0]])),
                 'map-outside', 'an element outside the training set was mapped', element=outside[0])
    c.event('mapped')
    c.covered((kind, names, train, sub), n > 1)
