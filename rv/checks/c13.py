"""C13: knowledge repositories return what was added last, and only that."""
import re
import warnings

import numpy as np

from alipy.oracle import ElementRepository, MatrixRepository
from alipy.index.index_collections import IndexCollection
from rv.core import Registry

R = Registry('C13', 'Random histories of add / update_query / discard / retrieve / clear on an element and a matrix repository side '
                    'by side with a reference table; every state is read back completely. Non-trivial: the history overwrote or '
                    'discarded something.',
             require=('added', 'updated_batch', 'overwritten', 'repeat_skipped', 'discarded_by_index', 'discarded_by_example',
                      'cleared', 'cleared_without_examples', 'retrieved', 'retrieved_by_example', 'missing_skipped', 'tuple_index',
                      'shared_example', 'multi_label', 'close_examples', 'rejections_observed', 'spoiled', 'cost_vectors'))


def it(x):
    if isinstance(x, np.ndarray):
        return tuple(it(v) for v in x)
    if isinstance(x, (list, tuple)):
        return tuple(it(v) for v in x)
    return x.item() if isinstance(x, np.generic) else x


class Model(object):
    def __init__(self, idx, lab, exa):
        self.order = list(idx)
        self.lab = dict(zip(idx, lab))
        self.inst = exa is not None
        self.exa = dict(zip(idx, exa)) if self.inst else {}
        self.cost, self.nq, self.hist = 0, 0, []

    def add(self, i, label, cost, exa, keep_first):
        if i in self.lab:
            if keep_first:
                return False
        else:
            self.order.append(i)
        self.lab[i] = label
        if self.inst:
            self.exa[i] = exa
        if cost is not None:
            self.cost += cost
        return True

    def discard(self, i):
        self.order.remove(i)
        del self.lab[i]
        self.exa.pop(i, None)

    def clear(self):
        self.order, self.lab, self.exa, self.inst = [], {}, {}, False
        self.cost, self.nq, self.hist = 0, 0, []


def observe(c, name, rep, m, universe, final=False):
    """Read the whole state back through the public interface."""
    if not c.look(final):
        return
    for i in universe:
        if c.look():
            c.eq(bool(i in rep), i in m.lab, name + ':contains', '', index=i)
    if c.look():
        observe_data(c, name, rep, m)
    if c.look():
        observe_history(c, name, rep, m)
    c.event('states_observed')


def observe_data(c, name, rep, m):
    X, y, ind = rep.get_training_data()
    c.eq([it(v) for v in ind], [it(v) for v in m.order], name + ':training-index', '', stored=m.order)
    c.eq([it(v) for v in y], [it(m.lab[i]) for i in m.order], name + ':training-labels')
    if m.inst:
        c.eq([it(v) for v in X], [it(m.exa[i]) for i in m.order], name + ':training-examples')
    elif X is not None:
        c.eq(len(X), 0, name + ':examples-invented')
    c.spoil(X, y, ind)
    c.eq(float(rep.cost_inall), float(m.cost), name + ':cost')
    c.eq(rep.num_of_queries, m.nq, name + ':num-queries')
    if m.order:
        rep_ok = rep.retrieve_by_indexes(list(m.order))
        c.eq([it(v) for v in rep_ok[1]], [it(m.lab[i]) for i in m.order], name + ':retrieve-all')


def observe_history(c, name, rep, m):
    text = rep.full_history()
    nums = re.findall(r'number_of_queries:(\d+)', text)
    c.eq(nums, [str(m.nq)], name + ':history-count', '', text=text)
    c.eq(len(re.findall(r'query_index:', text)), m.nq, name + ':history-entries', '', text=text)
    c.close(float(re.findall(r'cost:([-+.e\d]+)', ' '.join(ln.split('|')[-2] for ln in text.splitlines() if ln.count('|') > 1))[-1]), float(m.cost),
            name + ':history-cost', '', text=text)
    flat = ''.join(text.split())
    for idx, lab, cost in m.hist:
        c.check('query_index:' + ''.join(str(idx).split()) in flat, name + ':history-index', '', text=text, idx=idx)


def retrieve(c, name, rep, m, asked, form, default_scalar=None):
    want = [i for i in asked if i in m.lab]
    if form == 'scalar':
        key = asked[0]
    elif form == 'array' and asked and not isinstance(asked[0], tuple):
        key = np.array(asked)
    elif form == 'coll' and asked:
        key = IndexCollection(list(dict.fromkeys(asked)))
        want = [i for i in dict.fromkeys(asked) if i in m.lab]
        order = [it(i) for i in key]
        want = [i for i in order if i in m.lab]
    else:
        key = list(asked)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        X, y = rep.retrieve_by_indexes(key)
    c.eq([it(v) for v in y], [it(m.lab[i]) for i in want], name + ':retrieve-labels', '', asked=asked, form=form)
    if m.inst:
        c.eq([it(v) for v in X], [it(m.exa[i]) for i in want], name + ':retrieve-examples', '', asked=asked, form=form)
    missing = [i for i in asked if i not in m.lab]
    if missing:
        c.event('missing_skipped')
        c.check(any('not in the repository' in str(x.message) for x in w), name + ':missing-silent', '', asked=asked)
    c.spoil(X, y)
    if 66 in np.ravel(y):
        X, y = rep.retrieve_by_indexes(key)
    # the [] form is the same operation
    X2, y2 = rep[key]
    c.eq([it(v) for v in y2], [it(v) for v in y], name + ':getitem')
    c.event('retrieved')


def retrieve_exa(c, name, rep, m, asked, form):
    """asked: list of example tuples."""
    with warnings.catch_warnings(record=True):
        warnings.simplefilter('always')
        if form == 'scalar':
            key = c.rng.choice([list(asked[0]), np.array(asked[0])])
        elif form == 'array':
            key = np.array(asked)
        else:
            key = [list(e) for e in asked]
        X, y = rep.retrieve_by_examples(key)
    holders = [[i for i in m.order if it(m.exa[i]) == it(e)] for e in asked]
    present = [(e, hs) for e, hs in zip(asked, holders) if hs]
    if form == 'scalar' and not present:
        c.check(y is None or len(y) == 0, name + ':unknown-example-answered', '', asked=asked, y=y)
        return
    if form == 'scalar':
        X = np.asarray(X)
        X = X.reshape(1, -1) if X.ndim == 1 else X
        y = np.asarray(y)
        row = next(iter(m.lab.values()))
        y = y.reshape((1,) + np.shape(row))
    c.eq([it(v) for v in X], [it(e) for e, _ in present], name + ':retrieve-by-example-X', '', asked=asked)
    c.eq(len(y), len(present), name + ':retrieve-by-example-len')
    for v, (e, hs) in zip(y, present):
        c.check(it(v) in [it(m.lab[i]) for i in hs], name + ':retrieve-by-example-label', '', example=e, got=v, indexes=hs)
        if len(hs) > 1:
            c.event('shared_example')
    c.event('retrieved_by_example')


def run_history(c, name, cls, keep_first, script, start):
    idx0, lab0, exa0, universe, lkind = start
    form0 = c.rng.choice(['list', 'array', 'coll']) if not isinstance(universe[0], tuple) else 'list'
    i0 = list(idx0) if form0 == 'list' else np.array(idx0) if form0 == 'array' else IndexCollection(list(idx0))
    order0 = [it(i) for i in i0]          # a collection iterates in its own order
    lab0 = [lab0[idx0.index(i)] for i in order0]
    exa0 = None if exa0 is None else [exa0[idx0.index(i)] for i in order0]
    idx0 = order0
    l0 = np.array(lab0) if lkind != 'obj' else list(lab0)
    e0 = None if exa0 is None else np.array(exa0, dtype=float)
    rep = cls(labels=l0, indexes=i0, examples=e0)
    c.spoil(l0, i0, e0)
    m = Model(idx0, lab0, exa0)
    c._watch = None
    observe(c, name, rep, m, universe)
    nontrivial = False
    trace = []
    for op in script:
        kind = op[0]
        c.note(name, *op)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if kind == 'add':
                _, i, label, cost, exa = op
                present = i in m.lab
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    rep.add(select_index=i, label=label, cost=cost if not (present and keep_first) else None,
                            example=None if exa is None or not m.inst else list(exa))
                if present and keep_first:
                    c.check(len(w) > 0, name + ':repeat-silent', 'a repeated index was skipped without a warning', index=i)
                m.add(i, label, cost, exa, keep_first)
                if present:
                    nontrivial = True
                c.event(('repeat_skipped' if keep_first else 'overwritten') if present else 'added')
            elif kind == 'update':
                _, ids, labels, costs, exas, form = op
                if keep_first and any(i in m.lab for i in ids):
                    costs = None
                idsk = np.array(ids) if form == 'array' and not isinstance(ids[0], tuple) else \
                    IndexCollection(list(ids)) if form == 'coll' else list(ids)
                labs = [list(x) if isinstance(x, tuple) else x for x in labels]
                cs = None if costs is None else list(costs)
                es = [list(e) for e in exas] if (exas is not None and m.inst) else None
                order = [it(i) for i in idsk]
                if len(ids) == 1 and form == 'scalar':
                    idsk = ids[0]
                    order = [ids[0]]
                    labs = labs[0] if lkind != 'multi' else labs
                    cs = None if cs is None else cs[0]
                pos = [list(ids).index(o) if not isinstance(o, tuple) else list(ids).index(o) for o in order]
                if pos != list(range(len(ids))):     # a collection iterates in its own order
                    labs = [labs[p] for p in pos]
                    es = None if es is None else [es[p] for p in pos]
                    cs = None if cs is None else [cs[p] for p in pos]
                if cs is not None and c.rng.random() < .2:          # a cost per label
                    cs = [np.array([v / 2., v / 2.]) for v in cs] if isinstance(cs, list) else np.array([cs / 2., cs / 2.])
                    c.event('cost_vectors')
                    if not isinstance(cs, list):
                        cs = [cs]
                        idsk, labs, es = [idsk], [labs] if lkind != 'multi' else labs, [es] if es and not isinstance(es[0], list) else es
                rep.update_query(labels=labs, indexes=idsk, cost=cs, examples=es)
                c.spoil(labs, idsk, cs, es)
                for o, p in zip(order, pos):
                    m.add(o, labels[p], None if costs is None else costs[p], exas[p] if exas is not None else None, keep_first)
                m.nq += 1
                if form in ('list', 'scalar'):
                    m.hist.append((ids[0] if len(ids) == 1 else list(ids), None, None))
                c.event('updated_batch' if len(ids) > 1 else 'updated_one')
            elif kind == 'discard':
                _, i = op
                rep.discard(index=i)
                if i in m.lab:
                    m.discard(i)
                    nontrivial = True
                    c.event('discarded_by_index')
            elif kind == 'discard_exa':
                _, e = op
                if not m.inst:
                    c.raises(Exception, lambda: rep.discard(example=list(e)), name + ':discard-example-without-examples')
                else:
                    hs = [i for i in m.order if it(m.exa[i]) == it(e)]
                    if len(hs) > 1:
                        continue
                    rep.discard(example=list(e))
                    if hs:
                        m.discard(hs[0])
                        nontrivial = True
                        c.event('discarded_by_example')
            elif kind == 'retrieve':
                retrieve(c, name, rep, m, op[1], op[2])
            elif kind == 'retrieve_exa':
                if m.inst:
                    if m.order or op[2] != 'x':
                        retrieve_exa(c, name, rep, m, op[1], op[2])
                else:
                    c.raises(Exception, lambda: rep.retrieve_by_examples([list(op[1][0])]), name + ':retrieve-example-without-examples')
            elif kind == 'clear':
                if not m.inst:
                    c.event('cleared_without_examples')
                rep.clear()
                m.clear()
                c.event('cleared')
            elif kind == 'bad':
                if op[1] == 'mismatch':
                    c.raises(ValueError, lambda: rep.update_query(labels=[lab0[0]], indexes=[universe[0], universe[1]],
                                                                  examples=None if not m.inst else [exa0[0]]),
                             name + ':mismatch-accepted')
                elif op[1] == 'noexample' and m.inst:
                    fresh = [u for u in universe if u not in m.lab]
                    if fresh:
                        c.raises(Exception, lambda: rep.add(select_index=fresh[0], label=lab0[0]), name + ':missing-example-accepted')
                elif op[1] == 'nothing':
                    c.raises(Exception, lambda: rep.discard(), name + ':discard-nothing-accepted')
        observe(c, name, rep, m, universe)
        trace.append(kind)
    observe(c, name, rep, m, universe, final=True)
    if universe and isinstance(universe[0], tuple):
        c.event('tuple_index')
    return rep, m, nontrivial


@R.family('histories', 1500, 30000, 'the same random script run on ElementRepository and MatrixRepository next to the model')
def histories(c):
    r = c.rng
    ik = r.choice(['int', 'int', 'str', 'tuple'])
    nu = r.randint(4, 10)
    churn = r.random() < .4               # few indexes and examples, many overwrites and discards
    if churn:
        nu = 4
    universe = {'int': [0] + [7 * i + 1 for i in range(nu)], 'str': ['a%d' % i for i in range(nu)],
                'tuple': [(i // 2, i % 2) for i in range(nu)]}[ik]
    lkind = r.choice(['int', 'int', 'float', 'multi', 'str'])
    mk = {'int': lambda: r.randint(-3, 3), 'float': lambda: r.randint(0, 9) / 4, 'multi': lambda: tuple(r.randint(0, 1) for _ in range(3)),
          'str': lambda: r.choice(['cat', 'dog', 'cow'])}[lkind]
    inst = r.random() < 0.6
    pool = [tuple(float(r.randint(0, 4)) for _ in range(2)) for _ in range(nu + 4 if not churn else 6)]
    if r.random() < .35:
        # examples that are distinct but close together, relatively or absolutely
        step, base = r.choice([(1e-6, 1.), (1e-9, 0.), (1., 1e6), (1e-7, .5), (2. ** -40, 1.), (1e-300, 0.), (1e290, 1e300)])
        pool = [tuple(base + step * v for v in e) for e in pool]
        c.event('close_examples')
    k = r.randint(1, nu - 2)
    idx0 = r.sample(universe, k)
    lab0 = [mk() for _ in idx0]
    exa0 = [r.choice(pool) for _ in idx0] if inst else None
    if lkind == 'multi':
        c.event('multi_label')
    script = []
    for _ in range(r.randint(1, 12) if not churn else r.randint(10, 30)):
        kind = r.choice(['add', 'add', 'update', 'update', 'discard', 'discard_exa', 'retrieve', 'retrieve', 'retrieve_exa', 'bad',
                         'clear' if r.random() < 0.4 else 'add'])
        if kind == 'add':
            script.append(('add', r.choice(universe), mk(), r.choice([None, 1, 2.5, 0]), r.choice(pool) if inst else None))
        elif kind == 'update':
            ids = r.sample(universe, r.randint(1, 3))
            form = r.choice(['list', 'list', 'array', 'coll', 'scalar'])
            if form == 'coll' and isinstance(ids[0], tuple):
                form = 'list'
            script.append(('update', ids, [mk() for _ in ids], r.choice([None, [r.randint(0, 8) / 4 for _ in ids]]),
                           [r.choice(pool) for _ in ids] if inst else None, form))
        elif kind == 'discard':
            script.append(('discard', r.choice(universe)))
        elif kind == 'discard_exa':
            script.append(('discard_exa', r.choice(pool)))
        elif kind == 'retrieve':
            script.append(('retrieve', [r.choice(universe) for _ in range(r.randint(1, 4))], r.choice(['list', 'array', 'coll', 'scalar'])))
            if script[-1][2] == 'scalar':
                script[-1] = ('retrieve', script[-1][1][:1], 'scalar')
        elif kind == 'retrieve_exa':
            f = r.choice(['list', 'array', 'scalar'])
            script.append(('retrieve_exa', [r.choice(pool) for _ in range(1 if f == 'scalar' else r.randint(1, 3))], f))
        elif kind == 'bad':
            script.append(('bad', r.choice(['mismatch', 'noexample', 'nothing'])))
        else:
            script.append(('clear',))
    start = (idx0, lab0, exa0, universe, lkind)
    nt = False
    for name, cls, kf in (('element', ElementRepository, False), ('matrix', MatrixRepository, True)):
        if kf and lkind == 'str':
            continue                      # the matrix form documents numeric labels or label vectors
        _, _, t = run_history(c, name, cls, kf, script, start)
        nt = nt or t
    c.covered((ik, lkind, inst, idx0, [s[0] for s in script], script[:3]), nt)


@R.family('agree', 300, 6000, 'both representations fed one history of distinct indexes give identical answers')
def agree(c):
    r = c.rng
    n = r.randint(3, 10)
    d = r.randint(1, 3)
    X = c.nr.randint(0, 50, size=(n, d)).astype(float)
    X[:, 0] = np.arange(n) + X[:, 0] / 100.
    y = c.nr.randint(0, 3, size=n) if r.random() < .6 else c.nr.randint(0, 2, size=(n, 3))
    order = list(range(n))
    r.shuffle(order)
    k = r.randint(1, n - 1)
    reps = [cls(labels=y[order[:k]], indexes=list(order[:k]), examples=X[order[:k]]) for cls in (ElementRepository, MatrixRepository)]
    rest = order[k:]
    while rest:
        b = r.randint(1, 3)
        batch, rest = rest[:b], rest[b:]
        cost = [r.randint(0, 9) for _ in batch]
        for rep in reps:
            rep.update_query(labels=y[batch], indexes=list(batch), cost=list(cost), examples=X[batch])
        if r.random() < .4:
            i = r.choice(order)
            for rep in reps:
                rep.discard(index=i)
        q = [r.choice(order) for _ in range(r.randint(1, 4))]
        a, b2 = [rep.retrieve_by_indexes(q) for rep in reps]
        c.eq([it(v) for v in a[1]], [it(v) for v in b2[1]], 'agree:labels', '', q=q)
        c.eq([it(v) for v in a[0]], [it(v) for v in b2[0]], 'agree:examples', '', q=q)
        ta, tb = [rep.get_training_data() for rep in reps]
        for u, v in zip(ta, tb):
            c.eq([it(x) for x in u], [it(x) for x in v], 'agree:training')
        present = [it(v) for v in ta[2]]
        c.eq([it(v) for v in ta[1]], [it(y[i]) for i in present], 'agree:training-truth')
        c.eq([it(v) for v in ta[0]], [it(X[i]) for i in present], 'agree:training-truth-X')
        c.eq(float(reps[0].cost_inall), float(reps[1].cost_inall), 'agree:cost')
        c.eq(reps[0].num_of_queries, reps[1].num_of_queries, 'agree:queries')
        c.eq(reps[0].full_history().count('query_index'), reps[1].full_history().count('query_index'), 'agree:history')
    c.covered((n, d, order, k), True)
