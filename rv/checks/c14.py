"""C14: an experiment log replays to exactly the working state it recorded."""
import copy
import os
import re
import warnings

import numpy as np

from alipy.experiment import State, StateIO
from alipy.index.index_collections import IndexCollection, MultiLabelIndexCollection, FeatureIndexCollection
from rv.core import Registry

R = Registry('C14', 'Random histories (append, pop, truncate by recovery, save/load, copy, mutation of caller objects) of an experiment '
                    'log next to a reference list of states; after the steps (all, some or none of '
                    'them watched, so that looking cannot be what keeps the log right) and at the end every recorded state and the workspace at every '
                    'iteration are read back. Non-trivial: at least two states and one non-append operation.',
             require=('copies_changed', 'appended', 'popped', 'truncated', 'reloaded', 'workspaces', 'copied', 'caller_mutated', 'multi_label', 'whole_keys',
                      'lists_as_index', 'dict_state', 'exhausted', 'rejections_observed', 'named_index', 'unwatched'))


def pairs(key, nl):
    """pairs denoted by one multi-label key."""
    if len(key) == 1:
        return [(key[0], j) for j in range(nl)]
    if isinstance(key[1], (tuple, list)):
        return [(key[0], j) for j in key[1]]
    return [tuple(key)]


def py(x):
    return x.item() if isinstance(x, np.generic) else x


def content(col):
    return sorted((py(v) if not isinstance(v, tuple) else tuple(py(t) for t in v)) for v in col)


def freeze(x):
    if isinstance(x, (IndexCollection, MultiLabelIndexCollection)):
        return ('C', tuple(content(x)))
    if isinstance(x, np.ndarray):
        return ('A', x.shape, tuple(py(v) for v in x.ravel()))
    if isinstance(x, (list, tuple)):
        return tuple(freeze(v) for v in x)
    return py(x)


class Log(object):
    """The model: what the log must contain."""

    def __init__(self, train, test, L, U, nl):
        self.train, self.test, self.L, self.U, self.nl = list(train), list(test), set(L), set(U), nl
        self.states = []       # dicts: sel (frozen), els (set), n, cost, perf, extra

    def at(self, k):
        L, U = set(self.L), set(self.U)
        for s in self.states[:k]:
            L |= s['els']
            U -= s['els']
        return L, U


def observe(c, sio, m, final=False):
    n = len(m.states)
    if not c.look(final):
        return
    c.eq(len(sio), n, 'len')
    c.eq(sio.num_of_query(), n, 'num_of_query')
    if c.look():
        observe_totals(c, sio, m)
    if c.look():
        observe_states(c, sio, m)
    # the workspace at every recorded iteration
    ks = [k for k in range(n + 1) if c.look()] + [None]
    if c.rng.random() < .5:
        c.rng.shuffle(ks)
    for k in ks:
        train, test, L, U = sio.get_workspace() if k is None else sio.get_workspace(k)
        wl, wu = m.at(n if k is None else k)
        c.eq(list(train), m.train, 'workspace-train', '', k=k)
        c.eq(list(test), m.test, 'workspace-test', '', k=k)
        c.eq(content(L), sorted(wl), 'workspace-labeled', '', k=k)
        c.eq(content(U), sorted(wu), 'workspace-unlabeled', '', k=k)
        c.check(not (set(content(L)) & set(content(U))), 'workspace-overlap', '', k=k)
        c.eq(set(content(L)) | set(content(U)), m.L | m.U, 'workspace-union', '', k=k)
        c.event('workspaces')
        if c.rng.random() < .2:    # using what was handed out must not write back
            first = sorted(wu)[:1]
            for v in first:
                U.discard(v)
                L.add(v)
            if isinstance(train, list):
                train.append('junk')
    c.eq(len(sio), n, 'observing-changed-len')


def observe_totals(c, sio, m):
    n = len(m.states)
    cost = sum(s['cost'] or 0 for s in m.states)
    c.close(sio.cost_inall, cost, 'cost_inall', '', states=m.states)
    text = repr(sio)
    c.check('%.2f%%' % (100 * len(m.L) / (len(m.L) + len(m.U))) in text, 'repr-initial', '', text=text)
    row = [f.strip() for f in text.strip().splitlines()[-1].split('|')]
    c.check(str(n) in row, 'repr-queries', '', text=text, n=n)
    c.check(any(re.fullmatch(r'-?[\d.]+(e[-+]\d+)?', f) and abs(float(f) - cost) < 1e-9 for f in row), 'repr-cost', '', text=text, cost=cost)
    got_n, got_c = copy.deepcopy(sio).refresh_info()
    c.close(got_c, cost, 'refresh-cost')
    c.eq(int(got_n), sum(s['n'] for s in m.states), 'refresh-queried')


def observe_states(c, sio, m):
    n = len(m.states)
    # recorded states, in order, unchanged
    for k, st in enumerate(sio):
        want = m.states[k]
        for view in (st, sio[k], sio.get_state(k)):
            c.eq(freeze(view.get_value('select_index')), want['sel'], 'state-select', '', k=k)
            c.eq(freeze(view.get_value('performance')), want['perf'], 'state-performance', '', k=k)
            c.eq('cost' in view.keys(), want['cost'] is not None, 'state-has-cost', '', k=k)
            if want['cost'] is not None:
                c.close(np.sum(view['cost']), want['cost'], 'state-cost', '', k=k)
            c.eq(freeze(view.get_value('queried_label')) if 'queried_label' in view.keys() else None, want['label'], 'state-label', '', k=k)
            c.eq(view.batch_size, want['n'], 'state-batch-size', '', k=k)
            for key, v in want['extra'].items():
                c.eq(freeze(view[key]), v, 'state-extra')
    if n and c.rng.random() < .5:       # a copy of a state belongs to the caller
        k = c.rng.randrange(n)
        st = sio.get_state(k)
        st.add_element('scribble', 1)
        st.set_value('performance', -77.)
        c.check('scribble' not in sio[k].keys() and freeze(sio[k].get_value('performance')) == m.states[k]['perf'], 'state-copy-shared',
                'changing the state handed out changes the record', k=k)
        c.event('copies_changed')
    perf = sio.get_current_performance()
    if n:
        c.close(list(perf), [np.mean([s['perf'] for s in m.states]), np.std([s['perf'] for s in m.states])], 'performance')
    sizes = [s['n'] for s in m.states]
    flag = copy.deepcopy(sio)
    ok = flag.check_batch_size()
    if sizes and len(set(sizes)) == 1:
        c.check(ok, 'batch-size-same', '', sizes=sizes)
        c.eq(flag.batch_size, sizes[0], 'batch-size-value')
    elif len(set(sizes[:-1])) > 1:
        c.check(not ok, 'batch-size-different', '', sizes=sizes)


def bad_iterations(c, sio):
    n = len(sio)
    c.raises(AssertionError, lambda: sio.get_workspace(n + 1), 'workspace-beyond-end-accepted')
    c.raises(AssertionError, lambda: sio.get_workspace(-1), 'workspace-negative-accepted')
    c.raises(AssertionError, lambda: sio.recover_workspace(n + 1), 'recover-beyond-end-accepted')
    c.raises(AssertionError, lambda: sio.get_state(n), 'get-state-beyond-end-accepted')
    c.raises(AssertionError, lambda: sio.add_state('x'), 'junk-state-accepted')
    c.eq(len(sio), n, 'rejection-changed-len')


def history(c, multi):
    r = c.rng
    n = r.randint(4, 14)
    nl = r.randint(2, 4) if multi else None
    names = list(range(n))
    if not multi and r.random() < .3:
        names = ['s%02d' % i for i in range(n)]
        c.event('named_index')
    perm = names[:]
    r.shuffle(perm)
    nt = r.randint(2, n - 1)
    train, test = perm[:nt], perm[nt:]
    if multi:
        c.event('multi_label')
        ents = [(i, j) for i in train for j in range(nl)]
        r.shuffle(ents)
        k = r.randint(1, len(ents) - 1)
        if r.random() < .5:      # whole instances
            kk = r.randint(1, nt - 1)
            L = [(i, j) for i in train[:kk] for j in range(nl)]
            U = [(i, j) for i in train[kk:] for j in range(nl)]
        else:
            L, U = ents[:k], ents[k:]
        form = r.choice(['coll', 'list', 'feature'])
        if form == 'list':
            # caller hands plain lists; each list may mention whole instances as (i,)
            c.event('lists_as_index')
            full = [i for i in train if all((i, j) in U for j in range(nl))]
            arg_L = list(L)
            arg_U = list(U)
            if full and r.random() < .5 and any(j == nl - 1 for _, j in L + [p for p in U if p[0] != full[0]]):
                arg_U = [p for p in U if p[0] != full[0]] + [(full[0],)]
            if not any(j == nl - 1 for key in arg_L + arg_U if len(key) == 2 for j in [key[1]]):
                form = 'coll'
        if form != 'list':
            cls = FeatureIndexCollection if form == 'feature' else MultiLabelIndexCollection
            if form == 'feature':
                arg_L, arg_U = FeatureIndexCollection(L, feature_size=nl), FeatureIndexCollection(U, feature_size=nl)
            else:
                arg_L, arg_U = cls(L, label_size=nl), cls(U, label_size=nl)
    else:
        k = r.randint(1, nt - 1)
        L, U = train[:k], train[k:]
        f = r.choice(['coll', 'list', 'array', 'mixed'])
        if f != 'coll':
            c.event('lists_as_index')
        arg_L = IndexCollection(L) if f in ('coll', 'mixed') else list(L) if f == 'list' else np.array(L)
        arg_U = IndexCollection(U) if f == 'coll' else list(U) if f in ('list', 'mixed') else np.array(U)
    arg_train = list(train) if r.random() < .6 else np.array(train)
    arg_test = list(test) if r.random() < .6 else np.array(test)
    scr = c.scratch()
    sp = r.choice([None, scr, os.path.join(scr, 'log.pkl')])
    sio = StateIO(r.randint(0, 3), arg_train, arg_test, arg_L, arg_U, saving_path=sp, verbose=r.random() < .3,
                  print_interval=r.randint(1, 3), initial_point=r.choice([None, 0.5]))
    m = Log(train, test, L, U, nl)
    observe(c, sio, m)
    ops = []
    for step in range(r.randint(2, 9)):
        op = r.choice(['add', 'add', 'add', 'add', 'pop', 'recover', 'reload', 'copy', 'mutate', 'bad'])
        _, wu = m.at(len(m.states))
        if op == 'add' and wu:
            b = r.choice([1, 1, 2, 3])
            pool = sorted(wu)
            r.shuffle(pool)
            if multi:
                ins = sorted({i for i, _ in pool})
                if r.random() < .4:
                    whole = [i for i in ins if all((i, j) in wu for j in range(nl))]
                    keys = [(i,) for i in whole[:b]] or [pool[0]]
                    if len(keys[0]) == 1:
                        c.event('whole_keys')
                elif r.random() < .3:
                    i = r.choice(ins)
                    keys = [(i, tuple(sorted(j for (a, j) in wu if a == i)))]
                else:
                    keys = pool[:b]
                els = {p for key in keys for p in pairs(key, nl)}
                ff = r.choice(['list', 'list', 'coll', 'scalar'])
                if ff == 'coll':
                    sel = MultiLabelIndexCollection(sorted(els), label_size=nl)
                    cnt = len(els)
                elif ff == 'scalar':
                    sel, keys = keys[0], keys[:1]
                    els = set(pairs(keys[0], nl))
                    cnt = 1
                else:
                    sel, cnt = list(keys), len(keys)
            else:
                keys = pool[:b]
                ff = r.choice(['list', 'array', 'coll', 'scalar'])
                if ff == 'scalar':
                    keys = keys[:1]
                sel = keys[0] if ff == 'scalar' else np.array(keys) if ff == 'array' else IndexCollection(keys) if ff == 'coll' else list(keys)
                els, cnt = set(keys), len(keys)
            frozen = freeze(sel) if isinstance(sel, (list, np.ndarray, IndexCollection, MultiLabelIndexCollection)) else (freeze(sel),)
            perf = r.randint(0, 100) / 100
            ck = r.choice(['none', 'scalar', 'list', 'array'])
            cl = [r.randint(0, 12) / 4 for _ in range(cnt)]
            cost = None if ck == 'none' else cl[0] if ck == 'scalar' else list(cl) if ck == 'list' else np.array(cl)
            label = r.choice([None, [1] * cnt, np.arange(cnt)])
            extra = {'note': [1, 2, step]} if r.random() < .4 else {}
            rec = dict(sel=frozen, els=els, n=cnt, cost=None if cost is None else float(np.sum(cost)), perf=perf,
                       label=None if label is None else freeze(label), extra={k2: freeze(v) for k2, v in extra.items()})
            if r.random() < .15:
                d = dict(select_index=sel, performance=perf, queried_info='yes')
                if cost is not None:
                    d['cost'] = cost
                if label is not None:
                    d['queried_label'] = label
                d.update(extra)
                sio.add_state(d)
                c.event('dict_state')
            else:
                st = State(sel, perf, queried_label=label, cost=cost)
                for k2, v in extra.items():
                    st.add_element(k2, v)
                sio.add_state(st)
                if r.random() < .5:          # the caller goes on using its objects
                    st.add_element('performance', -1)
                    if isinstance(st.get_value('select_index'), list):
                        st.get_value('select_index').append('junk')
                    c.event('caller_mutated')
            if isinstance(sel, list):
                sel.append('junk')
            elif isinstance(sel, np.ndarray):
                sel[:] = sel[0]
            elif isinstance(sel, (IndexCollection, MultiLabelIndexCollection)):
                sel.discard(sorted(els)[0])
            if isinstance(cost, list):
                cost[0] += 100
            for v in extra.values():
                v.append(9)
            m.states.append(rec)
            c.event('appended')
            c.note('add', keys, ff)
            if els == wu:
                c.event('exhausted')
        elif op == 'pop' and m.states:
            i = r.choice([None, -1, 0, r.randrange(len(m.states))])
            st = sio.pop() if i is None else sio.pop(i)
            want = m.states.pop(-1 if i is None else i)
            c.eq(freeze(st.get_value('select_index')), want['sel'], 'popped-state')
            c.event('popped')
            c.note('pop', i)
        elif op == 'recover':
            k = r.choice([None, r.randint(0, len(m.states))])
            train_g, test_g, Lg, Ug = sio.recover_workspace() if k is None else sio.recover_workspace(k)
            if k is not None:
                m.states = m.states[:k]
            wl, wu2 = m.at(len(m.states))
            c.eq(list(train_g), m.train, 'recover-train')
            c.eq(list(test_g), m.test, 'recover-test')
            c.eq(content(Lg), sorted(wl), 'recover-labeled', '', k=k)
            c.eq(content(Ug), sorted(wu2), 'recover-unlabeled', '', k=k)
            for v in sorted(wu2)[:2]:          # the caller goes on with the recovered sets
                Ug.discard(v)
                Lg.add(v)
            c.event('truncated')
            c.note('recover', k)
        elif op == 'reload':
            sio.set_initial_point(0.25)
            sio.save()
            if sp is None:
                c.check(not os.listdir(scr), 'saved-without-path')
            else:
                path = sp if sp.endswith('.pkl') else os.path.join(sp, 'AL_round_%d.pkl' % sio.round)
                c.check(os.path.isfile(path), 'not-saved', '', sp=sp)
                sio = StateIO.load(path)
                c.eq(sio.initial_point, 0.25, 'initial-point-lost')
                c.event('reloaded')
        elif op == 'copy':
            other = copy.deepcopy(sio)
            if len(other):
                other.pop(0)
                other.recover_workspace(0)
            other.add_state(State(select_index=[], performance=0.))
            c.event('copied')
        elif op == 'mutate':
            # objects the caller handed over at construction
            for a in (arg_train, arg_test):
                if isinstance(a, list):
                    a.append('junk')
                elif len(a):
                    a[:] = a[0]
            for a in (arg_L, arg_U):
                if isinstance(a, (IndexCollection, MultiLabelIndexCollection)):
                    for v in content(a)[:1]:
                        a.discard(v)
                elif isinstance(a, list):
                    del a[:1]
                elif len(a):
                    a[:] = a[0]
            c.event('caller_mutated')
        elif op == 'bad':
            bad_iterations(c, sio)
        ops.append(op)
        observe(c, sio, m)
    observe(c, sio, m, final=True)
    c.covered((multi, n, nl, len(L), len(U), ops), len(m.states) >= 2 and any(o != 'add' for o in ops))


@R.family('single', 900, 20000, 'single-label logs')
def single(c):
    history(c, False)


@R.family('multi', 900, 20000, 'multi-label and feature logs with whole-instance, grouped and single-pair selections')
def multi(c):
    history(c, True)


@R.family('state', 500, 8000, 'State objects: critical entries stay, other entries can be replaced and removed')
def state(c):
    r = c.rng
    sel = [r.randint(0, 9) for _ in range(r.randint(1, 4))]
    perf = r.choice([0.5, [0.1, 0.2], np.array([0.3, 0.4])])
    cost = r.choice([None, 2, [1, 2]])
    label = r.choice([None, [1, 2], 'x'])
    arg = list(sel)
    st = State(arg, perf, queried_label=label, cost=cost)
    fz = (freeze(sel), freeze(perf), freeze(label), freeze(cost))
    arg.append(99)
    if isinstance(perf, (list, np.ndarray)):
        perf[0] = 77
    if isinstance(label, list):
        label.append(5)
    if isinstance(cost, list):
        cost.append(5)

    def see():
        return (freeze(st['select_index']), freeze(st['performance']), freeze(st['queried_label']) if 'queried_label' in st.keys() else None,
                freeze(st['cost']) if 'cost' in st.keys() else None)
    c.eq(see(), fz, 'state:aliases-caller')
    c.eq(st.batch_size, len(sel), 'state:batch')
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        for k in ('select_index', 'performance', 'cost'):
            st.del_element(k)
        st.del_element('nothing')
    c.eq(len(w), 4, 'state:silent-delete')
    c.eq(see(), fz, 'state:critical-deleted')
    v = [1, [2]]
    st.add_element('k', v)
    v[1].append(3)
    c.eq(st['k'], [1, [2]], 'state:element-aliases-caller')
    st['k'] = 5
    c.eq(st.get_value('k'), 5, 'state:setitem')
    st.set_value('k', 6)
    c.eq(st['k'], 6, 'state:set_value')
    st.del_element('k')
    c.check('k' not in st.keys(), 'state:delete')
    c.raises(KeyError, lambda: st.set_value('k', 1), 'state:set-unknown-accepted')
    c.raises(KeyError, lambda: st.get_value('k'), 'state:get-unknown-accepted')
    c.eq(State([], 0.5).batch_size, 0, 'state:empty-batch')
    one = State(7, 0.5)
    c.eq(freeze(one['select_index']), (7,), 'state:scalar')
    c.covered((sel, str(perf), cost, label), True)
