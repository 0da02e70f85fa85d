"""C12: oracles answer with the truth, in order, at the right cost; oracle sets account for every query."""
import copy
import os

import numpy as np

from alipy.oracle import oracle as om
from alipy.oracle.oracle import Oracle, OracleQueryInstance, OracleQueryMultiLabel, OracleQueryFeatures, Oracles
from alipy.index.index_collections import IndexCollection, MultiLabelIndexCollection
from rv.core import Registry

R = Registry('C12', 'Random label/cost/example tables and histories of queries (single, list, array, collection, repeated, '
                    'unknown), knowledge additions and multi-oracle queries next to reference tables and a reference ledger. '
                    'Non-trivial: at least one query with several items was answered.',
             require=('answered', 'answered_by_example', 'unknown_rejected', 'added', 'ml_answered', 'ledger', 'ragged_cost',
                      'random_oracle', 'reloaded', 'rejections_observed', 'spoiled', 'same_keys_again'))


def it(x):
    return x.item() if isinstance(x, np.generic) else x


def gen_names(r, n):
    k = r.choice(['default', 'int', 'str', 'shuffled'])
    if k == 'default':
        return None, list(range(n))
    if k == 'int':
        v = [10 * i + 3 for i in range(n)]
    elif k == 'str':
        v = ['id%d' % i for i in range(n)]
    else:
        v = list(range(n))
        r.shuffle(v)
    return v, v


def container(c, ids):
    f = c.rng.choice(['list', 'list', 'array', 'coll', 'nplist'])
    if f == 'array':
        return list(np.array(ids)) and np.array(ids), ids
    if f == 'nplist' and ids and isinstance(ids[0], int):
        return [np.int64(i) for i in ids], ids
    if f == 'coll' and ids:
        col = IndexCollection(list(dict.fromkeys(ids)))
        return col, [it(i) for i in col]
    return list(ids), ids


def same(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b))


@R.family('single', 1500, 30000, 'Oracle / OracleQueryInstance histories')
def single(c):
    r = c.rng
    n = r.randint(1, 8)
    kind = r.choice(['int', 'str', 'float', 'multi'])
    mk = {'int': lambda: r.randint(-2, 4), 'str': lambda: r.choice('abcd'), 'float': lambda: r.choice([0.5, 1.25, -3.0]),
          'multi': lambda: [r.randint(0, 1) for _ in range(3)]}[kind]
    labels = [mk() for _ in range(n)]
    names, ids = gen_names(r, n)
    hasc, hase = r.random() < .6, r.random() < .6
    cost = [r.choice([1, 2, 0.5, 7, 0]) for _ in range(n)] if hasc else None
    ex = [[float(i), r.choice([0.0, 1.5])] for i in range(n)] if hase else None
    arr = r.random() < .5
    cls = r.choice([Oracle, OracleQueryInstance])
    given = [np.array(labels) if arr or kind == 'multi' else list(labels), np.array(ex) if hase and arr else copy.deepcopy(ex), copy.copy(names),
             np.array(cost) if hasc and arr else copy.copy(cost)]
    o = cls(given[0], examples=given[1], indexes=given[2], cost=given[3])
    c.spoil(*given)
    tab = {ids[i]: (labels[i], cost[i] if hasc else 1) for i in range(n)}
    exa = {tuple(ex[i]): ids[i] for i in range(n)} if hase else {}
    nt = False
    for step in range(r.randint(2, 10)):
        op = r.choice(['query', 'query', 'query', 'one', 'unknown', 'mixed', 'example', 'badexample', 'add', 'addmany', 'badadd', 'reload', 'keys'])
        known = list(tab)
        if op in ('query', 'one'):
            q = [r.choice(known) for _ in range(r.choice([1, 2, 3, 6]))]
            if op == 'one':
                q = q[:1]
                arg, order = q[0], q
            else:
                arg, order = container(c, q)
            c.note('query', arg)
            ans, cs = o.query_by_index(arg)
            c.eq(len(ans), len(order), 'answer-count', 'not one answer per item', asked=order, got=ans)
            c.eq(len(cs), len(order), 'cost-count', 'not one cost per item', asked=order, got=cs)
            for k, i in enumerate(order):
                c.check(same(ans[k], tab[i][0]), 'answer', 'wrong label', index=i, got=ans[k], want=tab[i][0], asked=order)
                c.check(float(cs[k]) == float(tab[i][1]), 'cost', 'wrong cost', index=i, got=cs[k], want=tab[i][1])
            c.event('answered', len(order))
            nt |= len(order) > 1
            c.spoil(ans, cs, arg)
        elif op in ('unknown', 'mixed'):
            u = r.choice([-7, 999, 'nobody'])
            arg = [u] if op == 'unknown' else [r.choice(known), u]
            try:
                ans, cs = o.query_by_index(r.choice([arg, u]) if op == 'unknown' else arg)
            except KeyError:
                c.event('rejections_observed')
            else:
                c.check(len(ans) == len(arg) - 1 or len(ans) == len(arg) and ans[-1] is None, 'unknown-answered', 'an unknown index was answered', index=u, got=ans)
            c.event('unknown_rejected')
        elif op == 'example':
            if not hase:
                c.raises(Exception, lambda: o.query_by_example([[0.0, 0.0]]), 'noexample', 'an oracle without examples answered by example')
                continue
            q = [list(r.choice(list(exa))) for _ in range(r.choice([1, 2, 4]))]
            if len(q) == 1 and r.random() < .5:
                arg = q[0]
            else:
                arg = np.array(q) if r.random() < .5 else q
            c.note('query_by_example', arg)
            ans, cs = o.query_by_example(arg)
            c.eq(len(ans), len(q), 'answer-count', 'not one answer per example')
            for k, e in enumerate(q):
                want = tab[exa[tuple(e)]]
                c.check(same(ans[k], want[0]) and float(cs[k]) == float(want[1]), 'example-answer', 'wrong answer for an example', example=e, got=(ans[k], cs[k]), want=want)
            c.event('answered_by_example', len(q))
            c.spoil(ans, cs, arg)
        elif op == 'badexample':
            if hase:
                try:
                    ans, _ = o.query_by_example([[123.0, 456.0]])
                except KeyError:
                    c.event('unknown_rejected')
                else:
                    c.check(len(ans) == 0, 'unknown-answered', 'an unknown example was answered', got=ans)
        elif op in ('add', 'addmany'):
            m = 1 if op == 'add' else r.randint(2, 3)
            new = []
            for _ in range(m):
                base = len(tab) + 100 + step * 5 + len(new)
                new.append(('new%d' % base if ids and isinstance(ids[0], str) else base) if r.random() < .7 else r.choice(known))
            new = list(dict.fromkeys(new))
            m = len(new)
            labs = [mk() for _ in new]
            cs = [r.choice([3, 4, 0.25]) for _ in new]
            es = [[float(1000 + step * 10 + j), 2.0] for j in range(m)]
            kw = {}
            if hasc:
                kw['cost'] = cs if m > 1 or r.random() < .5 else cs[0]
            if hase:
                kw['examples'] = es if m > 1 or r.random() < .5 else es[0]
            c.note('add', new, labs, kw)
            if m == 1 and r.random() < .5:
                if kind == 'multi':
                    o.add_knowledge(np.array(labs[0]), new[0], **kw)
                else:
                    o.add_knowledge(labs[0], new[0], **kw)
            else:
                o.add_knowledge(np.array(labs) if kind == 'multi' or r.random() < .5 else labs, new, **kw)
            for j, i in enumerate(new):
                tab[i] = (labs[j], cs[j] if hasc else 1)
                if hase:
                    exa[tuple(es[j])] = i
            c.event('added')
        elif op == 'badadd':
            u = 5000 + step
            if kind != 'multi':
                bad = {'int': 'zz', 'str': 3, 'float': 'zz'}[kind]
                c.raises(TypeError, lambda: o.add_knowledge(bad, u, **dict({'cost': 1} if hasc else {}, **({'examples': [9.0, 9.0 + step]} if hase else {}))), 'badlabel', 'a label of another type was accepted', label=bad)
            lab = np.array(labels[0]) if kind == 'multi' else labels[0]
            if hasc:
                c.raises(Exception, lambda: o.add_knowledge(lab, u, **({'examples': [8.0, 8.0 + step]} if hase else {})), 'nocost', 'knowledge without its cost was accepted')
            if hase:
                c.raises(Exception, lambda: o.add_knowledge(lab, u, **({'cost': 1} if hasc else {})), 'noexample-add', 'knowledge without its example was accepted')
            c.raises(ValueError, lambda: o.add_knowledge([labels[0]] * 3, [u, u + 1], **dict({'cost': [1, 1]} if hasc else {}, **({'examples': [[1., 1.], [2., 2.]]} if hase else {}))), 'lenadd', 'different lengths accepted')
        elif op == 'reload':
            if r.random() < .4:
                d = c.scratch()
                o.save_oracle(d)
                p = os.path.join(d, 'oracle.pkl')
                c.check(os.path.isfile(p), 'saved', 'saving into a directory left no oracle.pkl', found=os.listdir(d))
            else:
                p = os.path.join(c.scratch(), 'o.pkl')
                o.save_oracle(p)
            o = cls.load_oracle(p)
            c.event('reloaded')
        if c.look():
            c.eq(set(it(k) for k in o.index_keys), set(tab), 'keys', 'known indexes differ')
    c.eq(set(it(k) for k in o.index_keys), set(tab), 'keys', 'known indexes differ')
    for k in tab:
        ans, cs = o.query_by_index(k)
        c.check(len(ans) == 1 and same(ans[0], tab[k][0]) and float(cs[0]) == float(tab[k][1]), 'answer', 'wrong answer at the end of the history', index=k, got=(ans, cs), want=tab[k])
    c.covered((kind, n, names, hasc, hase, cls.__name__, c.seed), nt)
    if r.random() < .3 and n > 1:
        c.raises(ValueError, lambda: Oracle(labels, indexes=list(range(n + 1))), 'len', 'different lengths accepted')
        c.raises(ValueError, lambda: Oracle(labels, cost=[1] * (n - 1)), 'len', 'different lengths accepted')


def ml_keys(c, ids, L, k):
    r = c.rng
    keys, want = [], []
    for _ in range(k):
        i = r.choice(ids)
        kind = r.choice(['whole', 'pair', 'list', 'tuple'])
        if kind == 'whole':
            keys.append((i,))
            want.append((i, list(range(L))))
        elif kind == 'pair':
            l = r.randrange(L)
            keys.append((i, l))
            want.append((i, [l]))
        else:
            ls = r.sample(range(L), r.randint(1, L))
            keys.append((i, list(ls) if kind == 'list' else tuple(ls)))
            want.append((i, ls))
    return keys, want


@R.family('multi', 1200, 25000, 'OracleQueryMultiLabel / OracleQueryFeatures histories')
def multi(c):
    r = c.rng
    n, L = r.randint(1, 6), r.randint(1, 5)
    feat = r.random() < .3
    Y = c.nr.randint(0, 2, size=(n, L)) if not feat else np.round(c.nr.randn(n, L), 3)
    names, ids = gen_names(r, n)
    mode = r.choice(['none', 'label', 'fine'])
    if mode == 'label':
        cost = [r.choice([1, 2, 5, 0.5]) for _ in range(L)]
        CT = np.tile(np.array(cost, dtype=float), (n, 1))
        if r.random() < .5:
            cost = np.array(cost)
    elif mode == 'fine':
        CT = np.round(c.nr.rand(n, L) * 9, 2)
        cost = CT.tolist() if r.random() < .5 else CT.copy()
    else:
        cost, CT = None, np.ones((n, L))
    hase = (not feat) and r.random() < .5
    ex = [[float(i), -1.5] for i in range(n)] if hase else None
    if feat:
        given = [Y.tolist() if r.random() < .3 else Y.copy(), None, copy.copy(names), copy.deepcopy(cost)]
        o = OracleQueryFeatures(given[0], indexes=given[2], cost=given[3])
    else:
        given = [Y.tolist() if r.random() < .3 else Y.copy(), copy.deepcopy(ex), copy.copy(names), copy.deepcopy(cost)]
        o = OracleQueryMultiLabel(given[0], examples=given[1], indexes=given[2], cost=given[3])
    c.spoil(*given)
    tab = {ids[i]: (Y[i].tolist(), CT[i].tolist()) for i in range(n)}
    exa = {tuple(ex[i]): ids[i] for i in range(n)} if hase else {}
    nt = False

    def compare(res, want, what):
        ans, cs = res
        c.eq(len(ans), len(want), 'ml-count', 'not one answer per key', what=what)
        c.eq(len(cs), len(want), 'ml-cost-count', 'not one cost per key', what=what)
        for k, (i, ls) in enumerate(want):
            c.eq([it(v) for v in np.ravel(ans[k])], [tab[i][0][l] for l in ls], 'ml-answer', 'wrong entries returned', key=(i, ls), what=what)
            c.eq([float(v) for v in np.ravel(cs[k])], [float(tab[i][1][l]) for l in ls], 'ml-cost', 'wrong costs returned', key=(i, ls), what=what)
        c.event('ml_answered', len(want))
        c.spoil(ans, cs)

    for step in range(r.randint(2, 8)):
        op = r.choice(['query', 'query', 'one', 'coll', 'unknown', 'oob', 'example', 'add', 'dup', 'badadd'])
        known = list(tab)
        if op == 'query':
            keys, want = ml_keys(c, known, L, r.randint(1, 5))
            c.note('query', keys)
            compare(o.query_by_index(keys), want, keys)
            c.spoil(keys)
            nt |= len(want) > 1
        elif op == 'one':
            keys, want = ml_keys(c, known, L, 1)
            compare(o.query_by_index(keys[0]), want, keys)
        elif op == 'coll':
            keys, want = ml_keys(c, known, L, 3)
            col = MultiLabelIndexCollection(keys, label_size=L)
            order = list(col)
            compare(o.query_by_index(col), [(t[0], [t[1]]) for t in order], order)
        elif op == 'unknown':
            u = r.choice([-7, 999, 'nobody'])
            for arg in ([(u,)], (u, 0), [(r.choice(known), 0), (u, 0)]):
                try:
                    ans, cs = o.query_by_index(arg)
                except KeyError:
                    pass
                else:
                    c.check(len(ans) < (len(arg) if isinstance(arg, list) else 1), 'unknown-answered', 'an unknown index was answered', arg=arg, got=ans)
                c.event('unknown_rejected')
        elif op == 'oob':
            i = r.choice(known)
            c.raises((AssertionError, ValueError, IndexError, KeyError), lambda: o.query_by_index((i, L)), 'oob', 'out-of-range label answered', L=L)
            c.raises((AssertionError, ValueError, IndexError, KeyError), lambda: o.query_by_index((i, -1)), 'oob', 'negative label answered')
            # a list of labels: an entry outside the range is never answered with another entry
            inside = r.sample(range(L), r.randint(0, L))
            mixed = inside + [r.choice([-1, -L, L, L + 3])]
            r.shuffle(mixed)
            inside = [l for l in mixed if 0 <= l < L]
            try:
                ans, cs = o.query_by_index((i, mixed))
            except (AssertionError, ValueError, IndexError, KeyError):
                c.event('rejections_observed')
            else:
                c.eq([it(v) for v in np.ravel(ans[0])], [tab[i][0][l] for l in inside], 'oob', 'an out-of-range label was answered', asked=mixed, L=L)
                c.eq([float(v) for v in np.ravel(cs[0])], [float(tab[i][1][l]) for l in inside], 'oob-cost', 'an out-of-range label was charged', asked=mixed, L=L)
            c.raises(ValueError, lambda: o.query_by_index([(i, 0, 0)]), 'malformed', 'malformed key answered')
            c.raises(TypeError, lambda: o.query_by_index([i]), 'malformed', 'malformed key answered')
        elif op == 'example' and not feat:
            if not hase:
                c.raises(Exception, lambda: o.query_by_example([([0., 0.],)]), 'noexample', 'an oracle without examples answered by example')
                continue
            keys, want = ml_keys(c, known, L, r.randint(1, 3))
            inv = {v: k for k, v in exa.items()}
            q = [(np.array(inv[k[0]]) if r.random() < .5 else list(inv[k[0]]),) + tuple(k[1:]) for k in keys]
            c.note('query_by_example', q)
            compare(o.query_by_example(q if len(q) > 1 or r.random() < .5 else q[0]), want, q)
            c.event('answered_by_example')
        elif op == 'add':
            i = 'n%d' % step if isinstance(ids[0], str) else 500 + step
            lab = [r.randint(0, 1) for _ in range(L)]
            kw = {}
            cs = [float(r.choice([1, 3, 0.5])) for _ in range(L)]
            if mode == 'fine' or (mode == 'label' and r.random() < .5):
                kw['cost'] = [cs] if r.random() < .5 else (np.array([cs]) if r.random() < .5 else cs if L > 1 else [cs])
            elif mode == 'label':
                cs = [float(v) for v in cost]
            else:
                cs = [1.0] * L
            e = [float(700 + step), 0.0]
            if hase:
                kw['examples'] = [e]
            c.note('add', i, lab, kw)
            o.add_knowledge([lab] if r.random() < .5 or L == 1 else np.array(lab), [i] if r.random() < .5 else i, **kw)
            tab[i] = (lab, cs)
            if hase:
                exa[tuple(e)] = i
            c.event('added')
        elif op == 'dup':
            i = r.choice(known)
            kw = {}
            if hase:
                kw['examples'] = [[800.0 + step, 1.0]]
            if mode == 'fine':
                kw['cost'] = [[9.0] * L]
            try:
                o.add_knowledge([[1 - int(bool(v)) for v in tab[i][0]]], [i], **kw)     # documented: an existing entry is kept
            except Exception:
                pass
        elif op == 'badadd' and L > 1:
            c.raises(ValueError, lambda: o.add_knowledge([[0] * (L + 1)], [9000 + step], **dict({'cost': [[1.] * L]} if mode != 'none' else {}, **({'examples': [[1., 2.]]} if hase else {}))), 'dim', 'a label vector of another length was accepted')
        c.eq(set(it(k) for k in o.index_keys), set(tab), 'keys', 'known indexes differ')
        k = r.choice(list(tab))
        if c.look():
            compare(o.query_by_index((k,)), [(k, list(range(L)))], 'probe')
    for k in tab:
        compare(o.query_by_index((k,)), [(k, list(range(L)))], 'probe')
    c.covered((n, L, mode, hase, feat, c.seed), nt)


def parse_table(s):
    rows = [[x.strip() for x in line.strip().strip('|').split('|')] for line in s.splitlines() if line.startswith('|')]
    return rows


@R.family('ledger', 900, 20000, 'Oracles: routing, history and accumulated cost over mixed histories with rejected queries')
def ledger(c):
    r = c.rng
    n, L = r.randint(2, 6), r.randint(2, 4)
    ml = r.random() < .5
    O = Oracles()
    tabs = {}
    names = ['o%d' % i for i in range(r.randint(1, 4))]
    for nm in names:
        if ml:
            Y = c.nr.randint(0, 2, size=(n, L))
            C = np.round(c.nr.rand(n, L) * 5, 2) if r.random() < .7 else None
            o = OracleQueryMultiLabel(Y, cost=C)
            tabs[nm] = (Y, np.ones((n, L)) if C is None else C)
        else:
            Y = c.nr.randint(0, 9, size=n)
            C = c.nr.randint(0, 9, size=n) if r.random() < .7 else None
            o = Oracle(Y, cost=C)
            tabs[nm] = (Y, np.ones(n) if C is None else C)
        c.check(O.add_oracle(nm, o) is O, 'add-self', 'add_oracle does not return the set')
        c.check(O.get_oracle(nm) is o and O[nm] is o, 'get', 'another oracle under this name', name=nm)
    c.eq(len(O), len(names), 'len', 'wrong number of oracles')
    c.eq(list(O.names()), names, 'names', 'wrong oracle names')
    total, hist = 0.0, []
    count, spent = {k: 0 for k in names}, {k: 0.0 for k in names}
    drawn = set()
    steps, keys = r.randint(2, 12), None
    for step in range(steps):
        bad = r.random() < .2
        if ml:
            new = ml_keys(c, list(range(n)), L, r.randint(1, 4))
        else:
            new = [r.randrange(n) for _ in range(r.randint(1, 4))]
            new = (new, [(i, [0]) for i in new])
        if step and not bad and keys is not None and r.random() < .3:
            c.event('same_keys_again')              # the very same list object
        else:
            keys, want = new
        if bad:
            keys = list(keys) + [(n + 5,) if ml else n + 5]
        mode = r.choice(['from', 'from_s', 'from_s_all', 'from_random'])
        if mode == 'from':
            asked = [r.choice(names)]
            call = lambda: [O.query_from(keys, oracle_name=asked[0])]
        elif mode == 'from_random':
            asked = None
            call = lambda: [O.query_from(keys)]
        elif mode == 'from_s':
            asked = r.sample(names, r.randint(1, len(names)))
            named = list(asked)
            call = lambda: O.query_from_s(keys, oracles_name=named)
        else:
            asked = list(names)
            call = lambda: O.query_from_s(keys)
        c.note(mode, asked, keys)
        if bad:
            c.raises(KeyError, call, 'bad-accepted', 'a query for an unknown item was answered')
            keys = None
        else:
            res = call()
            if mode == 'from_random':
                asked = list(O.query_history[-1][0])
                c.check(len(asked) == 1 and asked[0] in names, 'random-name', 'a random query names no single oracle', got=asked)
                drawn.add(asked[0])
                c.event('random_oracle')
            c.eq(len(res), len(asked), 'result-count', 'not one result per oracle')
            for nm, (ans, cs) in zip(asked, res):
                Y, C = tabs[nm]
                c.eq(len(ans), len(want), 'answer-count', 'not one answer per item')
                for k, (i, ls) in enumerate(want):
                    wl = Y[i][ls].tolist() if ml else [Y[i]]
                    wc = C[i][ls].tolist() if ml else [C[i]]
                    c.check(np.ravel(ans[k]).tolist() == [it(v) for v in wl], 'routing', 'the answer is not that of the named oracle', oracle=nm, key=(i, ls), got=ans[k], want=wl)
                    c.close(np.ravel(cs[k]), wc, 'routing-cost', 'the cost is not that of the named oracle', oracle=nm)
                    total += float(np.sum(wc))
                    spent[nm] += float(np.sum(wc))
                count[nm] += 1
            if len({len(w[1]) for w in want}) > 1:
                c.event('ragged_cost')
            hist.append((list(asked), copy.deepcopy(keys), copy.deepcopy(res)))
            if r.random() < .3:
                if mode == 'from_s' and r.random() < .5:
                    named.append('junk')
                c.spoil(*[v for pair in res for v in pair])
                if r.random() < .5:
                    keys.append(keys[0])
                    keys = None
        if not c.look(final=step == steps - 1):
            continue
        c.close(O.cost_inall, total, 'total', 'accumulated cost is not the sum of what was answered', tol=1e-6)
        c.eq(len(O.query_history), len(hist), 'history-len', 'history does not hold exactly the answered queries')
        for (nm, res_h, idx), (wn, wk, wr) in zip(O.query_history, hist):
            c.eq((list(nm), repr(list(idx))), (wn, repr(wk)), 'history', 'history entry differs')
            c.eq(repr(list(res_h)), repr(list(wr)), 'history-res', 'history entry holds other results')
        c.event('ledger')
    rows = {row[0]: row[1:] for row in parse_table(repr(O))[1:]}
    for nm in names:
        c.check(nm in rows and int(rows[nm][0]) == count[nm] and abs(float(rows[nm][1]) - spent[nm]) < 1e-6, 'summary', 'the printed per-oracle summary differs from the ledger', got=rows, count=count, spent=spent)
    last = {row[0]: row[-1] for row in parse_table(O.full_history()) if row and row[0] in names}
    for nm in names:
        c.eq(int(last[nm]), count[nm], 'full-history', 'the printed history counts differ', got=last)
    c.raises(AssertionError, lambda: O.add_oracle('x', 3), 'notoracle', 'something else than an oracle was added')
    c.covered((ml, n, L, len(names), hist), len(hist) > 1)
