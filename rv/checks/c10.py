"""C10: cost-sensitive selection respects the budget and finds the promised optimum; hierarchy marking is the closure."""
import itertools

import numpy as np
from sklearn.svm import SVC

from alipy.index.index_collections import MultiLabelIndexCollection
from alipy.oracle import Oracle
from alipy.query_strategy.cost_sensitive import (QueryCostSensitiveHALC, QueryCostSensitivePerformance, QueryCostSensitiveRandom,
                                                 hierarchical_multilabel_mark, select_Knapsack_01, select_POSS)
from rv.core import Registry

R = Registry('C10', 'Knapsack and POSS instances against enumeration of all subsets; random label forests and DAGs against the closure '
                    'computed from the definition; query loops that move what was selected, under generated costs and budgets, until the '
                    'pool is empty. Non-trivial: the capacity binds (some but not all items fit), the closure adds something, a loop '
                    'selects strictly inside the pool.',
             require=('reach', 'another_fold', 'knapsack', 'binding', 'zero_cost', 'tied_worth', 'float_capacity', 'poss', 'poss_nonempty', 'marks', 'closure_two_steps',
                      'already_labeled', 'selections', 'budget_binds', 'exhausted', 'oracle_cost', 'array_cost', 'default_cost',
                      'trained_models', 'given_models', 'unaffordable', 'optimal', 'halc_optimal', 'maximal', 'weights', 'uncovered_entries'))


def give(c, E, n, nl, forms=('coll', 'tuples', '1d')):
    f = c.rng.choice(forms)
    if f == 'coll' or not E:
        return MultiLabelIndexCollection(list(E), label_size=nl)
    if f == 'tuples':
        return list(E)
    ids = [i + j * n for i, j in E]
    return np.array(ids) if c.rng.random() < .5 else ids


def snap(v):
    return v.tobytes() if isinstance(v, np.ndarray) else [k for k in v]


def best_of(v, w, cap):
    best = 0.
    for bits in itertools.product((0, 1), repeat=len(v)):
        if sum(b * x for b, x in zip(bits, w)) <= cap:
            best = max(best, sum(b * x for b, x in zip(bits, v)))
    return best


@R.family('knapsack', quick=1500, thorough=12000)
def knapsack(c):
    r = c.rng
    n = r.randint(0, 9)
    kind = r.choice(['int', 'real', 'tied', 'mixed', 'small'])
    v = {'int': lambda: [r.randint(0, 9) for _ in range(n)], 'real': lambda: [r.random() * 5 for _ in range(n)],
         'tied': lambda: [r.choice([1, 2]) for _ in range(n)], 'mixed': lambda: [r.uniform(-3, 5) for _ in range(n)],
         'small': lambda: [r.random() * 1e-6 for _ in range(n)]}[kind]()
    w = [r.randint(0 if r.random() < .3 else 1, r.choice([3, 8, 15])) for _ in range(n)]
    cap = r.choice([0, 1, r.randint(0, 30), sum(w), max(0, sum(w) - 1)])
    capx = cap
    if r.random() < .3:
        capx = cap + r.choice([0., .5, .9])
        c.event('float_capacity')
    how = r.choice([list, tuple, np.array])
    V, W = how(v), (np.array(w, dtype=r.choice([int, float])) if how is np.array else how(w))
    s = (list(V), list(W))
    val, flag = select_Knapsack_01(V, W, capx)
    c.event('knapsack')
    c.event('zero_cost', 0 in w)
    c.event('tied_worth', len(set(v)) < n)
    c.check((list(V), list(W)) == s, 'Knapsack:input-modified', '')
    flag = np.asarray(flag)
    c.eq(flag.shape, (n,), 'Knapsack:flags', '')
    c.check(set(flag.tolist()) <= {0, 1}, 'Knapsack:flags', '', flag=flag)
    cost = sum(x for x, f in zip(w, flag) if f)
    got = sum(x for x, f in zip(v, flag) if f)
    c.check(cost <= capx, 'Knapsack:over-capacity', 'the selected items fit', cost=cost, cap=capx, v=v, w=w)
    c.close(val, got, 'Knapsack:value-is-not-that-of-the-selection', '', tol=1e-12 if kind == 'small' else 1e-9, v=v, w=w, cap=cap, flag=flag)
    want = best_of(v, w, capx)
    c.close(got, want, 'Knapsack:not-optimal', 'no subset within the capacity is worth more', tol=1e-14 if kind == 'small' else 1e-9,
            v=v, w=w, cap=cap, flag=flag)
    binding = bool(w) and min(w) <= cap < sum(w)
    c.event('binding', binding)
    c.covered((tuple(v), tuple(w), capx), binding)


@R.family('poss', quick=70, thorough=1200)
def poss(c):
    r = c.rng
    n = r.randint(1, 6)
    np.random.seed(r.randrange(10 ** 6))
    v = [-r.randint(1, 9) if r.random() < .5 else -r.random() * 5 - .1 for _ in range(n)]
    w = [r.randint(1, r.choice([3, 6, 15])) for _ in range(n)]
    b = r.choice([0, 1, 2, 4, 6, 8, 10])
    bx = b + .5 if r.random() < .2 else b
    how = r.choice([list, np.array])
    V, W = how(v), how(w)
    val, flag = select_POSS(V, W, bx)
    c.event('poss')
    c.check(list(V) == v and list(W) == w, 'POSS:input-modified', '')
    flag = np.asarray(flag)
    c.check(flag.shape == (n,) and set(flag.tolist()) <= {0, 1}, 'POSS:flags', '', flag=flag)
    cost = sum(x for x, f in zip(w, flag) if f)
    got = sum(x for x, f in zip(v, flag) if f)
    c.check(cost <= bx, 'POSS:over-budget', 'a feasible subset', cost=cost, budget=bx, v=v, w=w, flag=flag)
    if flag.any():
        c.event('poss_nonempty')
        c.close(val, got, 'POSS:value-is-not-that-of-the-selection', '')
    want = -best_of([-x for x in v], w, bx)
    if b >= 4 and want < 0:
        # 2 e k^2 n iterations promise at least (1 - 1/e) of the optimum in expectation; half of it leaves room for bad luck
        c.check(got <= .5 * want, 'POSS:far-from-optimal', 'the iterations the method runs find a good subset', got=got, best=want, v=v,
                w=w, budget=bx)
    c.covered((tuple(v), tuple(w), bx), 0 < sum(x <= b for x in w) and sum(w) > b)


def tree(c, nl):
    """parent->child matrix without cycles; forests, chains and DAGs over a random order of the labels"""
    r = c.rng
    order = r.sample(range(nl), nl)
    T = np.zeros((nl, nl), dtype=r.choice([int, float]))
    kind = r.choice(['forest', 'forest', 'chain', 'dag', 'none', 'star'])
    for k in range(1, nl):
        if kind == 'chain':
            T[order[k - 1], order[k]] = 1
        elif kind == 'star':
            T[order[0], order[k]] = 1
        elif kind == 'forest' and r.random() < .8:
            T[order[r.randrange(k)], order[k]] = 1
        elif kind == 'dag':
            for p in range(k):
                if r.random() < .35:
                    T[order[p], order[k]] = 1
    return T


def reach(T, j):
    out, new = set(), {j}
    while new:
        new = {b for a in new for b in range(len(T)) if T[a][b] == 1} - out
        out |= new
    return out - {j}


@R.family('marking', quick=1200, thorough=10000)
def marking(c):
    r, nr = c.rng, c.nr
    n, nl = r.randint(1, 6), r.randint(1, 7)
    T = tree(c, nl)
    y = np.where(nr.rand(n, nl) < .5, 1, -1)
    if r.random() < .2:
        y[nr.rand(n, nl) < .3] = 0      # not known: implies nothing
    every = [(i, j) for i in range(n) for j in range(nl)]
    sel = r.sample(every, r.randint(1, max(1, len(every) // 2)))
    lab = r.sample(every, r.randint(1, max(1, len(every) // 2)))
    if r.random() < .7:
        lab = [e for e in lab if e not in sel] or [every[0]]
    want = set(sel)
    for i, j in sel:
        if y[i, j] == 1:
            rel = {p for p in range(nl) if j in reach(T, p)}
        elif y[i, j] == -1:
            rel = reach(T, j)
        else:
            rel = set()
        direct = {b for b in range(nl) if T[j][b] == 1 or T[b][j] == 1}
        c.event('closure_two_steps', len(rel - direct) > 0)
        new = {(i, b) for b in rel}
        c.event('already_labeled', len(new & set(lab)))
        want |= new - set(lab)
    S, L = give(c, sel, n, nl), give(c, lab, n, nl)
    ss, sl, yc, Tc = snap(S), snap(L), y.copy(), T.copy()
    got = hierarchical_multilabel_mark(S, L, T, y)
    c.event('marks')
    c.check(isinstance(got, MultiLabelIndexCollection), 'mark:type', '', type=type(got).__name__)
    have = {(int(a), int(b)) for a, b in got}
    c.check(have == want, 'mark:not-the-closure', 'ancestors of positive labels and descendants of negative ones, and nothing else',
            missing=sorted(want - have), extra=sorted(have - want), tree=T.astype(int).tolist(), selected=sel, y=y.tolist())
    c.eq(len(list(got)), len(have), 'mark:repeated', '')
    got.add((0, 0)) if (0, 0) not in have else got.discard((0, 0))
    c.check(snap(S) == ss and snap(L) == sl, 'mark:collection-modified', '')
    c.check((y == yc).all() and (T == Tc).all(), 'mark:data-modified', '')
    c.covered((n, nl, tuple(sel), y.tobytes(), T.tobytes()), len(want) > len(sel))


class Rows:
    """A model given by a table over the rows of X."""

    def __init__(self, X, dec):
        self.t = {x.tobytes(): d for x, d in zip(X, dec)}

    def decision_function(self, X):
        return np.array([self.t[np.ascontiguousarray(x).tobytes()] for x in X])

    def predict(self, X):
        return np.where(self.decision_function(X) >= 0, 1, -1)


def trained(X, y, lab, n, nl):
    D = np.zeros((n, nl))
    for j in range(nl):
        tr = sorted(i for i, jj in lab if jj == j)
        D[:, j] = SVC(decision_function_shape='ovr').fit(X[tr], y[tr, j]).decision_function(X)
    return D


def halc_worth(X, y, D, lab, unl, T, weights):
    """Informativeness of Yan & Huang: the (weighted) uncertainty of the entry, doubled when the five nearest instances say the label
    is relevant, and increased by the uncertainty of its unlabeled most specific descendants when they say it is not."""
    lab, unl_set = set(lab), set(unl)
    unc = lambda i, j: weights[j] / abs(D[i, j]) if (i, j) in unl_set else 0.
    W = {}
    for i, j in unl:
        near = sorted(range(len(X)), key=lambda k: ((X[k] - X[i]) ** 2).sum())[:5]
        vote = sum(y[k, j] if (k, j) in lab else (1 if D[k, j] >= 0 else -1) for k in near)
        if vote > 0:
            W[i, j] = 2 * unc(i, j)
        else:
            leaves = [d for d in reach(T, j) | {j} if not T[d].any()]
            W[i, j] = unc(i, j) + sum(unc(i, d) for d in leaves)
    return W


def strategy_loop(c, name):
    r, nr = c.rng, c.nr
    n, nl = r.randint(6, 9), r.randint(2, 4)
    X = nr.randn(n, 2)
    y = np.where(nr.rand(n, nl) < .5, 1, -1)
    # two leading rows are fully labeled and of both classes
    y[0], y[1] = 1, -1
    every = [(i, j) for i in range(2, n) for j in range(nl)]
    out = set(r.sample(every, r.randint(0, len(every) // 3))) if r.random() < .5 else set()      # test entries, in neither set
    c.event('uncovered_entries', len(out))
    lab = [(i, j) for i in (0, 1) for j in range(nl)]
    rest = [e for e in every if e not in out]
    r.shuffle(rest)
    k = r.randint(0, len(rest) // 2)
    lab, unl = lab + rest[:k], rest[k:]
    if not unl:
        unl = [lab.pop()]
    costs = [r.randint(1, r.choice([1, 3, 8])) for _ in range(nl)]
    dec = nr.randn(n, nl)
    dec[np.abs(dec) < 1e-3] = 1e-3
    weights = None
    T = tree(c, nl).astype(int)
    forest = T.sum(axis=0).max() <= 1
    if name == 'HALC':
        if r.random() < .3:
            weights = r.choice([list, np.array])([r.choice([.5, 1, 2]) for _ in range(nl)])
            c.event('weights')
        q = QueryCostSensitiveHALC(X, y, label_tree=T, weights=weights)
    else:
        q = (QueryCostSensitivePerformance if name == 'Performance' else QueryCostSensitiveRandom)(X, y)
    Xc, yc = X.copy(), y.copy()
    orc = Oracle(labels=['l%d' % j for j in range(nl)], cost=list(costs))
    inside = rounds = 0
    np.random.seed(r.randrange(10 ** 6))
    while unl and rounds < (60 if name == 'Random' else 6):
        rounds += 1
        b = r.choice([1, 2, 3, 5, 8, 40, sum(costs)])
        kw, cost = {}, costs
        how = r.choice(['default', 'list', 'array', 'row', 'oracle'])
        if how == 'default':
            cost = [1] * nl
            c.event('default_cost')
        elif how == 'oracle':
            kw['oracle'] = orc
            c.event('oracle_cost')
        else:
            kw['cost'] = {'list': list(costs), 'array': np.array(costs), 'row': np.array([costs])}[how]
            c.event('array_cost', how != 'list')
        ck = np.array(kw['cost']).tolist() if 'cost' in kw else None
        models = None
        if name != 'Random':
            if r.random() < .6:
                models = [Rows(X, dec[:, j]) for j in range(nl)]
                kw['models'] = models
                c.event('given_models')
            else:
                c.event('trained_models')
        L, U = give(c, lab, n, nl), give(c, unl, n, nl)
        if name == 'HALC' and r.random() < .5:
            U = MultiLabelIndexCollection(unl, label_size=nl)
        sl, su = snap(L), snap(U)
        got = q.select(L, U, budget=b, **kw)
        c.event('selections')
        c.check(isinstance(got, list) and all(isinstance(e, tuple) and len(e) == 2 for e in got), name + ':malformed', '', got=got)
        P = [(int(a), int(j)) for a, j in got]
        c.eq(len(P), len(set(P)), name + ':repeated', '', got=P)
        c.check(set(P) <= set(unl), name + ':not-unlabeled', 'only unlabeled entries are queried', extra=sorted(set(P) - set(unl)), how=how,
                budget=b)
        total = sum(cost[j] for _, j in P)
        c.check(total <= b, name + ':over-budget', 'the total cost stays within the budget', total=total, budget=b, cost=cost, how=how)
        left = [e for e in unl if e not in P]
        fits = [e for e in left if cost[e[1]] <= b - total]
        c.event('budget_binds', bool(left))
        c.event('unaffordable', min(cost[j] for _, j in unl) > b)
        if name == 'Random':
            if len(set(cost)) == 1:
                c.check(not fits, 'Random:stopped-early', 'equal costs: the budget is used up or the pool is', left=len(left), total=total,
                        budget=b)
        else:
            c.event('maximal')
            c.check(not fits, name + ':affordable-entry-left-out', 'every entry has a positive worth: one that still fits is taken',
                    fits=fits[:3], total=total, budget=b, cost=cost)
        if name == 'Performance':
            D = dec if models is not None else trained(X, y, lab, n, nl)
            if np.abs(D).min() > 1e-9:
                worth = [abs(1 / D[e]) for e in unl]
                want = knap(worth, [cost[j] for _, j in unl], b)
                mine = sum(abs(1 / D[e]) for e in P)
                c.event('optimal')
                c.close(mine, want, 'Performance:not-the-most-uncertain-subset', 'maximum total uncertainty within the budget',
                        tol=1e-6, budget=b, cost=cost, got=P)
        if name == 'HALC' and forest:
            D = dec if models is not None else trained(X, y, lab, n, nl)
            if np.abs(D).min() > 1e-9:
                W = halc_worth(X, y, D, lab, unl, T, np.ones(nl) if weights is None else np.asarray(weights, dtype=float))
                want = knap([W[e] for e in unl], [cost[j] for _, j in unl], b)
                mine = sum(W[e] for e in P)
                c.event('halc_optimal')
                c.close(mine, want, 'HALC:not-the-most-informative-subset', 'maximum total informativeness within the budget', tol=1e-6,
                        budget=b, cost=cost, got=P, tree=T.tolist())
        c.check(snap(L) == sl and snap(U) == su, name + ':collection-modified', '')
        if ck is not None:
            c.eq(np.array(kw['cost']).tolist(), ck, name + ':cost-modified', '')
        c.check((X == Xc).all() and (y == yc).all(), name + ':data-modified', '')
        inside += 0 < len(P) < len(unl)
        if r.random() < .35:         # another fold: sets of the same sizes
            both = lab[2 * nl:] + unl
            r.shuffle(both)
            cut = len(lab) - 2 * nl
            lab, unl = lab[:2 * nl] + both[:cut], both[cut:]
            c.event('another_fold')
        else:
            lab, unl = lab + P, left
    if not unl:
        c.event('exhausted')
    c.covered((name, X.tobytes(), tuple(costs)), inside > 0)


def knap(v, w, cap):
    best = [0.] * (cap + 1)
    for x, k in zip(v, w):
        for q in range(cap, k - 1, -1):
            best[q] = max(best[q], best[q - k] + x)
    return best[cap]


@R.family('random loop', quick=500, thorough=4000)
def random_loop(c):
    strategy_loop(c, 'Random')


@R.family('performance loop', quick=400, thorough=3000)
def performance_loop(c):
    strategy_loop(c, 'Performance')


@R.family('HALC loop', quick=300, thorough=2000)
def halc_loop(c):
    strategy_loop(c, 'HALC')


@R.family('random reach', quick=16, thorough=100)
def random_reach(c):
    """over many random selections from one pool every affordable entry occurs (a miss has chance < 1e-20)"""
    r = c.rng
    n, nl = 6, r.randint(2, 4)
    U = r.sample([(i, j) for i in range(n) for j in range(nl)], r.randint(2, 7))
    q = QueryCostSensitiveRandom(c.nr.randn(n, 2), np.ones((n, nl), int))
    lab = MultiLabelIndexCollection([(i, j) for i in range(n) for j in range(nl) if (i, j) not in U], label_size=nl)
    budget, seen = r.choice([1, 1, 2]), set()
    for _ in range(60 * len(U)):
        seen |= {(int(i), int(j)) for i, j in q.select(lab, give(c, U, n, nl), budget=budget)}
    c.eq(seen, set(U), 'Random:never-selected', 'some affordable entry is never selected', budget=budget)
    c.event('reach')
    c.covered((n, nl, tuple(U), budget), True)
