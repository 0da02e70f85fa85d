"""C11: noisy-oracle strategies query valid pairs; vote aggregation is a plurality; results ask exactly whom they should."""
import re

import numpy as np
import scipy.stats

from alipy.index.index_collections import IndexCollection
from alipy.oracle import Oracle, Oracles
from alipy.query_strategy.noisy_oracles import (QueryNoisyOraclesAll, QueryNoisyOraclesCEAL, QueryNoisyOraclesIEthresh,
                                                QueryNoisyOraclesRandom, get_majority_vote, get_query_results, majority_vote)
from rv.core import Registry
from rv.lib.models import Centroid

R = Registry('C11', 'Votes over generated answers and weights against a direct tally; collections of results over lists and Oracles of '
                    'recording oracles, compared with the oracles\' tables and with what each was asked; query loops that run the pool '
                    'empty, against the uncertainty, the Q table and the UI scores computed from the definitions. Non-trivial: votes '
                    'with at least two labels, proper subsets of the oracles, loops of several rounds.',
             require=('reach', 'another_fold', 'votes', 'weighted', 'weight_decides', 'tied', 'strings', 'collected', 'list_subset', 'named_subset', 'all_oracles',
                      'history_checked', 'selections', 'last_instance', 'single_oracle', 'ceal_ranked', 'ceal_eval_cost', 'thresholded',
                      'threshold_excludes', 'least_confident', 'as_list', 'as_array', 'as_collection', 'single_initial'))


@R.family('votes', quick=1500, thorough=40000)
def votes(c):
    r = c.rng
    pool = r.choice([[0, 1], [0, 1, 2, 3], ['a', 'b', 'c'], [-1, 1], [True, False], [1.5, 2.5], [np.int64(0), np.int64(1), np.int64(2)]])
    c.event('strings', pool[0] == 'a')
    labs = [r.choice(pool) for _ in range(r.randint(1, 9))]
    w = None
    if r.random() < .5:
        w = [r.choice([1, 2, 3]) if r.random() < .5 else r.random() * 3 + .01 for _ in labs]
        c.event('weighted')
    arg = r.choice([list, list, tuple, np.array])(labs) if pool[0] != 'a' else list(labs)
    wa = w if w is None or r.random() < .5 else np.array(w)
    wl = None if w is None else list(w)
    cnt, res = majority_vote(arg, wa) if w is not None or r.random() < .5 else majority_vote(arg)
    c.event('votes')
    tally, n = {}, {}
    for i, v in enumerate(labs):
        tally[v] = tally.get(v, 0) + (1 if w is None else w[i])
        n[v] = n.get(v, 0) + 1
    c.check(res in tally, 'vote:not-an-answer', 'the result is one of the answers', labels=labs, result=res)
    top = max(tally.values())
    c.check(tally[res] >= top - 1e-9, 'vote:outvoted', 'no label has more votes', labels=labs, weight=w, result=res, tally=tally)
    c.eq(int(cnt), n[res], 'vote:count', 'the number of votes for the result', labels=labs, weight=w)
    c.check(list(arg) == labs and (w is None or list(wa) == wl), 'vote:input-modified', '')
    c.event('tied', sum(abs(t - top) < 1e-9 for t in tally.values()) > 1)
    c.event('weight_decides', w is not None and n[res] < max(n.values()))
    c.covered((tuple(map(str, labs)), None if w is None else tuple(w)), len(tally) > 1)


class Asked(Oracle):
    """An oracle which writes down what it is asked."""
    log = None

    def query_by_index(self, indexes):
        if self.log is not None:
            self.log.append(np.atleast_1d(np.asarray(list(indexes) if isinstance(indexes, IndexCollection) else indexes)).tolist())
        return super(Asked, self).query_by_index(indexes)


def crowd(c, y, k=None, single=.15):
    """k noisy oracles over the labels y, as a list or as Oracles, and the table of their answers and costs"""
    r, nr = c.rng, c.nr
    n = len(y)
    k = k or (1 if r.random() < single else r.randint(2, 5))
    c.event('single_oracle', k == 1)
    classes = sorted(set(y.tolist()))
    orcs, labs, costs = [], [], []
    for _ in range(k):
        f = r.choice([0, .1, .3, .5, 1])
        lab = np.array([r.choice(classes) if r.random() < f else v for v in y.tolist()])
        cost = nr.rand(n) * 3 + .2 if r.random() < .5 else np.full(n, r.choice([.5, 1, 2.]))
        if r.random() < .2:
            cost = None
        o = Asked(labels=lab) if cost is None else Asked(labels=lab, cost=cost)
        o.log = []
        orcs.append(o)
        labs.append(lab)
        costs.append(np.ones(n) if cost is None else cost)
    if r.random() < .5:
        return orcs, list(range(k)), orcs, labs, costs
    names = ['o%d' % i for i in range(k)]
    r.shuffle(names)
    box = Oracles()
    for nm, o in zip(names, orcs):
        box.add_oracle(oracle_name=nm, oracle_object=o)
    return box, names, orcs, labs, costs


@R.family('results', quick=600, thorough=15000)
def results(c):
    r = c.rng
    n = r.randint(2, 8)
    y = c.nr.randint(0, r.choice([2, 3]), n)
    box, names, orcs, labs, costs = crowd(c, y)
    is_list = isinstance(box, list)
    spent, counted, nhist = 0., {nm: [0, 0.] for nm in names}, 0
    proper = False
    for _ in range(r.randint(1, 5)):
        i = r.randrange(n)
        ask = r.choice([i, [i], np.int64(i), np.array([i])])
        sub = None
        if r.random() < .7:
            sub = r.sample(names, r.randint(1, len(names)))
            c.event('list_subset' if is_list else 'named_subset')
            proper |= len(sub) < len(names)
        else:
            c.event('all_oracles')
        who = names if sub is None else sub
        for o in orcs:
            del o.log[:]
        given = None if sub is None else list(sub)
        vote = r.random() < .5
        if vote:
            cnt, res, cost = get_majority_vote(ask, box, names=given) if given is not None else get_majority_vote(ask, box)
        else:
            ans, cs = get_query_results(ask, box, names=given) if given is not None else get_query_results(ask, box)
        c.event('collected')
        truth = [labs[names.index(w)][i] for w in who]
        price = [float(costs[names.index(w)][i]) for w in who]
        if vote:
            tal = {v: sum(t == v for t in truth) for v in truth}
            c.check(res in tal and tal[res] == max(tal.values()) and int(cnt) == tal[res], 'collect:vote-is-not-a-plurality',
                    'the vote over the true answers of the oracles asked', answers=truth, got=(cnt, res), names=sub)
            c.close(float(cost), sum(price), 'collect:vote-cost', 'the total cost of the queries', tol=1e-9, names=sub)
        else:
            c.eq([int(a) for a in ans], [int(t) for t in truth], 'collect:answers', 'the answer of every selected oracle, in order', names=sub)
            c.close([float(v) for v in cs], price, 'collect:costs', 'its cost', tol=1e-9, names=sub)
        for nm, o in zip(names, orcs):
            want = [[i]] if nm in who else []
            c.check(o.log == want, 'collect:asked', 'each selected oracle is asked once about the instance, no other oracle is asked',
                    oracle=nm, asked=o.log, want=want, names=sub)
        c.check(given is None or given == sub, 'collect:names-modified', '')
        if not is_list:
            nhist += 1
            spent += sum(price)
            for w, p in zip(who, price):
                counted[w][0] += 1
                counted[w][1] += p
            c.event('history_checked')
            c.eq(len(box.query_history), nhist, 'collect:history', 'one record for each round')
            h = box.query_history[-1]
            c.eq(list(h[0]), list(who), 'collect:history', 'who was asked')
            c.eq([int(v[0][0]) for v in h[1]], [int(t) for t in truth], 'collect:history', 'what they answered')
            c.close(box.cost_inall, spent, 'collect:total-cost', 'what was spent in all', tol=1e-9)
    if not is_list:
        rows = {m[0]: (int(m[1]), float(m[2])) for m in re.findall(r'\|\s*(o\d+)\s*\|\s*(\d+)\s*\|\s*([-+.\de]+)\s*\|', repr(box))}
        c.eq(sorted(rows), sorted(names), 'collect:summary', 'a row for every oracle')
        for nm in names:
            c.check(rows[nm][0] == counted[nm][0] and abs(rows[nm][1] - counted[nm][1]) < 1e-6, 'collect:summary',
                    'how often each was asked and what it cost', oracle=nm, row=rows[nm], want=counted[nm])
        fh = box.full_history()
        c.check(isinstance(fh, str) and fh.count('query_index') == sum(v[0] for v in counted.values()), 'collect:full-history', '')
    c.covered((y.tobytes(), tuple(map(str, names)), c.i), proper)


def loop(c, name):
    r, nr = c.rng, c.nr
    n, k = r.randint(5, 12), r.choice([2, 2, 3])
    X = nr.randn(n, 2)
    y = nr.randint(0, k, n)
    lab = r.sample(range(n), r.randint(2, max(2, n // 2)))
    if name == 'CEAL' and r.random() < .2:
        lab = lab[:1]
        c.event('single_initial')
    y[lab[0]] = 0
    if len(lab) > 1:
        y[lab[1]] = 1
    unl = [i for i in range(n) if i not in lab]
    r.shuffle(unl)
    box, names, orcs, labs, costs = crowd(c, y)
    ini = list(lab)
    eps = r.choice([None, .5, .8, .95, 1.])
    np.random.seed(r.randrange(10 ** 6))
    ini_arg = r.choice([list, np.array, IndexCollection])(ini)
    if name == 'CEAL':
        q = QueryNoisyOraclesCEAL(X, y, oracles=box, initial_labeled_indexes=ini_arg)
    elif name == 'IEthresh':
        q = QueryNoisyOraclesIEthresh(X, y, oracles=box, initial_labeled_indexes=ini_arg, **({} if eps is None else dict(epsilon=eps)))
    else:
        q = (QueryNoisyOraclesAll if name == 'All' else QueryNoisyOraclesRandom)(X=X, y=y, oracles=box)
    eps = .8 if eps is None else eps
    Xc, yc = X.copy(), y.copy()
    UI, hist, won = np.ones(len(names)), [dict() for _ in names], {}
    crit = scipy.stats.t.isf(.025, len(names) - 1) if len(names) > 1 else 0.
    drift = rounds = 0
    while unl:
        rounds += 1
        form = r.choice(['list', 'array', 'collection'])
        c.event('as_' + form)
        mk = {'list': list, 'array': np.array, 'collection': IndexCollection}[form]
        L, U = mk(lab), mk(unl)
        order = [int(v) for v in U]
        lorder = [int(v) for v in L]
        kw = {}
        ev = nn = None
        if name == 'CEAL':
            if r.random() < .5:
                ev = kw['eval_cost'] = r.random() < .7
                c.event('ceal_eval_cost', ev)
            if r.random() < .5:
                nn = kw['n_neighbors'] = r.choice([1, 2, 5, 20])
        P = nr.rand(len(order), k) + .01
        P /= P.sum(axis=1, keepdims=True)
        if r.random() < .3 and len(lab) > 1 and len(set(y[lab].tolist())) > 1:
            m = Centroid().fit(X[lab], y[lab])
            P = m._proba(X[order])
            got = q.select(L, U, model=m, **kw)
        else:
            got = q.select_by_prediction_mat(L, U, P, **kw)
        c.event('selections')
        c.event('last_instance', len(unl) == 1)
        c.check(isinstance(got, tuple) and len(got) == 2, name + ':malformed', 'an instance and the oracles to ask', got=got, pool=len(unl))
        ins, who = got
        c.check(isinstance(ins, list) and len(ins) == 1 and int(ins[0]) in unl, name + ':not-unlabeled', 'one unlabeled instance', got=ins,
                unlabeled=unl)
        i = int(ins[0])
        c.check(isinstance(who, list) and len(who) > 0, name + ':no-oracle', 'a non-empty list of oracles', got=who, oracles=names)
        c.check(len(set(who)) == len(who) and all(w in names for w in who), name + ':unknown-oracle', 'distinct oracles of the pool',
                got=who, oracles=names)
        c.check([int(v) for v in L] == lorder and [int(v) for v in U] == order, name + ':collection-modified', '')
        c.check((X == Xc).all() and (y == yc).all(), name + ':data-modified', '')
        who = list(who)
        conf = P.max(axis=1)
        if name == 'CEAL':
            kk = max(1, min(nn or 10, len(ini) - 1))
            Q = np.zeros((len(names), len(order)))
            D = np.sqrt(((X[order][:, None] - X[ini][None]) ** 2).sum(axis=2))
            for b in range(len(order)):
                near = np.argsort(D[b], kind='stable')[:kk]
                for a in range(len(names)):
                    e = sum(D[b][t] * (labs[a][ini[t]] == y[ini[t]]) for t in near) / kk
                    cost = np.mean([labs[a][t] == y[t] for t in lorder]) if ev else costs[a][lorder[0]]
                    Q[a, b] = e * (1 - conf[b]) / max(cost, 1e-4)
            c.eq(len(who), 1, 'CEAL:one-oracle', '')
            mine = Q[names.index(who[0]), order.index(i)]
            c.event('ceal_ranked')
            c.check(mine >= Q.max() * (1 - 1e-7) - 1e-12, 'CEAL:not-the-best-pair', 'the pair with the largest Q(x, a)', got=(i, who),
                    its=mine, best=Q.max(), eval_cost=ev, n_neighbors=nn, labeled=lorder)
        else:
            c.event('least_confident')
            c.check(conf[order.index(i)] <= conf.min() + 1e-9, name + ':not-the-least-confident', 'the instance is selected by uncertainty',
                    got=i, its=conf[order.index(i)], best=conf.min())
        if name == 'All':
            c.eq(sorted(who, key=str), sorted(names, key=str), 'All:not-all', 'every oracle is asked')
        if name == 'Random':
            c.eq(len(who), 1, 'Random:one-oracle', '')
        if name == 'IEthresh':
            bar = eps * UI.max()
            want = [nm for nm, u in zip(names, UI) if u >= bar]
            close = (np.abs(UI - bar) < 1e-9).any() and eps != 1 and bar != 0
            if not drift and not close:
                c.event('thresholded')
                c.event('threshold_excludes', len(want) < len(names))
                c.eq(sorted(who, key=str), sorted(want, key=str), 'IEthresh:not-the-threshold-set',
                     'the oracles whose upper interval reaches epsilon times the best', round=rounds, UI=UI.tolist(), eps=eps)
            ans = {nm: labs[names.index(nm)][i] for nm in who}
            tal = [list(ans.values()).count(v) for v in ans.values()]
            if tal.count(max(tal)) != max(tal):
                drift = 1       # tied vote: either label may win, the scores are not determined from here on
            win = max(ans.values(), key=list(ans.values()).count)
            won[i] = win
            for nm in who:
                a = names.index(nm)
                hist[a][i] = ans[nm]
                rew = [hist[a][t] == won[t] for t in hist[a]]
                UI[a] = np.mean(rew) + crit * np.std(rew) / np.sqrt(len(names))
        who.append('x')
        if rounds < 30 and r.random() < .3:         # another fold: sets of the same sizes
            both = r.sample(lab + unl, n)
            lab, unl = both[:len(lab)], both[len(lab):]
            c.event('another_fold')
        else:
            unl.remove(i)
            lab.append(i)
    c.covered((name, X.tobytes(), y.tobytes()), rounds > 1)


@R.family('CEAL loop', quick=150, thorough=3000)
def ceal(c):
    loop(c, 'CEAL')


@R.family('IEthresh loop', quick=300, thorough=8000)
def iethresh(c):
    loop(c, 'IEthresh')


@R.family('All loop', quick=150, thorough=4000)
def all_loop(c):
    loop(c, 'All')


@R.family('Random loop', quick=150, thorough=4000)
def random_loop(c):
    loop(c, 'Random')


@R.family('default model', quick=60, thorough=1200)
def default_model(c):
    """select() without a model trains one on the labeled data; the pair is still valid"""
    r, nr = c.rng, c.nr
    n = r.randint(6, 12)
    X, y = nr.randn(n, 3), nr.randint(0, 2, n)
    y[:2] = 0, 1
    lab = [0, 1] + r.sample(range(2, n), r.randint(0, n - 4))
    unl = [i for i in range(n) if i not in lab]
    box, names, orcs, labs, costs = crowd(c, y)
    qs = [QueryNoisyOraclesCEAL(X, y, oracles=box, initial_labeled_indexes=lab),
          QueryNoisyOraclesIEthresh(X, y, oracles=box, initial_labeled_indexes=lab), QueryNoisyOraclesAll(X=X, y=y, oracles=box),
          QueryNoisyOraclesRandom(X=X, y=y, oracles=box)]
    rounds = 0
    while unl:
        rounds += 1
        q = r.choice(qs)
        ins, who = q.select(IndexCollection(lab), IndexCollection(unl))
        c.event('selections')
        c.check(len(ins) == 1 and int(ins[0]) in unl, 'default:not-unlabeled', '', got=ins)
        c.check(len(who) > 0 and len(set(who)) == len(who) and all(w in names for w in who), 'default:oracles', '', got=who)
        lab.append(int(ins[0]))
        unl.remove(int(ins[0]))
    c.covered((X.tobytes(),), rounds > 1)


@R.family('random reach', quick=16, thorough=100)
def random_reach(c):
    """over many selections the random strategy asks every oracle (a miss has chance < 1e-20)"""
    X, y = c.nr.randn(6, 2), np.arange(6) % 2
    box, names, orcs, labs, costs = crowd(c, y)
    q = QueryNoisyOraclesRandom(X=X, y=y, oracles=box)
    P = np.full((4, 2), .5)
    seen = set()
    for _ in range(60 * len(names)):
        ins, who = q.select_by_prediction_mat([0, 1], [2, 3, 4, 5], P)
        seen |= set(who)
    c.eq(seen, set(names), 'Random:never-asked', 'some oracle is never chosen')
    c.event('reach')
    c.covered((len(names), c.i), len(names) > 1)
