"""C18: a packaged experiment gives schedule-independent, conserved query histories."""
import os
import random
import signal
import threading
import time

import numpy as np
from sklearn.linear_model import LogisticRegression

from alipy.experiment import AlExperiment, StateIO
from alipy.experiment.stopping_criteria import StoppingCriteria
from alipy.index.index_collections import IndexCollection
from alipy.metrics import performance as perf_mod
from alipy.query_strategy.query_labels import QueryExpectedErrorReduction, QueryInstanceGraphDensity, QueryInstanceQUIRE
from alipy.utils.multi_thread import aceThreading
from rv.core import Registry
from rv.lib.clock import FakeClock
from rv.checks.c14 import content, py
from rv.checks.c15 import d_log
from rv.lib import crash, sched

R = Registry('C18', 'Generated experiments (data, splits, strategies, models, metrics, stopping points, batch sizes) run sequentially, in '
                    'parallel under injected delays, and fold by fold in experiments of their own; every recorded history is replayed: '
                    'selections against the pool of that moment, performances against a model trained afresh on exactly the labeled '
                    'set, the length against the stopping point. Non-trivial: at least two queries in some fold.',
             require=('parallel_runs', 'sequential_runs', 'isolated_runs', 'states_replayed', 'pool_exhausted', 'stopped_by_number',
                      'stopped_by_percent', 'stopped_by_time', 'batch_over_pool', 'custom_strategy', 'graph', 'uncertainty_ranked',
                      'rejections_observed', 'experiments_killed', 'own_split', 'second_run', 'quire', 'auc', 'thread_bounds', 'slow_criteria', 'empty_pool', 'strategy_compared',
                      'committee_probabilities', 'any_class', 'saved_logs', 'scheduled_runs'))


SPANS = {}          # when each thread was seen working


def most_at_once():
    """the largest number of threads between their first and their last trace"""
    marks = sorted([(min(v), 1) for v in SPANS.values()] + [(max(v), -1) for v in SPANS.values()])
    n = top = 0
    for _, d in marks:
        n += d
        top = max(top, n)
    return top


PROBA = []


class CountLR(LogisticRegression):
    def predict_proba(self, X):
        PROBA.append(len(X))
        return LogisticRegression.predict_proba(self, X)


def make_count_lr():
    return CountLR(solver='liblinear')


class SlowCriteria(object):
    """Stopping criteria take a moment to note and to decide, so that folds sharing one would see each other's counts."""

    def __enter__(self):
        self.was = StoppingCriteria.update_information, StoppingCriteria.is_stop
        upd, stop = self.was

        def update_information(crit, *a, **k):
            out = upd(crit, *a, **k)
            time.sleep(random.SystemRandom().random() * .003)
            return out

        def is_stop(crit, *a, **k):
            time.sleep(random.SystemRandom().random() * .003)
            return stop(crit, *a, **k)
        StoppingCriteria.update_information, StoppingCriteria.is_stop = update_information, is_stop

    def __exit__(self, *a):
        StoppingCriteria.update_information, StoppingCriteria.is_stop = self.was


class Centroid(object):
    """A small deterministic model; waits between its steps so that parallel rounds interleave."""
    pause = 0.

    def __init__(self, pause=0.):
        self.pause = pause

    def _wait(self):
        SPANS.setdefault(threading.get_ident(), []).append(time.monotonic())
        if self.pause:
            time.sleep(random.SystemRandom().random() * self.pause)

    def fit(self, X, y):
        self.classes_ = np.unique(y)
        self._wait()
        self.cen = np.array([np.asarray(X)[np.asarray(y) == k].mean(axis=0) for k in self.classes_])
        self._wait()
        return self

    def predict_proba(self, X):
        self._wait()
        d = ((np.asarray(X)[:, None, :] - self.cen[None]) ** 2).sum(axis=2)
        e = np.exp(-d + d.min(axis=1, keepdims=True))
        return e / e.sum(axis=1, keepdims=True)

    def predict(self, X):
        return self.classes_[np.argmax(self.predict_proba(X), axis=1)]


CALLS = []


class FarFirst(object):
    """A custom deterministic strategy: the unlabeled instances farthest from the mean of the labeled ones."""

    def __init__(self, X, y, power=2, **kw):
        self.X, self.power = X, power

    def select(self, label_index, unlabel_index, batch_size=1, power=None, nap=None, **kw):
        if nap:
            nap[0].now += nap[1]
        CALLS.append((self.power, list(label_index), list(unlabel_index), batch_size, power))
        L, U = sorted(label_index), sorted(unlabel_index)
        m = self.X[L].mean(axis=0)
        d = (np.abs(self.X[U] - m) ** (power or self.power)).sum(axis=1)
        o = np.argsort(-d, kind='stable')[:batch_size]
        return [U[i] for i in o]


def gen(c, n=None, classes=None, folds=None):
    r, nr = c.rng, c.nr
    n = n or r.randint(16, 34)
    k = classes or r.choice([2, 2, 3])
    y = nr.permutation(np.arange(n) % k)
    X = nr.randn(n, r.randint(2, 4)) + 1.2 * y[:, None]
    if r.random() < .3:
        y = y * 2 + r.choice([1, -1] if k == 2 else [1])         # labels other than 0..k-1
    tr, te, L, U = [], [], [], []
    for _ in range(folds or r.choice([1, 2, 3, 4])):
        while True:
            p = [int(v) for v in nr.permutation(n)]
            nt = r.randint(max(8, n // 2), n - 4)
            m = r.randint(k, max(k, nt // 3))
            if r.random() < .03:
                m = nt
            if len(set(y[p[:m]])) == k and (k > 2 or len(set(y[p[nt:]])) == k):
                break
        form = r.choice([list, np.array]) if m < nt else list
        tr.append(form(p[:nt]))
        te.append(form(p[nt:]))
        L.append(form(p[:m]))
        U.append(form(p[m:nt]))
    return X, y, (tr, te, L, U)


def stop_setting(c, npool):
    r = c.rng
    s = r.choice([None, 'num_of_queries', 'num_of_queries', 'percent_of_unlabel', 'percent_of_unlabel', 'time_limit'])
    if s is None:
        return None, None
    if s == 'num_of_queries':
        return s, r.choice([0, 1, 2, 3, 5, 1000])
    if s == 'percent_of_unlabel':
        return s, r.choice([0., .1, .25, .5, .77, 1.])
    return s, r.choice([0, 1000])


def stop_now(crit, val, queries, left, init):
    if left == 0:
        return True
    if crit == 'num_of_queries':
        return queries >= val
    if crit == 'percent_of_unlabel':
        return (init - left) / init >= val
    if crit == 'time_limit':
        return val == 0
    return False


def metric_of(name):
    return getattr(perf_mod, name)


def scores(measure, p):
    if measure == 'least_confident':
        return 1 - p.max(axis=1)
    if measure == 'margin':
        s = np.sort(p, axis=1)
        return -(s[:, -1] - s[:, -2])
    q = np.clip(p, 1e-300, 1)
    return -(p * np.log(q)).sum(axis=1)


def replay(c, logs, X, y, sp, model, metric, crit, val, batch, ranked=None):
    """Every recorded history against the definition of the loop."""
    tr, te, L0, U0 = sp
    c.eq(len(logs), len(tr), 'fold-count')
    for i, log in enumerate(logs):
        c.eq(log.round, i, 'fold-order')
        L, U = [py(v) for v in L0[i]], [py(v) for v in U0[i]]
        init = len(U)
        t = [py(v) for v in te[i]]
        wtr, wte, wL, wU = log.get_workspace(0)
        c.eq([py(v) for v in wtr], [py(v) for v in tr[i]], 'fold-train')
        c.eq([py(v) for v in wte], t, 'fold-test')
        c.eq((content(wL), content(wU)), (sorted(L), sorted(U)), 'fold-initial-sets')

        def value():
            m = model().fit(X=X[L], y=y[L])
            return metric_of(metric)(y[t], m.predict(X[t])), m
        want, m = value()
        c.close(log.initial_point, want, 'initial-performance', '', fold=i)
        q = 0
        for st in log:
            c.check(not stop_now(crit, val, q, len(U), init), 'ran-past-stopping-point', '', crit=crit, val=val, queries=q, left=len(U), fold=i)
            sel = [py(v) for v in st.get_value('select_index')]
            c.eq(len(set(sel)), len(sel), 'selected-twice', '', sel=sel)
            c.check(set(sel) <= set(U), 'selected-not-unlabeled', '', sel=sel, U=U, fold=i, query=q)
            c.eq(len(sel), min(batch, len(U)), 'batch-size', '', batch=batch, left=len(U))
            if batch > len(U):
                c.event('batch_over_pool')
            if ranked:
                s = scores(ranked, m.predict_proba(X[U]))
                mine = [s[U.index(v)] for v in sel]
                rest = [s[k] for k, v in enumerate(U) if v not in sel]
                c.check(not rest or max(rest) <= min(mine) + 1e-9, 'not-the-most-uncertain', 'under the model trained on the labeled set of that moment',
                        sel=sel, mine=mine, best_left=max(rest) if rest else None, fold=i, query=q)
                c.event('uncertainty_ranked')
            L = L + sel
            U = [u for u in U if u not in sel]
            want, m = value()
            c.close(st.get_value('performance'), want, 'recorded-performance', 'not that of a model trained on exactly the labeled data', fold=i, query=q)
            c.event('states_replayed')
            q += 1
        c.check(stop_now(crit, val, q, len(U), init), 'stopped-early', '', crit=crit, val=val, queries=q, left=len(U), fold=i)
        _, _, wL, wU = log.get_workspace()
        c.eq((content(wL), content(wU)), (sorted(L), sorted(U)), 'final-sets')
        if not U:
            c.event('pool_exhausted')
        c.event('empty_pool', init == 0)
        if crit == 'num_of_queries' and q == val:
            c.event('stopped_by_number')
        if crit == 'percent_of_unlabel' and U:
            c.event('stopped_by_percent')


def same_strategy(c, logs, X, y, sp, model, batch, make):
    """The recorded selections are those of the strategy itself, set up directly with the same settings."""
    tr, te, L0, U0 = sp
    for i, log in enumerate(logs):
        L, U = IndexCollection([py(v) for v in L0[i]]), IndexCollection([py(v) for v in U0[i]])
        s, kw = make(tr[i])
        for q, st in enumerate(log):
            if 'model' in kw:
                kw['model'] = model().fit(X=X[L.index, :], y=y[L.index])
            want = [py(v) for v in s.select(L, U, batch_size=batch, **kw)]
            got = [py(v) for v in st.get_value('select_index')]
            c.check(got == want, 'not-the-strategy-asked-for', 'the strategy with the settings given selects others', got=got, want=want, fold=i, query=q)
            L.update(want)
            U.difference_update(want)
            c.event('strategy_compared')


def build(c, X, y, sp, model, metric, crit, val, batch, strat, kw):
    r = c.rng
    args = dict(model=model(), stopping_criteria=crit, stopping_value=val, batch_size=batch)
    how = r.random()
    names = dict(zip(('train_idx', 'test_idx', 'label_idx', 'unlabel_idx'), sp))
    if how < .5:
        args.update(names)
    if r.random() < .5:
        args['performance_metric'] = metric
    e = AlExperiment(X, y, **args)
    if how >= .5:
        e.set_data_split(**names)
    e.set_query_strategy(strat, **kw)
    if 'performance_metric' not in args:
        e.set_performance_metric(metric)
    return e


def run_par(c, e, max_thread=None):
    d = os.path.join(c.scratch(), 'p%d' % len(os.listdir(c.scratch())))
    os.mkdir(d)
    SPANS.clear()
    slow = c.rng.random() < .4
    c.event('slow_criteria', slow)
    with SlowCriteria() if slow else sched.maybe(c):
        e.start_query(multi_thread=True, max_thread=max_thread, refresh_interval=1000, saving_path=d)
    c.event('parallel_runs')
    if max_thread is not None and SPANS:
        c.event('thread_bounds')
        c.check(most_at_once() <= max_thread, 'too-many-threads', 'more folds ran at once than max_thread', bound=max_thread, seen=most_at_once())
    logs = e.get_experiment_result()
    saved(c, os.path.join(d, 'AL_result'), logs)
    return logs


def run_seq(c, e):
    d = c.rng.choice([None, os.path.join(c.scratch(), 's%d' % len(os.listdir(c.scratch())))])
    if d:
        os.mkdir(d)
    e.start_query(multi_thread=False, verbose=False, saving_path=d)
    c.event('sequential_runs')
    logs = e.get_experiment_result()
    if d:
        saved(c, d, logs)
    return logs


def saved(c, d, logs):
    """The files hold what the experiment returned."""
    for log in logs:
        p = os.path.join(d, 'AL_round_%d.pkl' % log.round)
        if not len(log):          # a fold is saved after each query
            continue
        c.check(os.path.exists(p), 'not-saved', '', fold=log.round, found=os.listdir(d))
        c.check(d_log(StateIO.load(p)) == d_log(log), 'saved-log-differs', '', fold=log.round, saved=d_log(StateIO.load(p)), returned=d_log(log))
        c.event('saved_logs')


class MakeCentroid(object):
    def __init__(self, pause):
        self.pause = pause

    def __call__(self):
        return Centroid(self.pause)


def make_lr():
    return LogisticRegression(solver='liblinear')


@R.family('deterministic', 150, 2500, 'deterministic strategies: sequential, parallel and isolated runs agree, and replay')
def deterministic(c):
    r = c.rng
    X, y, sp = gen(c)
    pause = r.choice([0, .001, .003])
    lr = r.random() < .2
    model = make_lr if lr else MakeCentroid(0)
    slow = make_lr if lr else MakeCentroid(pause)
    crit, val = stop_setting(c, len(sp[3][0]))
    batch = r.choice([1, 1, 2, 3, 7])
    strat, kw, ranked = r.choice(['unc', 'unc', 'unc', 'custom', 'graph']), {}, None
    metrics = ['accuracy_score', 'zero_one_loss', 'hamming_loss']
    if len(set(y)) == 2 and min(y) in (0, -1):
        metrics += ['roc_auc_score'] * 3
    metric = r.choice(metrics)
    c.event('auc', metric == 'roc_auc_score')
    if strat == 'unc':
        ranked = r.choice(['least_confident', 'margin', 'entropy'])
        name, kw = 'QueryInstanceUncertainty', dict(measure=ranked)
        if r.random() < .3:
            kw, ranked = {}, 'entropy'
    elif strat == 'custom':
        name, kw = FarFirst, dict(power=r.choice([1, 2, 3]))
        if r.random() < .5:
            kw['strategyname'] = 'far'
        c.event('custom_strategy')
    else:
        name, kw = 'QueryInstanceGraphDensity', r.choice([{}, dict(metric='manhattan'), dict(metric='euclidean')])
        c.event('graph')
    Xc, yc = X.copy(), y.copy()
    del CALLS[:]
    e = build(c, X, y, sp, slow, metric, crit, val, batch, name, dict(kw))
    par = run_par(c, e, r.choice([None, None, 1, 2]))
    if strat == 'custom':
        c.check(all(k[0] == k[4] == kw['power'] and k[3] == batch for k in CALLS), 'custom-arguments', '', calls=CALLS[:3], kw=kw)
        c.check(all(not set(k[1]) & set(k[2]) for k in CALLS), 'custom-overlapping-sets')
    replay(c, par, X, y, sp, model, metric, crit, val, batch, ranked)
    if strat == 'graph':
        same_strategy(c, par, X, y, sp, model, batch, lambda tr: (QueryInstanceGraphDensity(X, y, tr, **kw), {}))
    seq = run_seq(c, build(c, X, y, sp, model, metric, crit, val, batch, name, dict(kw)))
    replay(c, seq, X, y, sp, model, metric, crit, val, batch, ranked)
    a, b = [d_log(s) for s in par], [d_log(s) for s in seq]
    c.check(a == b, 'parallel-differs-from-sequential', '', parallel=a, sequential=b)
    i = r.randrange(len(sp[0]))
    one = run_seq(c, build(c, X, y, tuple([part[i]] for part in sp), model, metric, crit, val, batch, name, dict(kw)))
    c.check(d_log(one[0])[1:] == b[i][1:], 'history-depends-on-other-folds', '', alone=d_log(one[0]), among=b[i])
    c.event('isolated_runs')
    if r.random() < .4:            # running again replaces the results
        again = run_seq(c, e) if r.random() < .5 else run_par(c, e)
        c.check([d_log(s) for s in again] == b, 'second-run-differs', '', folds=len(again))
        c.event('second_run')
    got = e.get_experiment_result()
    if got and len(got[0]):
        got[0].pop()
        c.check(d_log(e.get_experiment_result()[0]) == b[0], 'results-alias')
    c.check(np.array_equal(X, Xc) and np.array_equal(y, yc), 'data-modified')
    c.covered((len(y), len(sp[0]), strat, crit, val, batch, lr, pause), any(len(s) > 1 for s in par))


@R.family('quire', 16, 300, 'QUIRE experiments: sequential and parallel runs agree, and replay')
def quire(c):
    r = c.rng
    X, y, sp = gen(c, classes=2)
    y = np.where(y == y.max(), 1, -1)
    crit, val = stop_setting(c, len(sp[3][0]))
    model = MakeCentroid(0)
    kw = r.choice([{}, dict(lambda_=.5), dict(kernel='rbf', gamma=.7)])
    par = run_par(c, build(c, X, y, sp, model, 'accuracy_score', crit, val, 1, 'QueryInstanceQUIRE', dict(kw)))
    replay(c, par, X, y, sp, model, 'accuracy_score', crit, val, 1)
    same_strategy(c, par, X, y, sp, model, 1, lambda tr: (QueryInstanceQUIRE(X, y, tr, **kw), {}))
    seq = run_seq(c, build(c, X, y, sp, model, 'accuracy_score', crit, val, 1, 'QueryInstanceQUIRE', dict(kw)))
    c.check([d_log(s) for s in par] == [d_log(s) for s in seq], 'parallel-differs-from-sequential')
    c.event('quire')
    c.covered((len(y), len(sp[0]), crit, val, kw), any(len(s) > 1 for s in par))


@R.family('randomized', 40, 800, 'randomized strategies (random, QBC, expected error reduction): every history replays')
def randomized(c):
    r = c.rng
    X, y, sp = gen(c, n=r.randint(14, 20))
    name = r.choice(['QueryInstanceRandom', 'QueryRandom', 'QueryInstanceQBC', 'QueryInstanceQBC', 'QueryExpectedErrorReduction'])
    kw = {}
    if name == 'QueryInstanceQBC':
        # a bootstrap sample lacking a class leaves liblinear without that column, so more classes only vote
        kw = dict(disagreement=r.choice(['vote_entropy', 'KL_divergence']) if len(set(y)) == 2 else 'vote_entropy')
    if name == 'QueryExpectedErrorReduction' and y.max() > len(set(y)) - 1:
        y = np.searchsorted(np.unique(y), y)
    crit, val = stop_setting(c, len(sp[3][0]))
    if name in ('QueryInstanceQBC', 'QueryExpectedErrorReduction'):
        crit, val = 'num_of_queries', r.randint(1, 3)
    batch = r.choice([1, 2, 5])
    model = make_count_lr if name == 'QueryInstanceQBC' else make_lr
    del PROBA[:]
    e = build(c, X, y, sp, model, 'accuracy_score', crit, val, batch, name, dict(kw))
    logs = run_par(c, e) if r.random() < .6 else run_seq(c, e)
    if kw.get('disagreement') == 'KL_divergence' and any(len(s) and len(s.get_workspace(0)[3]) > batch for s in logs):
        c.event('committee_probabilities')
        c.check(PROBA, 'disagreement-not-used', 'the divergence of the members needs their probabilities')
    replay(c, logs, X, y, sp, model, 'accuracy_score', crit, val, batch)
    if name == 'QueryExpectedErrorReduction':
        same_strategy(c, logs, X, y, sp, model, batch, lambda tr: (QueryExpectedErrorReduction(X, y), dict(model=None)))
    c.covered((len(y), len(sp[0]), name, crit, val, batch), any(len(s) > 1 for s in logs))


@R.family('own_split', 40, 800, "experiments splitting their data themselves")
def own_split(c):
    r, nr = c.rng, c.nr
    n = r.randint(30, 60)
    y = nr.permutation(np.arange(n) % 2)
    X = nr.randn(n, 3) + y[:, None]
    model = MakeCentroid(0)
    crit, val = stop_setting(c, 10)
    e = AlExperiment(X, y, model(), stopping_criteria=crit, stopping_value=val, batch_size=3)
    folds = r.randint(1, 4)
    sp = e.split_AL(test_ratio=.3, initial_label_rate=.03, split_count=2, all_class=False)       # too few for one of each class
    for tr, te, L, U in zip(*sp):
        c.eq((len(tr), len(L), len(U)), (int(round(.7 * n)), max(1, int(round(.03 * len(tr)))), len(tr) - len(L)), 'split-size')
    c.event('any_class')
    sp = e.split_AL(test_ratio=.3, initial_label_rate=.25, split_count=folds)
    c.eq([len(p) for p in sp], [folds] * 4, 'split-count')
    for tr, te, L, U in zip(*sp):
        c.eq(len(set(y[L])), 2, 'split-class-missing')
        c.eq((len(tr), len(L)), (int(round(.7 * n)), int(round(.25 * len(tr)))), 'split-size')
        c.eq(sorted(list(tr) + list(te)), list(range(n)), 'split-partition')
        c.eq(sorted(list(L) + list(U)), sorted(tr), 'split-train-partition')
    e.set_query_strategy('QueryInstanceUncertainty', measure='margin')
    e.set_performance_metric('accuracy_score')
    logs = run_par(c, e) if r.random() < .5 else run_seq(c, e)
    replay(c, logs, X, y, sp, model, 'accuracy_score', crit, val, 3, 'margin')
    c.event('own_split')
    c.covered((n, folds, crit, val), True)


@R.family('timed', 40, 400, 'time limits under a controlled clock: every fold is timed from its own start, queries start until the limit is reached')
def timed(c):
    r = c.rng
    X, y, sp = gen(c, n=34, folds=r.randint(1, 3))
    nap = .25
    limit = nap * r.randint(1, 12) - r.choice([0, 0, .125])
    model = MakeCentroid(0)
    with FakeClock(c) as clock:
        e = build(c, X, y, sp, model, 'accuracy_score', 'time_limit', limit, 1, FarFirst, dict(nap=(clock, nap)))
        clock.now += r.choice([0, limit * 1.5])
        del CALLS[:]
        logs = run_seq(c, e)
    if not clock.reads:     # another source of time
        c.skip()
    c.eq(len(CALLS), sum(len(s) for s in logs), 'calls-and-states')
    for i, s in enumerate(logs):
        pool = len(s.get_workspace(0)[3])
        c.check(len(s) >= 1 or pool == 0, 'timed:fold-without-query', 'the fold was stopped before it began', fold=i)
        c.eq(len(s), min(pool, int(np.ceil(limit / nap))), 'timed:queries', 'queries start exactly until the limit is reached', fold=i,
             limit=limit, nap=nap, pool=pool)
        c.event('stopped_by_time', len(s) < pool)
    c.covered((limit, [len(s) for s in logs]), True)


@R.family('killed', 24, 400, 'a parallel experiment killed at a random moment, recovered from its record and finished: the histories are those of an uninterrupted run')
def killed(c):
    r = c.rng
    X, y, sp = gen(c)
    crit, val = r.choice([(None, None), ('num_of_queries', r.randint(1, 6)), ('percent_of_unlabel', .5)])
    batch = r.choice([1, 2])
    model = MakeCentroid(0)
    name, kw = r.choice([('QueryInstanceUncertainty', {}), (FarFirst, dict(power=1)), ('QueryInstanceGraphDensity', {})])
    want = [d_log(s) for s in run_seq(c, build(c, X, y, sp, model, 'accuracy_score', crit, val, batch, name, dict(kw)))]
    d = c.scratch()
    e = build(c, X, y, sp, MakeCentroid(.002), 'accuracy_score', crit, val, batch, name, dict(kw))
    mt = r.choice([None, 1, 2])
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            crash._reset()
            e.start_query(multi_thread=True, max_thread=mt, refresh_interval=1000, saving_path=d)
            code = 0
        finally:
            os._exit(code)
    time.sleep(r.uniform(0, .15))
    os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    c.event('experiments_killed', os.WIFSIGNALED(st))
    c.check(os.WIFSIGNALED(st) or os.WEXITSTATUS(st) == 0, 'experiment-failed')
    rec = os.path.join(d, 'multi_thread_state.pkl')
    if not os.path.exists(rec):
        c.skip()
    ok, ace = c.attempt('unrecoverable', lambda: aceThreading.recover(rec))
    ace.start_all_threads()
    got = [d_log(s) for s in ace.get_results()]
    c.check(got == want, 'recovered-run-differs', '', got=got, want=want)
    c.covered((len(sp[0]), crit, val, mt, [g[2] for g in got]), True)


@R.family('cost_limit', 4, 8, 'a cost limit is honoured or rejected')
def cost_limit(c):
    X, y, sp = gen(c)
    try:
        e = build(c, X, y, sp, MakeCentroid(0), 'accuracy_score', 'cost_limit', 3, 1, 'QueryInstanceUncertainty', {})
        logs = run_seq(c, e)
    except (ValueError, NotImplementedError):
        c.covered('rejected', True)
        return
    c.check(all(len(s) <= 3 for s in logs), 'cost-limit-ignored', 'a cost limit of 3 accepted, then the whole pool queried',
            queries=[len(s) for s in logs])
    c.covered('run', True)


@R.family('reject', 40, 400, 'settings that cannot be honoured are rejected before anything runs')
def reject(c):
    r = c.rng
    X, y, sp = gen(c)
    names = dict(zip(('train_idx', 'test_idx', 'label_idx', 'unlabel_idx'), sp))
    e = AlExperiment(X, y, Centroid())
    e.set_query_strategy('QueryInstanceUncertainty')
    c.raises(Exception, lambda: e.start_query(multi_thread=r.random() < .5, verbose=False), 'no-split-accepted')
    c.raises(Exception, lambda: e.get_experiment_result(), 'no-result-accepted')
    bad = dict(names)
    k = r.choice(sorted(bad))
    bad[k] = list(bad[k]) + [bad[k][0]]
    c.raises(ValueError, lambda: e.set_data_split(**bad), 'split-mismatch-accepted')
    c.raises(ValueError, lambda: AlExperiment(X, y, Centroid(), **bad), 'split-mismatch-accepted-by-constructor')
    c.raises(NotImplementedError, lambda: e.set_performance_metric('no_such_metric'), 'metric-accepted')
    c.raises(NotImplementedError, lambda: AlExperiment(X, y).set_query_strategy('QueryNothing'), 'strategy-accepted')
    c.raises(ValueError, lambda: AlExperiment(X, y, stopping_criteria='sometime'), 'criterion-accepted')
    c.raises(Exception, lambda: AlExperiment(X, y).set_query_strategy('QueryInstanceGraphDensity'), 'graph-without-split-accepted')
    c.raises(ValueError, lambda: AlExperiment(X, y[:-1]), 'label-mismatch-accepted')
    f = AlExperiment(X, y, Centroid(), **names)
    f.set_performance_metric('accuracy_score')
    c.raises(Exception, lambda: f.start_query(multi_thread=r.random() < .5, verbose=False, saving_path=c.scratch()), 'no-strategy-accepted')
    c.covered((len(y), k), True)
