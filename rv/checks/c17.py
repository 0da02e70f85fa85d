"""C17: parallel folds each run exactly once, within the thread bound, and recover."""
import os
import random
import sys
import threading
import time

import numpy as np

from alipy import ToolBox
from alipy.experiment import State
from alipy.index.index_collections import IndexCollection, MultiLabelIndexCollection, FeatureIndexCollection
from alipy.utils.multi_thread import aceThreading
from rv.core import Registry
from rv.checks.c14 import freeze, content, py
from rv.checks.c15 import d_log
from rv.lib import sched

R = Registry('C17', 'Parallel runs whose target function reports every entry, step and exit to a monitor while random delays are injected '
                    'between its steps; the recorded event log is checked against the fold table (each fold once, own sets, bound, '
                    'completion before return, own states in own order), with foreign threads, several runs at once, targets that '
                    'fail at a chosen step, and recovery from the saved record. Non-trivial: at least two folds.',
             require=('folds_run', 'bound_reached', 'interleaved_runs', 'foreign_threads', 'two_runs_at_once', 'from_other_thread',
                      'failed_folds', 'recoveries', 'finished_not_rerun', 'unfinished_resumed', 'multi_label', 'feature', 'list_index',
                      'from_box', 'rejections_observed', 'recovered_unstarted', 'refreshed', 'scheduled_runs'))

TIMEOUT = 60         # seconds a run of some tens of milliseconds may take before it counts as not returning
MON = {}


class Boom(Exception):
    pass


class Monitor(object):
    """Online: counts the target functions inside at any time. Offline: the event log."""

    def __init__(self):
        self.lock = threading.Lock()
        self.events, self.active, self.peak, self.args = [], set(), 0, {}
        self.overlap = None

    def enter(self, rd, args):
        with self.lock:
            if rd in self.active:
                self.overlap = rd
            self.active.add(rd)
            self.peak = max(self.peak, len(self.active))
            self.events.append(('enter', rd))
            self.args.setdefault(rd, []).append(args)

    def step(self, rd, k):
        with self.lock:
            self.events.append(('step', rd, k))

    def leave(self, rd, ok):
        with self.lock:
            self.active.discard(rd)
            self.events.append(('leave' if ok else 'failed', rd))


def pick(pool, rd, k, b, seed):
    pool = sorted(pool)
    rr = random.Random('%s/%s/%s' % (seed, rd, k))
    return rr.sample(pool, min(b, len(pool)))


def measure(L, rd):
    return (len(L) * 37 + sum(sum(v) if isinstance(v, tuple) else v for v in L) + rd) % 101 / 101.


def target(round, train_id, test_id, Ucollection, Lcollection, saver, examples, labels, global_parameters):
    g = global_parameters
    mon = MON[g['run']]
    mon.enter(round, dict(train=list(train_id), test=list(test_id), U=content(Ucollection), L=content(Lcollection), ids=(id(Ucollection), id(Lcollection), id(saver)),
                          n=len(saver), saver_round=saver.round, X=examples, y=labels, extra=g['extra'], thread=threading.get_ident()))
    ok = False
    rr = random.Random()
    try:
        if len(saver) == 0:
            saver.set_initial_point(measure(content(Lcollection), round))
        while len(saver) < g['steps'][round] and len(Ucollection):
            d = rr.random()
            if d < g['jitter']:
                time.sleep(d * g['scale'])
            sel = pick(content(Ucollection), round, len(saver), g['batch'], g['seed'])
            Ucollection.difference_update(sel)
            Lcollection.update(sel)
            if g['bomb'].get(round) == (len(saver), 'before'):
                raise Boom()
            saver.add_state(State(sel, measure(content(Lcollection), round)))
            if rr.random() < g['jitter']:
                time.sleep(rr.random() * g['scale'])
            saver.save()
            mon.step(round, len(saver))
            if g['bomb'].get(round) == (len(saver), 'after'):
                raise Boom()
        ok = True
    finally:
        mon.leave(round, ok)


def gen_folds(c, n_folds, kind, n, size):
    r = c.rng
    folds = []
    for _ in range(n_folds):
        p = [int(v) for v in c.nr.permutation(n)]
        nt = r.randint(5, n - 2)
        k = r.randint(1, nt - 2)
        if kind == 'single':
            L, U = p[:k], p[k:nt]
        else:
            ents = [(i, j) for i in p[:nt] for j in range(size)]
            r.shuffle(ents)
            k = r.randint(1, len(ents) - 2)
            L, U = ents[:k], ents[k:]
        folds.append((p[:nt], p[nt:], L, U))
    return folds


def expected(fold, rd, steps, batch, seed):
    L, U = set(fold[2]), set(fold[3])
    out = []
    while len(out) < steps and U:
        sel = pick(U, rd, len(out), batch, seed)
        U -= set(sel)
        L |= set(sel)
        out.append((freeze(sel), measure(L, rd)))
    return out


class Run(object):
    def __init__(self, c, extra=None):
        r = c.rng
        self.c = c
        self.d = os.path.join(c.scratch(), 'r%d' % len(os.listdir(c.scratch())))
        os.mkdir(self.d)
        self.n_folds = r.choice([1, 2, 3, 3, 4, 5, 8])
        self.kind = r.choice(['single', 'single', 'single', 'multi', 'feature'])
        n = r.randint(8, 20)
        self.size = 3
        self.X = c.nr.rand(n, 3)
        self.y = c.nr.randint(0, 2, n) if self.kind == 'single' else c.nr.randint(0, 2, (n, 3))
        self.folds = gen_folds(c, self.n_folds, self.kind, n, 3)
        self.max_thread = r.choice([None, 1, 2, 3, self.n_folds])
        self.bound = self.max_thread or self.n_folds
        self.steps = [r.randint(0, 6) for _ in range(self.n_folds)]
        self.batch = r.randint(1, 3)
        self.seed = r.randint(0, 9999)
        self.id = '%s-%s' % (c.seed, r.random())
        self.mon = MON[self.id] = Monitor()
        self.bomb = {}
        self.refresh = r.choice([1000, 1000, 0.0005])
        if self.refresh < 1:
            c.event('refreshed')
        if self.kind != 'single':
            c.event('multi_label' if self.kind == 'multi' else 'feature')
        self.jitter, self.scale = r.choice([(0, 0), (.5, .004), (1, .002)])
        self.extra = dict(a=r.random(), b=[1, 2])
        self.want = [expected(self.folds[i], i, self.steps[i], self.batch, self.seed) for i in range(self.n_folds)]
        self.ace = self.make()

    def coll(self, v, form):
        if self.kind == 'single':
            if form == 'coll':
                return IndexCollection(v)
            return list(v) if form == 'list' else np.array(v)
        if form != 'coll' and self.kind == 'multi':
            return list(v)
        cls = MultiLabelIndexCollection if self.kind == 'multi' else FeatureIndexCollection
        return cls(v, self.size)

    def make(self):
        c, r = self.c, self.c.rng
        form = r.choice(['coll', 'coll', 'list', 'array'])
        if self.kind == 'multi' and form != 'coll':
            # plain lists of pairs: the label matrix tells the number of labels
            c.event('list_index')
        elif form != 'coll' and self.kind == 'single':
            c.event('list_index')
        tr = [list(f[0]) if r.random() < .7 else np.array(f[0]) for f in self.folds]
        te = [list(f[1]) for f in self.folds]
        if r.random() < .25 and self.kind != 'feature':
            c.event('from_box')
            box = ToolBox(y=self.y, X=self.X, query_type='AllLabels' if self.kind == 'single' else 'PartLabels', train_idx=tr, test_idx=te,
                          label_idx=[list(f[2]) for f in self.folds], unlabel_idx=[list(f[3]) for f in self.folds])
            return box.get_ace_threading(target_function=target, max_thread=self.max_thread, refresh_interval=self.refresh, saving_path=self.d)
        kw = dict(target_func=target) if r.random() < .5 else {}
        a = aceThreading(self.X, self.y, tr, te, [self.coll(f[2], form) for f in self.folds], [self.coll(f[3], form) for f in self.folds],
                         max_thread=self.max_thread, refresh_interval=self.refresh, saving_path=self.d, **kw)
        if not kw:
            a.set_target_function(target)
        return a

    def go(self, ace=None, fresh=True):
        g = dict(run=self.id, steps=self.steps, batch=self.batch, seed=self.seed, bomb=self.bomb, jitter=self.jitter, scale=self.scale,
                 extra=self.extra)
        a = ace or self.ace
        self.error = None
        self.left_behind = None

        def call():
            try:
                if fresh:
                    a.start_all_threads(global_parameters=g)
                else:
                    a.start_all_threads()
                with self.mon.lock:
                    self.left_behind = sorted(self.mon.active)
            except BaseException as e:
                self.error = e
        t = threading.Thread(target=self._scheduled(call))
        t.daemon = True
        t.start()
        return t

    def _scheduled(self, call):
        """In some runs every thread pauses at random lines of ALiPy."""
        f = sched.maybe(self.c)
        if not isinstance(f, sched.Fuzz):
            return call

        def inside():
            sys.settrace(f._call)          # also the thread that starts the others
            with f:
                call()
        return inside

    def wait(self, t):
        t.join(TIMEOUT)
        self.c.check(not t.is_alive(), 'no-progress:start_all_threads-does-not-return', '', events=self.mon.events[-20:], max_thread=self.max_thread,
                     folds=self.n_folds)
        self.c.check(self.error is None, 'start_all_threads-raised', '', error=self.error, kind=self.kind)
        self.c.eq(self.left_behind, [], 'returned-before-folds-finished')

    def monitor_ok(self, ran, events, prior):
        """the event log of one start_all_threads call: `ran` folds executed, each once; prior = states before."""
        c = self.c
        c.eq(sorted(e[1] for e in events if e[0] == 'enter'), sorted(ran), 'folds-executed', 'not every requested fold ran exactly once',
             events=events)
        c.check(self.mon.overlap is None, 'fold-ran-twice-at-once')
        c.check(self.mon.peak <= self.bound, 'bound-exceeded', '', peak=self.mon.peak, bound=self.bound, events=events)
        if self.mon.peak == self.bound and self.bound < self.n_folds:
            c.event('bound_reached')
        seen = {}
        for e in events:
            if e[0] == 'step':
                want = seen.get(e[1], prior.get(e[1], 0)) + 1
                c.eq(e[2], want, 'steps-out-of-order', '', events=events)
                seen[e[1]] = want
        order = [e[1] for e in events if e[0] == 'step']
        if any(a != b for a, b in zip(order, sorted(order))):
            c.event('interleaved_runs')
        c.event('folds_run', len(ran))

    def args_ok(self, rd, a, done):
        c = self.c
        f = self.folds[rd]
        moved = {v for sel, _ in self.want[rd][:done] for v in sel}
        c.eq([py(v) for v in a['train']], f[0], 'fold-train', '', fold=rd)
        c.eq([py(v) for v in a['test']], f[1], 'fold-test', '', fold=rd)
        c.eq(a['L'], sorted(set(f[2]) | moved), 'fold-labeled', '', fold=rd)
        c.eq(a['U'], sorted(set(f[3]) - moved), 'fold-unlabeled', '', fold=rd)
        c.eq(a['n'], done, 'fold-log-at-start', '', fold=rd)
        c.eq(a['saver_round'], rd, 'fold-saver')
        c.check(np.array_equal(a['X'], self.X) and np.array_equal(a['y'], self.y), 'fold-data')
        c.eq(a['extra'], self.extra, 'global-parameters', '', fold=rd)

    def logs_ok(self, logs, what, upto=None):
        c = self.c
        c.eq(len(logs), self.n_folds, what + ':count')
        for i, log in enumerate(logs):
            c.eq(log.round, i, what + ':round-order')
            got = [(freeze(st.get_value('select_index')), st.get_value('performance')) for st in log]
            want = self.want[i] if upto is None else self.want[i][:upto[i]]
            c.eq(got, want, what + ':states', '', fold=i)
            tr, te, L, U = log.get_workspace(0)
            c.eq(content(L), sorted(self.folds[i][2]), what + ':initial-labeled', '', fold=i)
            c.eq(content(U), sorted(self.folds[i][3]), what + ':initial-unlabeled', '', fold=i)
            c.eq([py(v) for v in tr], self.folds[i][0], what + ':train', '', fold=i)
            if log.initial_point is not None:
                c.close(log.initial_point, measure(self.folds[i][2], i), what + ':initial-point', '', fold=i)

    def key(self):
        return (self.kind, self.n_folds, self.max_thread, self.steps, [e[:2] for e in self.mon.events])


def distinct_sets(c, mon):
    ids = [x for a in mon.args.values() for x in a[-1]['ids']]
    c.eq(len(ids), len(set(ids)), 'folds-share-objects')


@R.family('run', 260, 5000, 'uninterrupted runs')
def run(c):
    r = c.rng
    x = Run(c)
    stop = threading.Event()
    foreign = []
    if r.random() < .4:
        c.event('foreign_threads')
        for _ in range(r.randint(1, 6)):
            t = threading.Thread(target=stop.wait, args=(TIMEOUT + 30,))
            t.daemon = True
            t.start()
            foreign.append(t)
    try:
        if r.random() < .5:
            x.wait(x.go())
        else:
            c.event('from_other_thread')
            t = x.go()
            x.wait(t)
    finally:
        stop.set()
        for t in foreign:
            t.join()
    x.monitor_ok(range(x.n_folds), x.mon.events, {})
    for rd, calls in x.mon.args.items():
        x.args_ok(rd, calls[0], 0)
    distinct_sets(c, x.mon)
    res = x.ace.get_results()
    x.logs_ok(res, 'results')
    if len(res[0]):
        res[0].pop()
        res[0].init_L.discard(x.folds[0][2][0])
    res.reverse()
    x.logs_ok(x.ace.get_results(), 'results-again')
    str(x.ace)
    # the saved record is that of a finished run: recovering runs nothing again
    b = aceThreading.recover(os.path.join(x.d, 'multi_thread_state.pkl'))
    x.logs_ok(b.get_results(), 'record')
    if r.random() < .5:
        n0 = len(x.mon.events)
        x.wait(x.go(b, fresh=False))
        c.eq(x.mon.events[n0:], [], 'finished-folds-rerun')
        x.logs_ok(b.get_results(), 'record-rerun')
        c.event('finished_not_rerun')
    MON.pop(x.id)
    c.covered(x.key(), x.n_folds > 1)


@R.family('together', 60, 1200, 'two runs at the same time, in folders of their own')
def together(c):
    x, y = Run(c), Run(c)
    c.event('two_runs_at_once')
    a, b = x.go(), y.go()
    x.wait(a)
    y.wait(b)
    for z in (x, y):
        z.monitor_ok(range(z.n_folds), z.mon.events, {})
        for rd, calls in z.mon.args.items():
            z.args_ok(rd, calls[0], 0)
        z.logs_ok(z.ace.get_results(), 'results')
        MON.pop(z.id)
    c.covered((x.key(), y.key()), True)


@R.family('recover', 260, 5000, 'runs with folds failing at a chosen step, recovered (perhaps failing again) and finished')
def recover(c):
    r = c.rng
    x = Run(c)
    rec = os.path.join(x.d, 'multi_thread_state.pkl')
    done = [0] * x.n_folds
    fin = [False] * x.n_folds
    ace = x.ace
    if r.random() < .2:          # saved before the start
        ace.save()
        c.event('recovered_unstarted')
        ace = aceThreading.recover(rec)
    for att in range(r.randint(1, 3)):
        x.bomb.clear()
        for i in range(x.n_folds):
            if not fin[i] and r.random() < .5:
                hi = len(x.want[i])
                if done[i] < hi:
                    if r.random() < .5:
                        x.bomb[i] = (r.randint(done[i], hi - 1), 'before')
                    else:
                        x.bomb[i] = (r.randint(done[i] + 1, hi), 'after')
        n0 = len(x.mon.events)
        x.mon.peak = 0
        x.wait(x.go(ace, fresh=True))
        ev = x.mon.events[n0:]
        ran = [i for i in range(x.n_folds) if not fin[i]]
        x.monitor_ok(ran, ev, dict(enumerate(done)))
        for rd in ran:
            x.args_ok(rd, x.mon.args[rd][-1], done[rd])
        for i in ran:
            if i in x.bomb:
                done[i] = x.bomb[i][0]
                c.event('failed_folds')
            else:
                done[i], fin[i] = len(x.want[i]), True
        c.eq(sorted(e[1] for e in ev if e[0] == 'failed'), sorted(x.bomb), 'bombs-missed')
        x.logs_ok(ace.get_results(), 'after-failure', done)
        ace = aceThreading.recover(rec)
        c.event('recoveries')
        x.logs_ok(ace.get_results(), 'recovered', done)
        if any(0 < done[i] and not fin[i] for i in range(x.n_folds)):
            c.event('unfinished_resumed')
    x.bomb.clear()
    n0 = len(x.mon.events)
    x.mon.peak = 0
    x.wait(x.go(ace, fresh=True))
    ran = [i for i in range(x.n_folds) if not fin[i]]
    x.monitor_ok(ran, x.mon.events[n0:], dict(enumerate(done)))
    for rd in ran:
        x.args_ok(rd, x.mon.args[rd][-1], done[rd])
    x.logs_ok(ace.get_results(), 'finished')
    MON.pop(x.id)
    c.covered(x.key(), x.n_folds > 1)


@R.family('kept_parameters', 30, 500, 'a recovered run goes on with the parameters of the interrupted one')
def kept_parameters(c):
    x = Run(c)
    x.ace.save()
    rec = os.path.join(x.d, 'multi_thread_state.pkl')
    c.attempt('recover-unstarted', lambda: aceThreading.recover(rec))
    if not any(x.want):
        c.skip()
    i = [k for k in range(x.n_folds) if x.want[k]][0]
    pid = os.fork()
    if pid == 0:                         # the interrupted run, in a process of its own: fold i fails
        try:
            x.bomb[i] = (len(x.want[i]), 'after')
            t = x.go()
            t.join(TIMEOUT)
            os._exit(0 if not t.is_alive() and x.error is None else 1)
        finally:
            os._exit(2)
    _, st = os.waitpid(pid, 0)
    c.eq(st, 0, 'interrupted-run-failed')
    ace = aceThreading.recover(rec)
    n0 = len(x.mon.events)
    x.wait(x.go(ace, fresh=False))
    c.eq(sorted(e[1] for e in x.mon.events[n0:] if e[0] == 'enter'), [i], 'folds-executed', 'only the failed fold is unfinished')
    x.args_ok(i, x.mon.args[i][-1], len(x.want[i]))
    x.logs_ok(ace.get_results(), 'finished')
    MON.pop(x.id)
    c.covered(x.key(), True)


@R.family('reject', 60, 600, 'wrong settings are rejected before anything runs')
def reject(c):
    r = c.rng
    X, y = c.nr.rand(6, 2), np.zeros(6)
    d = c.scratch()
    base = dict(examples=X, labels=y, train_idx=[[0, 1, 2]], test_idx=[[3, 4]], label_index=[[0]], unlabel_index=[[1, 2]], saving_path=d)

    def mk(**kw):
        return aceThreading(**dict(base, **kw))
    c.raises(AssertionError, lambda: mk(max_thread=r.choice([0, -1])), 'bad-bound-accepted')
    k = r.choice(['train_idx', 'test_idx', 'label_index', 'unlabel_index'])
    c.raises(AssertionError, lambda: mk(**{k: base[k] * 2}), 'length-mismatch-accepted')
    drop = r.choice(['round', 'train_id', 'test_id', 'Ucollection', 'Lcollection', 'saver', 'examples', 'labels', 'global_parameters'])
    names = [n for n in ['round', 'train_id', 'test_id', 'Ucollection', 'Lcollection', 'saver', 'examples', 'labels', 'global_parameters'] if n != drop]
    ns = {}
    exec('def f(%s):\n    raise SystemError' % ', '.join(names), ns)
    c.raises(NameError, lambda: mk(target_func=ns['f']), 'bad-target-accepted')
    a = mk()
    c.raises(NameError, lambda: a.set_target_function(ns['f']), 'bad-target-accepted')
    c.raises(Exception, lambda: a.start_all_threads(), 'missing-target-accepted')
    c.raises(TypeError, lambda: aceThreading.recover(5), 'recover-number-accepted')
    import pickle
    p = os.path.join(d, 'x.pkl')
    with open(p, 'wb') as f:
        pickle.dump([1], f)
    c.raises(TypeError, lambda: aceThreading.recover(p), 'recover-junk-accepted')
    c.covered((drop, k), True)
