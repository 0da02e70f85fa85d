"""C16: stopping criteria stop exactly at their documented point."""
import copy

import numpy as np

from alipy.experiment import State, StateIO, StoppingCriteria
from alipy.index.index_collections import IndexCollection, MultiLabelIndexCollection
from rv.core import Registry
from rv.lib.clock import FakeClock

R = Registry('C16', 'A growing log (random batch sizes, costs, single- or multi-label pool) is fed state by state to a criterion of every '
                    'kind under a controlled clock; the answer is compared with the documented condition recomputed from the history. '
                    'Non-trivial: the criterion changed its answer during the run.',
             require=('answers', 'stopped', 'not_stopped', 'stopped_at_threshold', 'reset', 'exhausted', 'multi_label', 'empty_pool',
                      'clock_reads', 'rejections_observed', 'second_fold'))

def freeze_log(sio):
    return (len(sio), sio.cost_inall, [(list(s['select_index']), s['performance'], np.sum(s['cost']) if 'cost' in s.keys() else None)
                                       for s in sio], sorted(sio.init_L), sorted(sio.init_U))


def make_log(c, multi, empty=False):
    r = c.rng
    n = r.randint(3, 12)
    nl = r.randint(2, 3)
    if multi:
        ents = [(i, j) for i in range(n) for j in range(nl)]
        r.shuffle(ents)
        k = len(ents) if empty else r.randint(1, len(ents) - 1)
        L, U = MultiLabelIndexCollection(ents[:k], label_size=nl), MultiLabelIndexCollection(ents[k:], label_size=nl)
        pool = ents[k:]
        c.event('multi_label')
    else:
        ids = list(range(n))
        r.shuffle(ids)
        k = n if empty else r.randint(1, n - 1)
        L, U = IndexCollection(ids[:k]), IndexCollection(ids[k:])
        pool = ids[k:]
    sio = StateIO(0, list(range(n)), [n, n + 1], L, U, verbose=False)
    return sio, pool


def grow(c, sio, pool):
    """Appends one state; returns its cost."""
    r = c.rng
    b = min(len(pool), r.choice([1, 1, 2, 3]))
    sel = [pool.pop() for _ in range(b)]
    ck = r.choice(['none', 'scalar', 'list'])
    cl = [r.randint(0, 10) / 4 for _ in sel]
    cost = None if ck == 'none' else cl[0] if ck == 'scalar' else cl
    sio.add_state(State(sel, r.random(), cost=cost))
    return 0 if cost is None else float(np.sum(cost))


def one_fold(c, crit, kind, value, clk, multi, label, empty=False):
    r = c.rng
    sio, pool = make_log(c, multi, empty)
    n0 = len(pool)
    t0 = clk.now
    spent, q, was = 0.0, 0, False
    first = True
    changed = False
    while True:
        if not first or r.random() < .8:
            before = freeze_log(sio)
            got = crit.update_information(sio)
            c.check(got is crit or got is None, label + ':update-returns')
            got = bool(crit.is_stop())
            again = bool(crit.is_stop())
            c.eq(again, got, label + ':not-repeatable')
            c.eq(freeze_log(sio), before, label + ':log-modified')
            left = len(pool)
            cond = {'num_of_queries': lambda: q >= value, 'cost_limit': lambda: spent >= value,
                    'percent_of_unlabel': lambda: n0 == 0 or (n0 - left) / n0 >= value,
                    'time_limit': lambda: clk.now - t0 >= value, None: lambda: False}[kind]()
            want = cond or left == 0
            c.eq(got, want, label + ':stop', '', criterion=kind, value=value, queries=q, cost=spent, left=left, pool=n0, elapsed=clk.now - t0)
            c.check(got or not was, label + ':unstopped')
            if got and not was and not first:
                changed = True
                if cond:
                    c.event('stopped_at_threshold')
            was = got
            c.event('answers')
            c.event('stopped' if got else 'not_stopped')
            c.note(kind, value, 'q', q, 'cost', spent, 'left', left, '->', got)
            if left == 0:
                c.event('exhausted')
        first = False
        if kind == 'time_limit':
            clk.now += r.choice([0, 0.25, 0.5, 1, 3])
        if not pool:
            break
        if was and r.random() < .2:
            break
        for _ in range(r.choice([1, 1, 1, 2])):
            if pool:
                spent += grow(c, sio, pool)
                q += 1
    return changed


@R.family('criteria', 2500, 50000, 'one criterion over one or two folds with a reset in between')
def criteria(c):
    r = c.rng
    kind = r.choice([None, 'num_of_queries', 'cost_limit', 'percent_of_unlabel', 'time_limit'])
    value = {None: lambda: None, 'num_of_queries': lambda: r.randint(0, 9), 'cost_limit': lambda: r.choice([r.randint(0, 8), r.randint(0, 32) / 4]),
             'percent_of_unlabel': lambda: r.choice([0, 1, 0.5, round(r.random(), 2), r.randint(1, 5) / r.randint(5, 9)]),
             'time_limit': lambda: r.choice([0.0, 1, 2.5, r.randint(1, 10) / 2])}[kind]()
    given = value
    if value is not None and r.random() < .3:
        given = np.int64(value) if isinstance(value, int) else np.float64(value)
    with FakeClock(c) as clk:
        clk.now = r.choice([0, 5.0])
        crit = StoppingCriteria(kind, given) if kind is not None or r.random() < .5 else StoppingCriteria()
        if r.random() < .2:
            crit = copy.deepcopy(crit)
        multi = r.random() < .4
        empty = r.random() < .06
        if empty:
            c.event('empty_pool')
        changed = one_fold(c, crit, kind, value, clk, multi, 'fold', empty)
        if r.random() < .6:
            clk.now += 7.5
            crit.reset()
            c.event('reset')
            # behaves like a fresh one before and after any state is fed
            fresh = StoppingCriteria(kind, given)
            c.eq(bool(crit.is_stop()), bool(fresh.is_stop()), 'reset:not-fresh', '', kind=kind, value=value)
            changed |= one_fold(c, crit, kind, value, clk, r.random() < .4, 'second')
            c.event('second_fold')
    c.covered((kind, value, multi, empty, c.seed % 97), changed)


@R.family('interleaved', 400, 8000, 'several criteria watch one log; feeding one does not disturb another')
def interleaved(c):
    r = c.rng
    with FakeClock(c) as clk:
        nq, cl, pc, tl = r.randint(1, 6), r.randint(1, 20) / 4, r.randint(1, 9) / 10, r.randint(1, 8) / 2
        crits = {None: StoppingCriteria(), 'num_of_queries': StoppingCriteria('num_of_queries', nq), 'cost_limit': StoppingCriteria('cost_limit', cl),
                 'percent_of_unlabel': StoppingCriteria('percent_of_unlabel', pc), 'time_limit': StoppingCriteria('time_limit', tl)}
        sio, pool = make_log(c, r.random() < .4)
        n0, spent, q = len(pool), 0.0, 0
        seen = set()
        while pool:
            spent += grow(c, sio, pool)
            q += 1
            clk.now += r.choice([0, 0.5])
            order = list(crits)
            r.shuffle(order)
            for k in order:
                crits[k].update_information(sio)
            r.shuffle(order)
            done = not pool
            want = {None: done, 'num_of_queries': done or q >= nq, 'cost_limit': done or spent >= cl,
                    'percent_of_unlabel': done or (n0 - len(pool)) / n0 >= pc, 'time_limit': done or clk.now >= tl}
            for k in order:
                c.eq(bool(crits[k].is_stop()), want[k], 'interleaved:stop', '', kind=k, q=q, spent=spent, left=len(pool), now=clk.now)
                seen.add((k, want[k]))
    c.covered((nq, cl, pc, tl, n0, c.seed % 53), len(seen) > 6)


@R.family('invalid', 30, 200, 'settings that cannot be honoured are rejected')
def invalid(c):
    r = c.rng
    c.raises(ValueError, lambda: StoppingCriteria(r.choice(['no_such', 'queries', 'cost', ''])), 'invalid:name-accepted')
    v = r.choice([-0.1, 1.5, 2, -3])
    sio, pool = make_log(c, False)

    def use():
        crit = StoppingCriteria('percent_of_unlabel', v)
        crit.update_information(sio)
        return crit.is_stop()
    c.raises(ValueError, use, 'invalid:percent-accepted', '', v=v)
    c.raises((TypeError, ValueError), lambda: StoppingCriteria('num_of_queries', r.choice(['x', None])), 'invalid:queries-accepted')
    c.covered(v, True)
