"""C20: experiment summaries and curves equal the statistics of the logs they were given."""
import copy
import os
import pickle
import warnings

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from scipy import stats

from alipy.experiment import ExperimentAnalyser, State, StateIO
from alipy.experiment.experiment_analyser import StateIOContainer
from rv.core import Registry

R = Registry('C20', 'Random sets of methods, folds and logs (equal/unequal length, batch sizes, with/without costs and initial points, lists, '
                    'logs and containers mixed) are analysed; extracted matrices, the summary table and the points of every drawn curve '
                    'are recomputed from the generated numbers. Non-trivial: several folds or several methods.',
             require=('extracted', 'summaries', 'curves', 'bands', 'interpolated', 'unequal_lengths', 'mixed_kinds', 'initial_points',
                      'files', 'ttests', 'rejections_observed', 'start_point', 'intervals', 'replaced_methods', 'interleaved_looks', 'spoiled_sources'))


class Fold(object):
    """Numbers of one fold and the log holding them."""

    def __init__(self, c, length, ip, batch, with_cost, uneven):
        r = c.rng
        self.ip = ip
        self.perf = [r.randint(0, 100) / 100 for _ in range(length)]
        self.sizes = [batch if not uneven else r.randint(1, 3) for _ in range(length)]
        self.cost = []
        U = list(range(2, 2 + sum(self.sizes) + 2))
        self.sio = StateIO(0, [0, 1] + U, [900, 901], [0, 1], U, initial_point=ip, verbose=False)
        pool = U[:]
        self.sel = []
        for p, b in zip(self.perf, self.sizes):
            sel = [pool.pop() for _ in range(b)]
            form = r.choice(['scalar', 'list'])
            costs = [r.randint(1, 8) / 4 for _ in sel]
            self.cost.append(costs[0] if form == 'scalar' else sum(costs))
            self.sel.append(sel)
            self.sio.add_state(State(sel, p, queried_label=[1] * b, cost=None if not with_cost else costs[0] if form == 'scalar' else costs))
        self.acc = list(np.cumsum(self.cost))


def freeze(sio):
    return (len(sio), sio.initial_point, sio.cost_inall, [(list(s['select_index']), s['performance'], np.sum(s['cost']) if 'cost' in s.keys() else None)
                                                          for s in sio])


def gen_method(c, nf, length, with_cost, ragged, ips):
    r = c.rng
    batch = r.randint(1, 2)
    uneven = r.random() < .3
    lens = [length if not ragged else r.randint(2, length + 2) for _ in range(nf)]
    return [Fold(c, n, r.randint(0, 100) / 100 if ips else None, batch, with_cost, uneven) for n in lens]


def feed(c, an, name, folds, form, scr):
    if form in ('list', 'container'):
        spoil = c.rng.random() < .4
        logs = [copy.deepcopy(f.sio) if spoil else f.sio for f in folds]
        if form == 'list':
            an.add_method(name, logs)
        else:
            an.add_method(method_name=name, method_results=StateIOContainer(name, logs))
        if spoil:           # what the caller does to its logs afterwards is none of the analyser's business
            for g in logs:
                g[0].set_value('performance', 77.)
                g.add_state(State([0], 99.))
            logs.reverse()
            c.event('spoiled_sources')
    else:
        src = []
        for k, f in enumerate(folds):
            p = os.path.join(scr, '%s-%d.pkl' % (name, k))
            with open(p, 'wb') as g:
                pickle.dump(f.sio, g)
            src.append(p)
        an.add_method(name, StateIOContainer(name, src))
        c.event('files')


def rows(text):
    out = []
    for line in text.splitlines():
        if line.startswith('|'):
            out.append([x.strip() for x in line.strip('|').split('|')])
    return out[0], {row[0]: row[1:] for row in out[1:]}


def drawn(ax):
    return {l.get_label(): (np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.get_lines()}


def has_vertices(c, coll, xs, lo, hi, mech):
    v = np.vstack([p.vertices for p in coll.get_paths()]) if coll.get_paths() else np.zeros((0, 2))
    for x, a, b in zip(xs, lo, hi):
        for y in (a, b):
            c.check(len(v) and np.min(np.abs(v - [x, y]).sum(axis=1)) < 1e-8, mech, '', point=(x, y), vertices=v)
    c.event('bands')


@R.family('queries', 260, 4000, 'analyser over the number of queries')
def queries(c):
    r = c.rng
    scr = c.scratch()
    an = ExperimentAnalyser(x_axis='num_of_queries') if r.random() < .5 else ExperimentAnalyser()
    nm = r.randint(1, 3)
    methods, kinds = {}, {}
    order = list(range(nm))
    if r.random() < .25:
        order.append(r.randrange(nm))          # the results of one method are given anew: these count
        c.event('replaced_methods')
    for k in order:
        name = 'm%d' % k
        nf, length = r.randint(1, 4), r.randint(2, 7)
        kind = r.choice(['list', 'container', 'files', 'plain'])
        ragged = kind != 'plain' and nf > 1 and r.random() < .25
        folds = gen_method(c, nf, length, r.random() < .7, ragged, kind != 'plain' and r.random() < .5)
        before = [freeze(f.sio) for f in folds]
        if kind == 'plain':
            data = [list(f.perf) for f in folds]
            if r.random() < .3:
                data = np.array(data)
            an.add_method(name, data)
            if r.random() < .5:
                data[-1][0] = 55.
                if isinstance(data, list):
                    data[0].append(44.)
                    data.reverse()
                c.event('spoiled_sources')
        else:
            feed(c, an, name, folds, kind, scr)
        c.eq([freeze(f.sio) for f in folds], before, 'queries:log-modified')
        methods[name], kinds[name] = folds, kind
        peek(c, an, methods)
        if folds[0].ip is not None:
            c.event('initial_points')
    ragged_any = any(len({len(f.perf) for f in folds}) > 1 for folds in methods.values())
    if ragged_any:
        c.event('unequal_lengths')
    if len(set(kinds.values()) & {'plain'}) and len(set(kinds.values())) > 1:
        c.event('mixed_kinds')
    c.eq(list(an.get_methods_names()), list(methods), 'queries:names')
    want = {}
    for name, folds in methods.items():
        mat = [([f.ip] if f.ip is not None else []) + f.perf for f in folds]
        want[name] = mat
        got = an.get_extracted_data(name)
        c.eq([[float(v) for v in line] for line in got], mat, 'queries:extracted', '', method=name)
        c.event('extracted')
    head, table = rows(repr(an))
    c.eq(set(table), set(methods), 'queries:table-methods')
    for name, folds in methods.items():
        row = dict(zip(head[1:], table[name]))
        eff = min(len(f.perf) for f in folds)
        c.eq(row['number_of_queries'], str(eff), 'queries:table-length')
        c.eq(row['number_of_different_split'], str(len(folds)), 'queries:table-folds')
        per_fold = [np.mean(([f.ip] if f.ip is not None else []) + f.perf[:eff]) for f in folds]
        allowed = {'%.3f ± %.2f' % (np.mean(per_fold), np.std(per_fold))}
        if kinds[name] == 'plain':      # plain lists: the spread over all values is reported
            allowed.add('%.3f ± %.2f' % (np.mean(want[name]), np.std(want[name])))
        m, s = [float(v) for v in row['performance'].split('±')]
        ok = any(abs(m - float(a.split('±')[0])) < 1.5e-3 and abs(s - float(a.split('±')[1])) < 1.5e-2 for a in allowed)
        c.check(ok, 'queries:table-performance', '', row=row, allowed=allowed)
        sizes = {b for f in folds for b in f.sizes}
        if 'batch_size' in row and kinds[name] != 'plain':
            if len(sizes) == 1:
                c.eq(row['batch_size'], str(list(sizes)[0]), 'queries:table-batch')
            elif any(len(set(f.sizes[:-1])) > 1 for f in folds):
                c.eq(row['batch_size'], 'Not_same_batch_size', 'queries:table-batch-different')
        c.event('summaries')
    for again in range(r.choice([1, 1, 2])):
        done = draw_queries(c, an, methods, want, ragged_any, scr)
    for name, folds in methods.items():
        c.eq([[float(v) for v in line] for line in an.get_extracted_data(name)], want[name], 'queries:drawing-changed-data')
    c.covered((nm, kinds, done, [len(v) for v in want.values()]), nm > 1 or len(want['m0']) > 1)


def peek(c, an, methods):
    """The user may look at any time; what is shown then must not stick."""
    if c.rng.random() < .3:
        head, table = rows(repr(an))
        c.eq(set(table), set(methods), 'table-methods-so-far')
        c.eq(set(an.get_methods_names()), set(methods), 'names-so-far')
        for name in methods:
            c.eq(len(an.get_extracted_data(name)), len(methods[name]), 'extracted-so-far')
        if c.rng.random() < .2:
            plt.close('all')
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if all(len({len(f.perf) for f in folds}) == 1 for folds in methods.values()):
                    an.plot_learning_curves(show=False, saving_path=None)
            plt.close('all')
        c.event('interleaved_looks')


def draw_queries(c, an, methods, want, ragged_any, scr):
    r = c.rng
    plt.close('all')
    start = r.choice([None, None, 0.33])
    interval = r.choice([1, 1, 2, 3])
    shift = r.choice([None, None, 0, 2])
    std = r.random() < .5
    save = r.choice([None, os.path.join(scr, 'fig.png')])
    kw = dict(title=r.choice([None, 'T']), start_point=start, plot_interval=interval, x_shift=shift, std_area=std, show=False, saving_path=save)
    if ragged_any:
        c.raises(Exception, lambda: an.plot_learning_curves(**kw), 'queries:ragged-plotted')
        plt.close('all')
        return 'ragged'
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        an.plot_learning_curves(**kw)
    if save:
        c.check(os.path.getsize(save) > 0, 'queries:figure-not-saved')
    lines = drawn(plt.gca())
    c.eq(set(lines), set(methods), 'queries:curves')
    bands = list(plt.gca().collections)
    for k, (name, mat) in enumerate(want.items()):
        pts = np.mean(mat, axis=0)
        sd = np.std(mat, axis=0)
        idx = np.arange(len(pts))[::interval]
        ip = methods[name][0].ip is not None
        base = (1 if start is not None else (0 if ip else 1) if shift is None else shift)
        xs, ys = idx + base, pts[idx]
        if start is not None:
            c.event('start_point')
            bx, by = np.r_[0, idx + 1], np.r_[start, pts[idx]]
        else:
            bx, by = xs, ys
        gx, gy = lines[name]
        if shift is not None and start is not None:
            # an explicit shift together with a start point: both readings place the points one apart
            c.close(np.diff(gx), np.diff(bx), 'queries:curve-x', '', tol=1e-9)
        else:
            c.close(gx, bx, 'queries:curve-x', '', method=name, start=start, interval=interval, shift=shift, ip=ip, tol=1e-9)
        c.close(gy, by, 'queries:curve-y', '', method=name, tol=1e-9)
        c.event('curves')
        if interval > 1:
            c.event('intervals')
        if std:
            off = gx[1:] if start is not None else gx
            has_vertices(c, bands[k], off, pts[idx] - sd[idx], pts[idx] + sd[idx], 'queries:band')
    plt.close('all')
    return start, interval, shift, std


@R.family('costs', 260, 4000, 'analyser over the accumulated cost')
def costs(c):
    r = c.rng
    scr = c.scratch()
    an = ExperimentAnalyser(x_axis='cost')
    nm = r.randint(1, 3)
    methods, kinds = {}, {}
    order = list(range(nm))
    if r.random() < .25:
        order.append(r.randrange(nm))
        c.event('replaced_methods')
    for k in order:
        name = 'm%d' % k
        nf, length = r.randint(1, 4), r.randint(3, 7)
        kind = r.choice(['list', 'container', 'files', 'plain'])
        folds = gen_method(c, nf, length, True, nf > 1 and r.random() < .5, kind != 'plain' and r.random() < .5)
        before = [freeze(f.sio) for f in folds]
        if kind == 'plain':
            data = [[(ct, p) for ct, p in zip(f.cost, f.perf)] for f in folds]
            an.add_method(name, data)
            if r.random() < .5:
                data[-1][0] = (3., 55.)
                data[0].append((9., 44.))
                data.reverse()
                c.event('spoiled_sources')
        else:
            feed(c, an, name, folds, kind, scr)
        c.eq([freeze(f.sio) for f in folds], before, 'costs:log-modified')
        methods[name], kinds[name] = folds, kind
        if len({len(f.perf) for f in folds}) > 1:
            c.event('unequal_lengths')
        peek(c, an, methods)
        if folds[0].ip is not None:
            c.event('initial_points')
    for name, folds in methods.items():
        got = an.get_extracted_data(name)
        c.eq([[(float(np.sum(t[0])), float(t[1])) for t in line] for line in got],
             [[(float(a), b) for a, b in zip(f.cost, f.perf)] for f in folds], 'costs:extracted')
        c.event('extracted')
    head, table = rows(repr(an))
    c.eq(set(table), set(methods), 'costs:table-methods')
    for name, folds in methods.items():
        row = dict(zip(head[1:], table[name]))
        c.eq(row['number_of_different_split'], str(len(folds)), 'costs:table-folds')
        eff = min(len(f.perf) for f in folds)
        if kinds[name] == 'plain':
            pf = [np.mean(f.perf) for f in folds]
        else:
            pf = [np.mean(([f.ip] if f.ip is not None else []) + f.perf[:eff]) for f in folds]
        m, s = [float(v) for v in row['performance'].split('±')]
        c.check(abs(m - np.mean(pf)) < 1.5e-3 and abs(s - np.std(pf)) < 1.5e-2, 'costs:table-performance', '', row=row, want=(np.mean(pf), np.std(pf)))
        tot = {float(f.acc[-1]) for f in folds}
        if len(tot) == 1:
            c.check(abs(float(row['cost_budget'].strip('[]')) - list(tot)[0]) < 1e-6, 'costs:table-budget', '', row=row, tot=tot)
        else:
            c.eq(row['cost_budget'], 'Not same budget', 'costs:table-budget-differs')
        c.event('summaries')
    for again in range(r.choice([1, 1, 2])):
        done = draw_costs(c, an, methods)
    for name, folds in methods.items():
        c.eq([[(float(np.sum(t[0])), float(t[1])) for t in line] for line in an.get_extracted_data(name)],
             [[(float(a), b) for a, b in zip(f.cost, f.perf)] for f in folds], 'costs:drawing-changed-data')
    c.covered((nm, kinds, done), nm > 1 or len(methods['m0']) > 1)


def draw_costs(c, an, methods):
    r = c.rng
    budget = min(float(f.acc[-1]) for fs in methods.values() for f in fs)
    start = r.choice([None, None, 0.4])
    shift = r.choice([0, 0, 1.5])
    interval = r.choice([None, 0.25, 0.5])
    std = r.random() < .5
    plt.close('all')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        an.plot_learning_curves(start_point=start, x_shift=shift, plot_interval=interval, std_area=std, show=False, saving_path=None)
    lines = drawn(plt.gca())
    c.eq(set(lines), set(methods), 'costs:curves')
    bands = list(plt.gca().collections)
    for k, (name, folds) in enumerate(methods.items()):
        gx, gy = lines[name]
        xs, curves = gx - shift, []
        lo = 0.0
        for f in folds:
            px, py = list(f.acc), list(f.perf)
            first = start if start is not None else f.ip
            if first is not None:
                px, py = [0.0] + px, [first] + py
            lo = max(lo, px[0])
            curves.append(np.interp(xs, px, py))
        if start is not None:
            c.event('start_point')
        n_expect = 0 if budget <= lo else int(np.ceil((budget - lo) / (interval or budget / 100) - 1e-9))
        c.check(abs(len(xs) - n_expect) <= 1, 'costs:curve-extent', '', n=len(xs), expect=n_expect, lo=lo, budget=budget)
        if len(xs):
            c.check(abs(xs[0] - lo) < 1e-9, 'costs:curve-start', '', xs=xs, lo=lo)
            c.check(xs[-1] <= budget + 1e-9, 'costs:curve-end', '', xs=xs, budget=budget)
            step = interval or budget / 100
            c.close(np.diff(xs), np.full(len(xs) - 1, step), 'costs:curve-step', '', tol=1e-7)
            inside = xs < budget - 1e-9
            c.close(gy[inside], np.mean(curves, axis=0)[inside], 'costs:curve-y', '', method=name, start=start, xs=xs, tol=1e-9)
            c.event('interpolated', int(inside.sum()))
            if std and len(xs) > 1:
                p, sd = np.mean(curves, axis=0), np.std(curves, axis=0)
                has_vertices(c, bands[k], gx[inside][:15], (p - sd)[inside][:15], (p + sd)[inside][:15], 'costs:band')
        c.event('curves')
    plt.close('all')
    return start, shift, interval, std, budget


@R.family('containers', 500, 8000, 'StateIOContainer: extraction of any key, iteration, folds added one by one')
def containers(c):
    r = c.rng
    with_cost = r.random() < .7
    folds = gen_method(c, r.randint(1, 4), r.randint(2, 6), with_cost, r.random() < .5, r.random() < .5)
    k = r.randint(0, len(folds))
    box = StateIOContainer('m', [f.sio for f in folds[:k]])
    for f in folds[k:]:
        box.add_fold(f.sio) if r.random() < .5 else box.add_folds([f.sio])
    c.eq(len(box), len(folds), 'containers:len')
    c.eq([freeze(s) for s in box], [freeze(f.sio) for f in folds], 'containers:order')
    c.eq(freeze(box[0]), freeze(folds[0].sio), 'containers:getitem')
    want = [([f.ip] if f.ip is not None else []) + f.perf for f in folds]
    c.eq([list(x) for x in box.extract_matrix()], want, 'containers:performance')
    c.eq([[list(v) for v in x] for x in box.extract_matrix('select_index')], [f.sel for f in folds], 'containers:select')
    if with_cost:
        c.eq([[float(np.sum(v)) for v in x] for x in box.extract_matrix('cost')], [[float(v) for v in f.cost] for f in folds], 'containers:cost')
        got = box.extract_matrix(['select_index', 'cost', 'performance'])
        c.eq([[(list(a), float(np.sum(b)), p) for a, b, p in x] for x in got],
             [[(s, float(q), p) for s, q, p in zip(f.sel, f.cost, f.perf)] for f in folds], 'containers:tuples')
    else:
        c.raises(ValueError, lambda: box.extract_matrix('cost'), 'containers:missing-key-accepted')
        c.raises(ValueError, lambda: box.extract_matrix(['cost', 'performance']), 'containers:missing-keys-accepted')
        an = ExperimentAnalyser('cost')
        c.raises(ValueError, lambda: an.add_method('m', [f.sio for f in folds]), 'containers:cost-free-log-accepted')
    c.raises(TypeError, lambda: box.extract_matrix(5), 'containers:bad-key-type-accepted')
    c.raises(TypeError, lambda: box.add_fold(5), 'containers:bad-fold-accepted')
    # the container owns its logs: the caller's later states do not appear
    folds[0].sio.add_state(State([2], 0.5, cost=1))
    c.eq(len(box[0]), len(folds[0].perf), 'containers:aliases-caller')
    lst = box.to_list()
    lst[0].pop(0)
    c.eq(len(box[0]), len(folds[0].perf), 'containers:to-list-aliases')
    c.event('extracted')
    c.covered((len(folds), k, want), len(folds) > 1)


@R.family('rejections', 60, 400, 'data the analysers cannot analyse are rejected')
def rejections(c):
    r = c.rng
    c.raises(ValueError, lambda: ExperimentAnalyser(r.choice(['time', 'queries'])), 'rejections:axis-accepted')
    a, b = ExperimentAnalyser(), ExperimentAnalyser('cost')
    c.raises(TypeError, lambda: r.choice([a, b]).add_method('m', 'x'), 'rejections:type-accepted')
    c.raises(ValueError, lambda: a.add_method('m', [[(1, .5), (2, .6)]]), 'rejections:tuples-accepted')
    c.raises(ValueError, lambda: b.add_method('m', [[.5, .6]]), 'rejections:plain-accepted')
    f = gen_method(c, 2, 4, True, False, False)
    bad = r.choice([float('nan'), float('inf')])
    f[1].sio.add_state(State([5], bad, cost=1))
    f[0].sio.add_state(State([5], .5, cost=1))
    a.add_method('m', [x.sio for x in f])
    c.raises(ValueError, lambda: a.plot_learning_curves(show=False, saving_path=None), 'rejections:nan-plotted')
    plt.close('all')
    c.covered((bad, c.seed % 31), True)


@R.family('ttest', 800, 10000, 'the paired test decides as recomputed from the data')
def ttest(c):
    r = c.rng
    an = ExperimentAnalyser(r.choice(['num_of_queries', 'cost']))
    n = r.randint(2, 12)
    a = [r.randint(0, 100) / 100 for _ in range(n)]
    eff = r.choice([0, 0.02, 0.1, 0.3])
    b = [v + eff + r.gauss(0, .1) for v in a]
    alpha = r.choice([.01, .05, .1])
    d = np.array(a) - np.array(b)
    sd = d.std(ddof=1)
    p = 2 * stats.t.sf(abs(d.mean() / (sd / np.sqrt(n))), n - 1)
    if abs(p - alpha) < 1e-6 or sd == 0:
        c.skip()
    form = r.choice(['list', 'array', 'column'])
    A, B = (a, b) if form == 'list' else (np.array(a), np.array(b)) if form == 'array' else (np.array(a)[:, None], np.array(b)[:, None])
    c.eq(int(an.paired_ttest(A, B, alpha)), int(p <= alpha), 'ttest:decision', '', a=a, b=b, alpha=alpha, p=p)
    c.eq(int(an.paired_ttest(B, A, alpha=alpha)), int(p <= alpha), 'ttest:asymmetric', '', a=a, b=b, alpha=alpha, p=p)
    c.event('ttests')
    c.covered((a, b, alpha), True)
