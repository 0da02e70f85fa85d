"""C21: the tool box hands out objects consistent with its one data set and split."""
import os
import pickle
import warnings

import numpy as np

from alipy import ToolBox
from alipy.index.index_collections import FeatureIndexCollection, IndexCollection, MultiLabelIndexCollection
from alipy.metrics import performance
from alipy.oracle import Oracle, OracleQueryFeatures, OracleQueryMultiLabel
from rv.core import Registry

R = Registry('C21', 'Boxes over every query type, with and without data, names, given splits and a saving path; everything a box hands out '
                    'is reduced to plain values and compared with the data and split it was built from, again after everything handed out '
                    'was modified in place, and again from the saved file. Non-trivial: the box was split into at least one fold with '
                    'labeled and unlabeled entries.',
             require=('AllLabels', 'AllLabels_multi', 'PartLabels', 'Features', 'named', 'without_X', 'given_split', 'saved_before_split',
                      'saved_after_split', 'reopened', 'mutated', 'costs', 'by_example', 'metrics', 'strategies', 'criteria', 'threads',
                      'rejections_observed', 'column_y', 'second_split_call', 'helpers', 'repositories', 'logs'))


def it(v):
    if isinstance(v, np.ndarray):
        return tuple(it(x) for x in v.tolist())
    if isinstance(v, (list, tuple)):
        return tuple(it(x) for x in v)
    return v.item() if isinstance(v, np.generic) else v


def entries(keys, width):
    """index keys expanded to what they denote"""
    out = set()
    for k in keys:
        if isinstance(k, tuple):
            second = range(width) if len(k) == 1 else ([k[1]] if isinstance(k[1], (int, np.integer)) else k[1])
            out |= {(int(k[0]), int(j)) for j in second}
        else:
            out.add(it(k))
    return out


class Cfg(object):
    pass


def config(c, kind=None, path=None):
    r, nr = c.rng, c.nr
    g = Cfg()
    g.kind = kind or r.choice(['AllLabels', 'AllLabels', 'AllLabels_multi', 'PartLabels', 'Features'])
    g.type = g.kind.split('_')[0]
    g.multi = g.kind in ('AllLabels_multi', 'PartLabels')
    g.n, g.d = r.randint(14, 30), r.randint(2, 4)
    g.X = nr.randn(g.n, g.d)
    if g.multi:
        g.nl = r.randint(2, 4)
        g.y = np.where(nr.rand(g.n, g.nl) < .5, 1, r.choice([0, -1]))
    else:
        g.nl = r.choice([2, 2, 3])
        g.y = np.arange(g.n) % g.nl
        nr.shuffle(g.y)
        if r.random() < .2:
            g.y = np.array(['a', 'b', 'c'])[g.y]
    g.names = None
    kw = dict(query_type=g.type, saving_path=path)
    if g.kind == 'AllLabels' and r.random() < .35:
        g.names = r.sample(range(100, 400), g.n) if r.random() < .5 else ['s%d' % i for i in r.sample(range(100), g.n)]
        kw['instance_indexes'] = list(g.names)
        c.event('named')
    g.has_X = g.type == 'Features' or r.random() < .8
    c.event('without_X', not g.has_X)
    g.ids = g.names if g.names is not None else list(range(g.n))
    g.folds = r.randint(1, 3)
    y = g.y.copy()
    if y.ndim == 1 and r.random() < .15:
        y = y.reshape(-1, 1)
        c.event('column_y')
    if r.random() < .3:
        y = y.tolist()
    g.given = None
    if r.random() < .25:
        g.given = given_split(c, g)
        kw.update(zip(('train_idx', 'test_idx', 'label_idx', 'unlabel_idx'), g.given))
        c.event('given_split')
    g.kw = kw
    g.box = ToolBox(y=y, X=g.X.copy() if g.has_X else None, **kw)
    if g.names is not None:             # the caller's list stays the caller's
        kw['instance_indexes'].reverse()
        kw['instance_indexes'][0] = 'other'
    if g.given is not None:
        g.was = it(g.given)
        for part in g.given:            # the caller's lists stay the caller's
            part[0].reverse()
            part[0].pop()
    c.event(g.kind)
    return g


def given_split(c, g):
    r = c.rng
    tr, te, la, un = [], [], [], []
    for _ in range(g.folds):
        p = r.sample(range(g.n), g.n)
        k = r.randint(6, g.n - 3)
        tr.append([g.ids[i] for i in p[:k]])
        te.append([g.ids[i] for i in p[k:]])
        m = r.randint(2, k - 2)
        if g.kind == 'AllLabels':
            la.append([g.ids[i] for i in p[:m]])
            un.append([g.ids[i] for i in p[m:k]])
        elif g.kind == 'AllLabels_multi':
            la.append([(i,) for i in p[:m]])
            un.append([(i,) for i in p[m:k]])
        else:
            w = g.d if g.kind == 'Features' else g.nl
            ent = [(i, j) for i in p[:k] for j in range(w)]
            r.shuffle(ent)
            la.append(ent[:m])
            un.append(ent[m:])
    return tr, te, la, un


def do_split(c, g):
    if g.given is None:
        s = c.rng.randrange(10 ** 6)
        np.random.seed(s)
        te, la = c.rng.choice([.2, .3, .5]), c.rng.choice([.2, .3, .4])
        every = c.rng.random() < .4 and g.kind == 'AllLabels' and round(la * int(round((1 - te) * g.n))) >= g.nl
        g.out = g.box.split_AL(test_ratio=te, initial_label_rate=la, split_count=g.folds, all_class=every)
        g.was = it(g.out)
        pos = {k: i for i, k in enumerate(g.ids)}
        for a, b, L, U in zip(*g.was):
            c.eq(len(a), int(round((1 - te) * g.n)), 'box:split-size', 'size of the training set', kind=g.kind)
            parts = 1 if g.kind == 'AllLabels' else g.d if g.type == 'Features' else g.nl
            if g.type == 'Features':
                want = la * len(a) * parts
                ok = abs(len(entries(L, parts)) - want) <= .5 + 1e-6
            else:
                ok = len(entries(L, parts)) == max(1, int(round(la * len(a)))) * parts
            c.check(ok, 'box:split-size', 'size of the initially labeled set', kind=g.kind, rate=la, train=len(a), got=len(entries(L, parts)))
            c.check(not every or {it(g.y[pos[k]]) for k in L} == set(it(g.y)), 'box:class-missing', 'each class is in the initial labeled set',
                    labeled=L, names=g.names is not None)
        c.event('all_class', every)
        c.event('all_class_named', every and g.names is not None)
    else:
        g.out = g.box.get_split()


def costs_for(c, g):
    if c.rng.random() < .5:
        return None
    if g.multi or g.type == 'Features':
        w = g.nl if g.multi else g.d
        return (c.nr.rand(w) * 3 + 1) if c.rng.random() < .5 else c.nr.rand(g.n, w) + .5
    return c.nr.rand(g.n) + .5


def observe(g, box, cost, Z=None, keep=None):
    """everything the box shows, as plain values; the handed out objects go to keep"""
    keep = [] if keep is None else keep
    Z = g.X if g.has_X else None
    o = {}
    whole = box.get_split()
    keep.append(whole)
    o['split'] = it([[list(f) for f in part] for part in whole])
    orc = box.get_clean_oracle(cost_mat=None if cost is None else cost.copy())
    keep.append(orc)
    if g.multi or g.type == 'Features':
        w = g.nl if g.multi else g.d
        ans = [orc.query_by_index((i,)) for i in range(g.n)]
        one = [orc.query_by_index((i, j)) for i in range(g.n) for j in range(w)]
        o['cells'] = [(it(a[0][0]), round(float(np.sum(a[1])), 9)) for a in one]
    else:
        ans = [orc.query_by_index(i) for i in g.ids]
    keep.append(ans)
    o['answers'] = [(it(a[0][0]), round(float(np.sum(a[1])), 9)) for a in ans]
    for f in range(box.split_count):
        tr, te, L, U = got = box.get_split(f)
        keep.append(got)
        o['fold', f] = (it(list(tr)), it(list(te)), sorted(it(list(L)), key=str), sorted(it(list(U)), key=str))
        o['types', f] = (type(L).__name__, type(U).__name__)
        rep = box.get_repository(f, instance_flag=g.has_X)
        keep.append(rep)
        Xt, yt, it_ = rep.get_training_data()
        keep.append((Xt, yt, it_))
        o['repo', f] = sorted(zip(it(list(it_)), it(list(yt)), it(list(Xt)) if g.has_X else it_.tolist()), key=str)
        log = box.get_stateio(f, verbose=False)
        keep.append(log)
        a, b, L0, U0 = log.get_workspace(0)
        o['log', f] = (it(list(a)), it(list(b)), sorted(it(list(L0)), key=str), sorted(it(list(U0)), key=str), log.round)
        keep.append((a, b, L0, U0))
    return o


def wreck(c, keep):
    """modify in place whatever was handed out"""
    def hit(v, depth=0):
        if isinstance(v, np.ndarray):
            if v.flags.writeable and v.size:
                if v.dtype.kind in 'fiu':
                    v[...] = 77
                elif v.dtype.kind in 'US':
                    v[...] = 'zz'
        elif isinstance(v, MultiLabelIndexCollection):
            for e in list(v)[:2]:
                v.discard(e)
            v.add((0, 0)) if (0, 0) not in v else None
        elif isinstance(v, IndexCollection):
            ks = list(v)
            v.difference_update(ks[:2])
        elif isinstance(v, (list, tuple)) and depth < 4:
            for x in v:
                hit(x, depth + 1)
            if isinstance(v, list) and v and not isinstance(v[0], (np.ndarray, list)):
                v.reverse()
                v.pop()
            elif isinstance(v, list):
                del v[:]
        elif isinstance(v, (Oracle,)):
            pass
        elif hasattr(v, 'clear') and hasattr(v, 'get_training_data'):
            v.clear()
        elif hasattr(v, 'init_L'):
            for x in (v.init_L, v.init_U, v.train_idx, v.test_idx):
                hit(x, depth + 1)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for v in keep:
            hit(v)
    c.event('mutated', len(keep))


def direct(c, g, cost, o):
    """compare with the data and split themselves"""
    w = g.nl if g.multi else g.d
    V = g.X if g.type == 'Features' else g.y
    unit = 1. if cost is None else None
    if g.multi or g.type == 'Features':
        cm = None if cost is None else (np.tile(cost, (g.n, 1)) if cost.ndim == 1 else cost)
        want = [(it(V[i]), round(float(w if cm is None else cm[i].sum()), 9)) for i in range(g.n)]
        got = [(a, b) for a, b in o['answers']]
        if cm is None:
            got, want = [a for a, _ in got], [a for a, _ in want]
        c.check(got == want, 'box:oracle-answer', 'the oracle answers with the labels and costs', kind=g.kind, first=next(
            ((x, y) for x, y in zip(got, want) if x != y), None))
        cells = [((it(V[i, j])), round(float(1 if cm is None else cm[i, j]), 9)) for i in range(g.n) for j in range(w)]
        gc = [(a[0] if isinstance(a, tuple) else a, b) for a, b in o['cells']]
        if cm is None:
            gc, cells = [a for a, _ in gc], [a for a, _ in cells]
        c.check(gc == cells, 'box:oracle-answer', 'single entries', kind=g.kind)
    else:
        want = [(it(g.y[k]), round(float(1 if cost is None else cost[k]), 9)) for k in range(g.n)]
        c.check(o['answers'] == want, 'box:oracle-answer', 'the oracle answers with the labels and costs', kind=g.kind,
                first=next(((x, y) for x, y in zip(o['answers'], want) if x != y), None))
    pos = {k: i for i, k in enumerate(g.ids)}
    tr, te, la, un = o['split']
    c.check(o['split'] == g.was, 'box:split-changed', 'the split is the one made or given')
    c.check(len(tr) == len(te) == len(la) == len(un) == g.folds, 'box:fold-count', '')
    for f in range(g.folds):
        a, b, L, U = o['fold', f]
        c.check(a == tr[f] and b == te[f], 'box:fold-split', 'train and test indexes of the fold', fold=f)
        c.check(entries(L, w) == entries(la[f], w) and entries(U, w) == entries(un[f], w), 'box:fold-split',
                'the collections hold the stored labeled and unlabeled indexes', fold=f, kind=g.kind)
        cls = {'AllLabels': 'IndexCollection', 'Features': 'FeatureIndexCollection'}.get(g.kind, 'MultiLabelIndexCollection')
        c.eq(o['types', f], (cls, cls), 'box:collection-type', '')
        ids = a + b
        c.check(sorted(map(str, ids)) == sorted(map(str, g.ids)), 'box:partition', 'train and test divide the data', fold=f)
        Le, Ue = entries(L, w), entries(U, w)
        c.check(not Le & Ue, 'box:labeled-and-unlabeled', '', fold=f)
        # repository: the labels of the labeled set
        c.event('repositories')
        want = []
        if g.kind == 'AllLabels':
            for k in Le:
                want.append((k, it(g.y[pos[k]]), it(g.X[pos[k]]) if g.has_X else k))
        elif g.kind == 'AllLabels_multi':
            for i in {e[0] for e in Le}:
                want.append((i, it(g.y[i]), it(g.X[i]) if g.has_X else i))
        else:
            for e in Le:
                want.append((e, it(V[e]), it(g.X[e[0]]) if g.has_X else None))
        got = o['repo', f]
        if not g.has_X and g.kind not in ('AllLabels', 'AllLabels_multi'):
            got = [(k, v, None) for k, v, _ in got]
        c.check(sorted(want, key=str) == sorted(got, key=str), 'box:repository', 'it starts with the labels of the labeled set', kind=g.kind,
                fold=f, want=sorted(want, key=str)[:3], got=sorted(got, key=str)[:3])
        c.event('logs')
        x, y, L0, U0, rd = o['log', f]
        c.check(x == a and y == b and entries(L0, w) == Le and entries(U0, w) == Ue and rd == f, 'box:log', 'the log starts at the split',
                fold=f)


@R.family('boxes', quick=900, thorough=15000)
def boxes(c):
    g = config(c)
    do_split(c, g)
    cost = costs_for(c, g)
    c.event('costs', cost is not None)
    yc, Xc = g.y.copy(), g.X.copy()
    keep = [g.out]
    a = observe(g, g.box, cost, keep=keep)
    direct(c, g, cost, a)
    if g.given is None and c.rng.random() < .3:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            again = g.box.split_AL(test_ratio=.4, split_count=g.folds + 1)
        c.event('second_split_call')
        c.check(it(again) == g.was, 'box:resplit', 'a box keeps its one split')
        keep.append(again)
    # two things handed out for the same fold are independent of each other
    f = c.rng.randrange(g.folds)
    one, two = g.box.get_split(f), g.box.get_split(f)
    before = [it(list(v)) for v in two]
    wreck(c, [one])
    c.check([it(list(v)) for v in two] == before, 'box:shared-collections', 'two requests for a fold give independent objects', kind=g.kind)
    wreck(c, keep)
    b = observe(g, g.box, cost)
    diff = [k for k in a if a[k] != b.get(k)]
    c.check(not diff, 'box:shared-state', 'modifying what was handed out changes nothing in the box', changed=diff, kind=g.kind)
    c.check((g.y == yc).all() and (g.X == Xc).all(), 'box:data-modified', '')
    if g.has_X and g.type != 'Features':
        orc = g.box.get_clean_oracle(query_by_example=True, cost_mat=None if cost is None else cost.copy())
        c.event('by_example')
        for i in c.rng.sample(range(g.n), 4):
            ex = g.X[i].copy()
            lab, _ = orc.query_by_example([(ex,)] if g.multi else ex)
            c.eq(it(lab[0]), it(g.y[i]), 'box:by-example', 'the answer about an example is its label', kind=g.kind)
    c.covered((g.kind, g.X.tobytes(), g.folds), True)


@R.family('saved boxes', quick=450, thorough=7500)
def saved(c):
    d = c.scratch()
    name = c.rng.choice([None, 'box.pkl', 'my settings'])
    path = d if name is None else os.path.join(d, name)
    g = config(c, path=path)
    file = os.path.join(d, 'al_settings.pkl') if name is None else path
    c.check(os.path.isfile(file), 'save:no-file', 'a box with a saving path is saved when made')
    if g.given is None and c.rng.random() < .4:
        early = ToolBox.load(file)
        c.event('saved_before_split')
        ok = False
        try:
            early.get_split()
        except Exception:
            ok = True
            c.event('rejections_observed')
        c.check(ok, 'save:unsplit', 'a box saved before the split has none')
    do_split(c, g)
    cost = costs_for(c, g)
    a = observe(g, g.box, cost)
    if c.rng.random() < .3:
        g.box.save()
    how = c.rng.choice(['load', 'reopen', 'pickle'])
    if how == 'load':
        cwd = os.getcwd()
        if c.rng.random() < .3:
            os.chdir(d)
            try:
                other = ToolBox.load(os.path.basename(file))
            finally:
                os.chdir(cwd)
        else:
            other = ToolBox.load(file)
        c.event('saved_after_split')
    elif how == 'reopen':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            other = ToolBox(y=[0, 1] * 5, X=np.zeros((10, 2)), query_type='AllLabels', saving_path=path)
        c.event('reopened')
    else:
        other = pickle.loads(pickle.dumps(g.box))
    c.check(isinstance(other, ToolBox), 'load:type', '')
    b = observe(g, other, cost)
    diff = [k for k in a if a[k] != b.get(k)]
    c.check(not diff, 'load:differs', 'a loaded box behaves like the saved one', changed=diff, kind=g.kind, how=how)
    direct(c, g, cost, b)
    c.eq(other.query_type, g.type, 'load:query-type', '')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        c.check(it(other.split_AL(split_count=1)) == g.was, 'load:resplit', 'a loaded box keeps its split')
    # using one of them does not move the other
    keep = []
    observe(g, other, cost, keep=keep)
    wreck(c, keep)
    e = observe(g, g.box, cost)
    c.check(all(a[k] == e.get(k) for k in a), 'load:shared-state', '', kind=g.kind)
    c.covered((g.kind, g.X.tobytes(), how), True)


class Note(object):
    """a picklable-by-reference recorder for fold functions"""
    seen = []


def fold_function(round, train_id, test_id, Ucollection, Lcollection, saver, examples, labels, global_parameters):
    Note.seen.append((round, it(list(train_id)), it(list(test_id)), sorted(it(list(Lcollection)), key=str),
                      sorted(it(list(Ucollection)), key=str), np.array(examples), np.array(labels)))
    for e in list(Ucollection)[:1]:
        Ucollection.difference_update([e])
        Lcollection.update([e])


@R.family('threads', quick=24, thorough=300)
def threads(c):
    g = config(c, kind=c.rng.choice(['AllLabels', 'AllLabels_multi', 'PartLabels']))
    if not g.has_X:
        c.check(raises(lambda: g.box.get_ace_threading(fold_function)), 'threads:accepted-without-data', '')
        c.event('rejections_observed')
        return
    do_split(c, g)
    a = observe(g, g.box, None)
    del Note.seen[:]
    t = g.box.get_ace_threading(target_function=fold_function, max_thread=2, refresh_interval=.05, saving_path=c.scratch())
    t.start_all_threads(global_parameters=None)
    c.event('threads')
    c.eq(sorted(s[0] for s in Note.seen), list(range(g.folds)), 'threads:folds', 'each fold runs once')
    w = g.nl
    for rd, tr, te, L, U, X, y in Note.seen:
        fo = a['fold', rd]
        c.check(tr == fo[0] and te == fo[1] and entries(L, w) == entries(fo[2], w) and entries(U, w) == entries(fo[3], w), 'threads:split',
                'a fold works on its own split', fold=rd)
        c.check(X.shape == g.X.shape and (X == g.X).all() and (y == g.y).all(), 'threads:data', '')
    b = observe(g, g.box, None)
    c.check(a == b, 'threads:shared-state', 'running the folds changes nothing in the box', kind=g.kind)
    c.covered((g.kind, g.X.tobytes()), True)


def raises(f, *kinds):
    try:
        f()
    except kinds or Exception:
        return True
    return False


SINGLE = ['QueryInstanceRandom', 'QueryInstanceUncertainty', 'QueryInstanceQBC', 'QueryExpectedErrorReduction', 'QueryInstanceGraphDensity',
          'QueryInstanceQUIRE']


@R.family('tools', quick=500, thorough=9000)
def tools(c):
    r, nr = c.rng, c.nr
    g = config(c)
    do_split(c, g)
    box = g.box
    # strategies work on the box's data
    if g.has_X and g.y.dtype.kind in 'iu' and not g.multi and g.type == 'AllLabels' and g.names is None:
        for name in r.sample(SINGLE[:4], 2):
            q = box.get_query_strategy(name)
            c.event('strategies')
            c.eq(type(q).__name__, name, 'strategy:type', '')
            c.check((np.asarray(q.X) == g.X).all() and (np.asarray(q.y) == g.y).all(), 'strategy:data', 'built on the data of the box')
            tr, te, L, U = box.get_split(0)
            if name == 'QueryInstanceRandom':
                got = q.select(L, U, batch_size=1)
                c.check(len(got) == 1 and got[0] in U, 'strategy:select', '')
    elif g.multi and g.has_X:
        q = box.get_query_strategy('QueryMultiLabelRandom')
        c.event('strategies')
        c.check((np.asarray(q.X) == g.X).all() and (np.asarray(q.y) == g.y).all(), 'strategy:data', '')
    if g.has_X:
        c.check(raises(lambda: box.get_query_strategy('NoSuchStrategy'), KeyError), 'strategy:unknown-accepted', '')
    # metrics equal the direct computation
    m = r.randint(2, 12)
    yt, yp = nr.randint(0, 2, m), nr.randint(0, 2, m)
    yt[:2] = 0, 1
    sc = nr.rand(m).round(1)
    c.event('metrics')
    c.close(box.calc_performance_metric(yt, yp), np.mean(yt == yp), 'metric:accuracy', 'the default is the accuracy')
    pos = [(a, b) for a in sc[yt == 1] for b in sc[yt == 0]]
    auc = np.mean([1. if a > b else .5 if a == b else 0. for a, b in pos])
    form = r.choice(['1d', '2d'])
    arg = sc if form == '1d' else np.column_stack([1 - sc, sc])
    c.close(box.calc_performance_metric(yt, arg, performance_metric='roc_auc_score'), auc, 'metric:roc_auc',
            'probability of ranking a positive first', form=form)
    tp, fp, fn = ((yt == 1) & (yp == 1)).sum(), ((yt == 0) & (yp == 1)).sum(), ((yt == 1) & (yp == 0)).sum()
    c.close(box.calc_performance_metric(yt, yp, performance_metric='f1_score'), 2. * tp / (2 * tp + fp + fn) if tp else 0., 'metric:f1', '')
    Yt = nr.randint(0, 2, (m, 3))
    Yt[:, 0], Yt[:, 1] = 1, 0
    Sc = nr.rand(m, 3)
    Yp = nr.randint(0, 2, (m, 3))
    c.close(box.calc_performance_metric(Yt, Yp, performance_metric='hamming_loss'), np.mean(Yt != Yp), 'metric:hamming', '')
    for nm in ('one_error', 'coverage_error', 'label_ranking_loss', 'label_ranking_average_precision_score'):
        c.close(box.calc_performance_metric(y_true=Yt, y_pred=Sc, performance_metric=nm), getattr(performance, nm)(Yt, Sc), 'metric:' + nm,
                'equals the metric called directly')
    c.check(raises(lambda: box.calc_performance_metric(yt, yp, performance_metric='nope'), NotImplementedError), 'metric:unknown-accepted', '')
    # stopping criteria are fresh and follow a log of the box
    k = r.randint(1, 4)
    sk = box.get_stopping_criterion('num_of_queries', k)
    other = box.get_stopping_criterion('num_of_queries', k)
    f = r.randrange(g.folds)
    log = box.get_stateio(f, verbose=False)
    tr, te, L, U = box.get_split(f)
    steps = 0
    c.event('criteria')
    for e in list(U)[:k]:
        c.check(not sk.is_stop(), 'criterion:early', '', k=k, steps=steps)
        log.add_state(box.State(select_index=[e], performance=.5))
        sk.update_information(log)
        steps += 1
    if steps == k:
        c.check(sk.is_stop() and not other.is_stop(), 'criterion:late-or-shared', 'k queries of this log, none of another', k=k)
    fresh = box.get_stateio(f, verbose=False)
    c.eq(len(fresh), 0, 'log:shared', 'a new log of the fold is empty')
    # helpers
    c.event('helpers')
    keys = r.sample(range(g.n), 3)
    c.eq(sorted(box.IndexCollection(keys)), sorted(keys), 'helper:IndexCollection', '')
    if g.multi:
        P = [(keys[0], 0), (keys[1], g.nl - 1)]
        ml = box.MultiLabelIndexCollection(P)
        c.eq(sorted(ml), sorted(P), 'helper:MultiLabel', '')
        ml = box.MultiLabelIndexCollection(P, label_mat_shape=(g.n, g.nl + 1))
        ml.add((keys[2], g.nl))
        ids = [i + j * g.n for i, j in P]
        c.eq(sorted(box.MultiLabelIndexCollection(ids)), sorted(P), 'helper:MultiLabel-1d', 'column major ids')
        ids = [i * g.nl + j for i, j in P]
        c.eq(sorted(box.MultiLabelIndexCollection(np.array(ids), order='C')), sorted(P), 'helper:MultiLabel-1d', 'row major ids')
    st = box.State(select_index=keys, performance=.25, queried_label=[1, 2, 3], cost=[1, 1, 2])
    c.eq((st.get_value('performance'), it(st.get_value('select_index')), st.get_value('queried_label'), st.get_value('cost')),
         (.25, tuple(keys), [1, 2, 3], [1, 1, 2]), 'helper:State', '')
    md = box.get_default_model()
    md.fit(nr.randn(6, 2), [0, 1, 0, 1, 0, 1])
    c.check(md is not box.get_default_model() and not hasattr(box.get_default_model(), 'coef_'), 'helper:default-model-shared',
            'a new model every time')
    an, bn = box.get_experiment_analyser(), box.get_experiment_analyser()
    if steps:
        an.add_method('a-method', [log])
        c.check('a-method' in an.get_methods_names() and not list(bn.get_methods_names()), 'helper:analyser-shared', 'a new analyser every time')
    c.check(raises(lambda: box.get_split(g.folds)) and raises(lambda: box.get_split(-1)) and raises(lambda: box.get_stateio(g.folds)),
            'box:fold-out-of-range', '')
    c.check(raises(lambda: ToolBox(y=g.y, X=g.X, query_type='Relations'), NotImplementedError), 'box:query-type', '')
    c.check(raises(lambda: ToolBox(y=g.y, X=g.X[:-1])) and raises(lambda: ToolBox(y=g.y, instance_indexes=[1, 2])) and
            raises(lambda: ToolBox(y=g.y, query_type='Features')) and
            raises(lambda: ToolBox(y=g.y, X=g.X, train_idx=[[0]], test_idx=[[1]], label_idx=[[0]], unlabel_idx=[])),
            'box:inconsistent-data-accepted', '')
    c.event('rejections_observed')
    c.covered((g.kind, g.X.tobytes(), k), True)
