"""C19: performance metrics equal their mathematical definitions."""
import itertools

import numpy as np
from scipy.sparse import csr_matrix

from alipy import metrics as M
from rv.core import Registry

R = Registry('C19', 'Random label/score tables with many ties, single-class columns, degenerate rows, weights, list/array/sparse/string/'
                    'boolean forms; each returned value is compared with a brute-force evaluation of the definition, and the metric is '
                    'called again on permuted instances. Non-trivial: neither all right nor all wrong.',
             require=('compared', 'weighted', 'ties', 'permuted', 'degenerate_rows', 'sparse', 'strings', 'column_vector', 'one_class_rejected',
                      'rejections_observed', 'multilabel', 'curves', 'unnormalized', 'near_ties', 'small_integers', 'vast_scores', 'many_labels'))


def wavg(vals, w):
    w = [1.0] * len(vals) if w is None else list(w)
    return sum(float(v) * x for v, x in zip(vals, w)) / sum(w)


def snap(*arrs):
    return [None if a is None else (a.toarray().copy() if hasattr(a, 'toarray') else np.array(a, copy=True)) for a in arrs]


def same(a, b):
    return all((x is None and y is None) or np.array_equal(x, y) for x, y in zip(a, b))


def call(c, name, fn, args, kw, perm_rows=None):
    """Call, check the inputs stay as they were."""
    vals = list(args) + list(kw.values())
    before = snap(*[v for v in vals if isinstance(v, (list, np.ndarray)) or hasattr(v, 'toarray')])
    got = fn(*args, **kw)
    after = snap(*[v for v in vals if isinstance(v, (list, np.ndarray)) or hasattr(v, 'toarray')])
    c.check(same(before, after), name + ':modified-input')
    return got


def take(a, p):
    if a is None:
        return None
    if isinstance(a, list):
        return [a[i] for i in p]
    return a[p]


def judge(c, name, fn, yt, yp, w, want, lo=0.0, hi=1.0, tol=1e-9, **kw):
    if w is not None:
        kw = dict(kw, sample_weight=w)
        c.event('weighted')
    got = call(c, name, fn, (yt, yp), kw)
    c.close(float(got), want, name + ':value', '', y_true=yt, y=yp, weight=w, kw=kw, tol=tol)
    c.check(lo - 1e-9 <= float(got) <= hi + 1e-9, name + ':range', '', got=got)
    n = yt.shape[0] if hasattr(yt, 'shape') else len(yt)
    p = list(c.nr.permutation(n))
    kw2 = dict(kw)
    if w is not None:
        kw2['sample_weight'] = take(w, p)
    got2 = fn(take(yt, p), take(yp, p), **kw2)
    c.close(float(got2), float(got), name + ':permuted', '', y_true=yt, y=yp, p=p, tol=1e-9)
    c.event('permuted')
    c.event('compared')
    return got


def weights(c, n):
    r = c.rng
    if r.random() < .5:
        return None
    w = [r.choice([1, 2, 0.5, 3, 0.25]) for _ in range(n)]
    if r.random() < .2 and n > 2:
        w[r.randrange(n)] = 0
    return w if r.random() < .4 else np.array(w, dtype=float)


def auc(pos_scores, neg_scores, wp, wn):
    tot = 0.0
    for a, x in zip(pos_scores, wp):
        for b, z in zip(neg_scores, wn):
            tot += x * z * (1.0 if a > b else 0.5 if a == b else 0.0)
    return tot / (sum(wp) * sum(wn))


def scores(c, shape):
    k = c.rng.choice(['coarse', 'fine', 'int', 'neg', 'near', 'vast', 'small'])
    if k == 'coarse':
        return c.nr.randint(0, 4, size=shape) / 4.0
    if k == 'near':             # scores which differ in their last digits only
        c.event('near_ties')
        return c.nr.randint(0, 2, size=shape) + c.nr.randint(0, 3, size=shape) * c.rng.choice([1e-7, 1e-9, 1e-12])
    if k == 'vast':
        c.event('vast_scores')
        return c.nr.randn(*shape) * 10.0 ** c.nr.randint(-8, 9, size=shape) if isinstance(shape, tuple) else c.nr.randn(shape) * 1e9
    if k == 'int':
        return c.nr.randint(-3, 4, size=shape)
    if k == 'small':            # small integer and boolean scores
        c.event('small_integers')
        t = c.rng.choice([np.uint8, np.int8, bool])
        return c.nr.randint(0, 2, size=shape).astype(bool) if t is bool else \
            (c.nr.choice([0, 1, 2, 200, 255], size=shape) if t is np.uint8 else c.nr.choice([-128, -127, 0, 1, 127], size=shape)).astype(t)
    s = c.nr.rand(*shape) if isinstance(shape, tuple) else c.nr.rand(shape)
    return s - 0.5 if k == 'neg' else s


@R.family('classification', 2500, 50000, 'accuracy, zero-one loss, Hamming loss, F1 on binary / multi-class labels')
def classification(c):
    r = c.rng
    n = r.randint(1, 14) if r.random() < .95 else r.randint(40, 130)
    ncl = r.choice([1, 2, 2, 3, 5])
    alphabet = r.choice([list(range(ncl)), [-1, 1, 3, 5, 7][:ncl], ['ant', 'bee', 'cat', 'dog', 'eel'][:ncl], [0.5, 1.5, 2.5, 3.5, 4.5][:ncl]])
    yt = [r.choice(alphabet) for _ in range(n)]
    yp = [r.choice(alphabet) if r.random() < .6 else t for t in yt]
    w = weights(c, n)
    if w is not None and not sum(w):
        w = None
    if isinstance(alphabet[0], str):
        c.event('strings')
    form = r.choice(['list', 'array', 'array', 'column', 'mixed'])
    a, b = (list(yt), list(yp)) if form == 'list' else (np.array(yt), np.array(yp))
    if form == 'mixed':
        a = list(yt)
    if form == 'column':
        a = np.array(yt).reshape(-1, 1)
        if r.random() < .5:
            b = b.reshape(-1, 1)
        c.event('column_vector')
    right = [t == p for t, p in zip(yt, yp)]
    ww = w
    judge(c, 'accuracy', M.accuracy_score, a, b, ww, wavg(right, w))
    judge(c, 'zero-one', M.zero_one_loss, a, b, ww, 1 - wavg(right, w))
    wl = [1] * n if w is None else list(w)
    judge(c, 'zero-one-count', M.zero_one_loss, a, b, ww, sum(x for ok, x in zip(right, wl) if not ok), hi=sum(wl), normalize=False)
    c.event('unnormalized')
    judge(c, 'hamming', M.hamming_loss, a, b, None, 1 - wavg(right, None))
    if set(alphabet) == {0, 1}:
        tp = sum(x for t, p, x in zip(yt, yp, wl) if t == 1 and p == 1)
        den = sum(x for t, x in zip(yt, wl) if t == 1) + sum(x for p, x in zip(yp, wl) if p == 1)
        if form != 'column':
            judge(c, 'f1', M.f1_score, a, b, ww, 2 * tp / den if den else 0.0)
    bad = b[:-1] if form != 'list' else b[:-1]
    if n > 1:
        for nm, f in (('accuracy', M.accuracy_score), ('zero-one', M.zero_one_loss), ('hamming', M.hamming_loss)):
            c.raises(ValueError, lambda: f(a, bad), nm + ':mismatch-accepted')
        c.raises(ValueError, lambda: M.accuracy_score(a, b, sample_weight=[1.0] * (n - 1)), 'accuracy:weight-mismatch-accepted')
    c.covered((yt, yp, None if w is None else list(w), form), 0 < sum(right) < n)


@R.family('multilabel', 2000, 40000, 'accuracy, zero-one and Hamming loss on label indicator matrices (dense, boolean, sparse)')
def multilabel(c):
    r = c.rng
    n, k = (r.randint(1, 10), r.randint(2, 5)) if r.random() < .9 else (r.randint(1, 60), r.randint(6, 40))
    yt = c.nr.randint(0, 2, size=(n, k))
    flip = c.nr.rand(n, k) < r.choice([0.05, 0.2, 0.5] if k < 8 else [0.02, .05, .2])
    yp = np.where(flip, 1 - yt, yt)
    w = weights(c, n)
    form = r.choice(['dense', 'dense', 'bool', 'sparse', 'list', 'pm'])
    a, b = yt, yp
    if form == 'bool':
        a, b = yt.astype(bool), yp.astype(bool)
    elif form == 'sparse':
        a, b = csr_matrix(yt), csr_matrix(yp)
        c.event('sparse')
    elif form == 'list':
        a, b = yt.tolist(), yp.tolist()
    elif form == 'pm':
        a, b = yt * 2 - 1, yp * 2 - 1
    right = [bool(np.all(yt[i] == yp[i])) for i in range(n)]
    c.event('many_labels', k > 7)
    wl = [1] * n if w is None else list(w)
    judge(c, 'ml-accuracy', M.accuracy_score, a, b, w, wavg(right, w))
    judge(c, 'ml-zero-one', M.zero_one_loss, a, b, w, 1 - wavg(right, w))
    judge(c, 'ml-zero-one-count', M.zero_one_loss, a, b, w, sum(x for ok, x in zip(right, wl) if not ok), hi=sum(wl), normalize=False)
    judge(c, 'ml-hamming', M.hamming_loss, a, b, None, float(np.mean(yt != yp)))
    c.event('multilabel')
    if form in ('dense', 'bool'):
        for nm, f in (('ml-accuracy', M.accuracy_score), ('ml-hamming', M.hamming_loss)):
            c.raises(ValueError, lambda: f(a, np.hstack([b, b[:, :1]])), nm + ':column-mismatch-accepted')
            c.raises(ValueError, lambda: f(a, np.vstack([b, b[:1]])), nm + ':row-mismatch-accepted')
    c.covered((yt.tolist(), yp.tolist(), form), 0 < sum(right) < n)


@R.family('binary_scores', 2000, 40000, 'ROC AUC, ROC curve, precision-recall curve, cumulative counts of binary scores with ties')
def binary_scores(c):
    r = c.rng
    n = r.randint(2, 16) if r.random() < .95 else r.randint(40, 120)
    enc = r.choice([(0, 1), (0, 1), (-1, 1), ('no', 'yes'), (2, 5)])
    y01 = c.nr.randint(0, 2, size=n)
    s = scores(c, n)
    w = weights(c, n)
    yt = np.array([enc[v] for v in y01])
    kw = {} if enc in ((0, 1), (-1, 1)) else {'pos_label': enc[1]}
    wl = np.ones(n) if w is None else np.asarray(w, dtype=float)
    P, N = y01 == 1, y01 == 0
    if len(set(s.tolist())) < n:
        c.event('ties')
    if not wl[P].sum() or not wl[N].sum():
        if not P.any() or not N.any():
            c.raises(ValueError, lambda: M.roc_auc_score(yt, s, **kw), 'auc:one-class-accepted')
            c.event('one_class_rejected')
        c.covered((y01.tolist(), s.tolist()), False)
        return
    want = auc(s[P], s[N], wl[P], wl[N])
    judge(c, 'auc', M.roc_auc_score, yt, s, w, want, **kw)
    kw2 = dict(kw) if w is None else dict(kw, sample_weight=w)
    # curves: every point must be the one of its threshold, and every distinct score must appear
    fpr, tpr, thr = call(c, 'roc', M.roc_curve, (yt, s), kw2)
    c.eq(len(fpr), len(thr), 'roc:len')
    pts = set()
    for f, t, h in zip(fpr, tpr, thr):
        c.close([f, t], [wl[N & (s >= h)].sum() / wl[N].sum(), wl[P & (s >= h)].sum() / wl[P].sum()], 'roc:point', '', y=yt, s=s, thr=h, tol=1e-9)
        pts.add(float(h))
    c.check(set(float(v) for v in s) <= pts, 'roc:missing-threshold', '', s=s, thr=thr)
    c.check(np.all(np.diff(np.asarray(thr, dtype=float)) <= 0), 'roc:threshold-order')
    c.check(np.all(np.diff(fpr) >= -1e-12) and np.all(np.diff(tpr) >= -1e-12), 'roc:monotone')
    c.close([fpr[0], tpr[0], fpr[-1], tpr[-1]], [0, 0, 1, 1], 'roc:ends', '', tol=1e-9)
    prec, rec, thr2 = call(c, 'pr', M.precision_recall_curve, (yt, s), kw2)
    c.eq(len(prec), len(thr2) + 1, 'pr:len')
    c.close([prec[-1], rec[-1]], [1, 0], 'pr:last')
    c.check(abs(rec[0] - 1) < 1e-9, 'pr:full-recall')
    c.check(np.all(np.diff(rec) <= 1e-12), 'pr:monotone')
    c.check(np.all(np.diff(np.asarray(thr2, dtype=float)) >= 0), 'pr:threshold-order')
    for p, q, h in zip(prec, rec, thr2):
        sel = s >= h
        den = wl[sel].sum()
        c.close([p, q], [wl[P & sel].sum() / den if den else 0.0, wl[P & sel].sum() / wl[P].sum()], 'pr:point', '', y=yt, s=s, thr=h, tol=1e-9)
    fps, tps, thr3 = call(c, 'counts', M.get_fps_tps_thresholds, (yt, s), kw)
    c.check(np.all(np.diff(np.asarray(thr3, dtype=float)) <= 0), 'counts:threshold-order')
    c.check({float(v) for v in thr3} == {float(v) for v in s}, 'counts:thresholds')
    for f, t, h in zip(fps, tps, thr3):
        c.eq((int(f), int(t)), (int((N & (s >= h)).sum()), int((P & (s >= h)).sum())), 'counts:point', '', y=yt, s=s, thr=h)
    c.event('curves')
    c.raises(ValueError, lambda: M.roc_auc_score(yt, s[:-1], **kw), 'auc:mismatch-accepted')
    if enc == (2, 5):
        c.raises(ValueError, lambda: M.roc_auc_score(yt, s), 'auc:non-binary-accepted')
    c.covered((y01.tolist(), s.tolist(), str(enc)), 0 < want < 1)


def rank_max(x):
    """1 + number of entries strictly better, ties get the worst place."""
    return [sum(1 for v in x if v >= a) for a in x]


def ap_row(y, s):
    """(set of acceptable values) of one instance's average precision."""
    rel = [j for j in range(len(y)) if y[j]]
    # threshold (group) form
    grp = np.mean([sum(1 for k in rel if s[k] >= s[j]) / sum(1 for v in s if v >= s[j]) for j in rel])
    vals = [grp]
    # tie-broken forms: extremes
    for sign in (1, -1):
        order = sorted(range(len(y)), key=lambda j: (-float(s[j]), -sign * y[j]))
        hit, acc = 0, 0.0
        for pos, j in enumerate(order, 1):
            if y[j]:
                hit += 1
                acc += hit / pos
        vals.append(acc / len(rel))
    return min(vals), max(vals)


@R.family('ranking', 2500, 50000, 'one-error, coverage, ranking loss, LRAP, average precision, micro AUC, class-averaged AUC')
def ranking(c):
    r = c.rng
    n, k = (r.randint(1, 8), r.randint(2, 6)) if r.random() < .93 else (r.randint(5, 25), r.randint(7, 16))
    y = (c.nr.rand(n, k) < r.choice([.2, .5, .8])).astype(r.choice([int, int, float]))
    if r.random() < .3:
        y[r.randrange(n)] = r.choice([0, 1])
    s = scores(c, (n, k))
    w = weights(c, n)
    if w is not None and not sum(w):
        w = None
    deg = [i for i in range(n) if y[i].sum() in (0, k)]
    if deg:
        c.event('degenerate_rows')
    if any(len(set(row.tolist())) < k for row in s):
        c.event('ties')
    c.event('multilabel')
    # coverage: how far down the list to cover all true labels
    cov = [max([rank_max(list(s[i]))[j] for j in range(k) if y[i, j]] or [0]) for i in range(n)]
    judge(c, 'coverage', M.coverage_error, y, s, w, wavg(cov, w), hi=k)
    # ranking loss
    rl = []
    for i in range(n):
        rel = [j for j in range(k) if y[i, j]]
        irr = [j for j in range(k) if not y[i, j]]
        rl.append(0.0 if not rel or not irr else sum(s[i, a] <= s[i, b] for a in rel for b in irr) / (len(rel) * len(irr)))
    sp = r.random() < .2
    if sp:
        c.event('sparse')
    judge(c, 'ranking-loss', M.label_ranking_loss, csr_matrix(y) if sp else y, s, w, wavg(rl, w))
    lr = []
    for i in range(n):
        rel = [j for j in range(k) if y[i, j]]
        lr.append(1.0 if len(rel) in (0, k) else np.mean([sum(s[i, a] >= s[i, j] for a in rel) / sum(v >= s[i, j] for v in s[i]) for j in rel]))
    judge(c, 'lrap', M.label_ranking_average_precision_score, csr_matrix(y) if sp else y, s, w, wavg(lr, w))
    # one-error: the top label of each instance (unique top only; a tied top has no single answer)
    lo = wavg([0 if all(y[i, j] for j in np.flatnonzero(s[i] == s[i].max())) else
               (1 if not any(y[i, j] for j in np.flatnonzero(s[i] == s[i].max())) else 0) for i in range(n)], w)
    hi = wavg([0 if all(y[i, j] for j in np.flatnonzero(s[i] == s[i].max())) else 1 for i in range(n)], w)
    kw = {} if w is None else {'sample_weight': w}
    got = float(call(c, 'one-error', M.one_error, (y, s), kw))
    c.check(lo - 1e-9 <= got <= hi + 1e-9, 'one-error:value', '', got=got, lo=lo, hi=hi, y=y, s=s, w=w)
    p = list(c.nr.permutation(n))
    if lo == hi:
        c.close(float(M.one_error(y[p], s[p], **({} if w is None else {'sample_weight': take(w, p)}))), got, 'one-error:permuted', '', tol=1e-9)
    c.event('compared')
    # average precision (instances whose labels are all or none relevant have no ranking: skipped or counted as perfect)
    rows = [ap_row(y[i], s[i]) if i not in deg else None for i in range(n)]
    wl = [1.0] * n if w is None else [float(v) for v in w]
    got = float(call(c, 'avg-precision', M.average_precision_score, (y, s), kw))
    keep = [i for i in range(n) if rows[i] is not None]
    ok = False
    bounds = []
    for mode in ('skip', 'perfect', 'full-perfect'):
        ii = keep if mode == 'skip' else [i for i in range(n) if mode == 'perfect' or i in keep or y[i].sum() == k]
        tw = sum(wl[i] for i in ii)
        if not tw:
            ok = ok or 0 <= got <= 1 or np.isnan(got)
            continue
        b = [sum(wl[i] * (rows[i][e] if rows[i] else 1.0) for i in ii) / tw for e in (0, 1)]
        bounds.append(b)
        ok = ok or b[0] - 1e-9 <= got <= b[1] + 1e-9
    c.check(ok, 'avg-precision:value', '', got=got, bounds=bounds, y=y, s=s, w=w)
    # micro AUC: one AUC over all entries
    ye, se, we = y.ravel(), np.asarray(s).ravel(), np.repeat(wl, k)
    if we[ye == 1].sum() and we[ye == 0].sum():
        judge(c, 'micro-auc', M.micro_auc_score, y, s, w, auc(se[ye == 1], se[ye == 0], we[ye == 1], we[ye == 0]))
        warr = np.array(wl)
        if all(warr[y[:, j] == 1].sum() and warr[y[:, j] == 0].sum() for j in range(k)):
            judge(c, 'class-auc', M.roc_auc_score, y, s, w,
                  np.mean([auc(s[y[:, j] == 1, j], s[y[:, j] == 0, j], warr[y[:, j] == 1], warr[y[:, j] == 0]) for j in range(k)]))
    for nm, f in (('coverage', M.coverage_error), ('ranking-loss', M.label_ranking_loss), ('lrap', M.label_ranking_average_precision_score),
                  ('one-error', M.one_error), ('avg-precision', M.average_precision_score), ('micro-auc', M.micro_auc_score)):
        if n > 1:
            c.raises(Exception, lambda: f(y, s[:-1]), nm + ':row-mismatch-accepted')
        c.raises(Exception, lambda: f(y, np.hstack([s, s[:, :1]])), nm + ':column-mismatch-accepted')
        if nm not in ('avg-precision', 'micro-auc'):
            c.raises(Exception, lambda: f(y, s, sample_weight=[1.0] * (n + 1)), nm + ':weight-mismatch-accepted')
    c.covered((y.tolist(), np.asarray(s).tolist()), not deg)
