"""C09: feature queries are unobserved entries; completion keeps observed values and reads nothing else."""
import numpy as np

from alipy.index.index_collections import FeatureIndexCollection, MultiLabelIndexCollection
from alipy.query_strategy.query_features import (AFASMC_mask_mc, AFASMC_mc, IterativeSVD_mc, QueryFeatureAFASMC, QueryFeatureRandom,
                                                 QueryFeatureStability)
from rv.core import Registry

R = Registry('C09', 'Completions over generated matrices, masks and omega forms, each run also on a twin whose hidden entries hold other '
                    'values (or nan) under the same random state; feature query loops that move what is selected to the observed set '
                    'until the pool is empty, with every selection compared with the entries unknown at that moment and with the '
                    'variance of independently collected completions. Non-trivial: hidden values really differ and loops select '
                    'strictly inside the pool.',
             require=('reach', 'another_fold', 'first_steps', 'completions', 'twin_other', 'twin_nan', 'omega_tuples', 'omega_1d', 'omega_collection', 'fixed_points', 'selections',
                      'exhausted', 'ranked', 'train_subset', 'train_list', 'inferred_train', 'by_mask', 'batch', 'twin_selections',
                      'small_rank', 'optimal_completions', 'pool_without_train', 'round_two', 'last_entry'))


def data(c, n=None, m=None):
    r, nr = c.rng, c.nr
    n, m = n or r.randint(4, 9), m or r.randint(2, 6)
    kind = r.choice(['normal', 'normal', 'lowrank', 'wide', 'nonneg'])
    if kind == 'lowrank':
        k = r.randint(1, 2)
        X = nr.randn(n, k).dot(nr.randn(k, m)) + 1e-3 * nr.randn(n, m)
    else:
        X = nr.randn(n, m) * (20 if kind == 'wide' else 1)
        if kind == 'nonneg':
            X = np.abs(X)
    y = nr.randint(0, 2, n) if r.random() < .5 else np.where(nr.rand(n) < .5, -1, 1)
    if len(set(y.tolist())) == 1:
        y[0] = 1 if y[0] != 1 else 0
    c.note('data', (n, m, kind))
    return X, y, n, m


def mask_for(c, n, m):
    """each row and column with something observed, something hidden"""
    M = c.nr.rand(n, m) < c.rng.choice([.3, .5, .7, .9])
    for i in range(n):
        M[i, c.rng.randrange(m)] = True
    for j in range(m):
        M[c.rng.randrange(n), j] = True
    if M.all():
        M[c.rng.randrange(n), c.rng.randrange(m)] = False
    return M


def twin(c, X, M, nan):
    Z = X.copy()
    Z[~M] = np.nan if nan else c.nr.randn((~M).sum()) * c.rng.choice([1, 10, 100]) + 3
    return Z


def seeded(c, f, s):
    np.random.seed(s)
    return f()


@R.family('completion', quick=350, thorough=9000)
def completion(c):
    X, y, n, m = data(c)
    M = mask_for(c, n, m)
    s = c.rng.randrange(10 ** 6)
    Xc, yc, Mc = X.copy(), y.copy(), M.copy()
    if c.rng.random() < .5:
        par = {}
        if c.rng.random() < .5:
            par = dict(max_in_iter=c.rng.randint(1, 30), max_out_iter=c.rng.randint(1, 12), lambda1=c.rng.choice([.1, 1, 3]),
                       lambda2=c.rng.choice([.5, 1, 2]))
        mk = c.rng.choice([M, M.astype(int), M.astype(float)])
        run = lambda D: AFASMC_mask_mc(X=D, y=y, mask=mk, **par)
        mech = 'AFASMC'
        nan_ok = True
        ents = [(i, j) for i in range(n) for j in range(m) if M[i, j]]
        c.rng.shuffle(ents)
        form = c.rng.choice(['tuples', '1d', 'collection'])
        om = {'tuples': lambda: list(ents), '1d': lambda: [i + j * n for i, j in ents],
              'collection': lambda: MultiLabelIndexCollection(list(ents), label_size=m)}[form]()
        c.event('omega_' + form)
        oc = [e for e in om]
        a = seeded(c, lambda: run(X), s)
        b = seeded(c, lambda: AFASMC_mc(X=X, y=y, omega=om, **par), s)
        c.check([e for e in om] == oc, mech + ':omega-modified', '')
        c.close(np.asarray(b), np.asarray(a), mech + ':omega-and-mask-differ', 'the two entry points describe the same completion', tol=1e-9)
    else:
        alg = c.rng.choice(['arpack', 'arpack', 'randomized'])
        rank = c.rng.choice([1, 2, 3, 5, 10])
        par = dict(rank=rank, svd_algorithm=alg, gradual_rank_increase=c.rng.random() < .7, max_iters=c.rng.choice([5, 60, 150]))
        lo = hi = None
        if c.rng.random() < .3:
            lo, hi = [float(v) for v in c.rng.choice([lambda: (X[M].min(), X[M].max()), lambda: np.percentile(X[M], [30, 70])])()]
            par.update(min_value=lo, max_value=hi)
        if rank >= min(n, m):
            c.event('small_rank')
        mk = M.astype(int) if c.rng.random() < .5 else M
        run = lambda D: IterativeSVD_mc(**par).impute(D, mk)
        mech = 'IterativeSVD'
        a = seeded(c, lambda: run(X), s)
        if lo is not None:
            v = np.asarray(a)[~M]
            c.check((v >= lo - 1e-9).all() and (v <= hi + 1e-9).all(), mech + ':outside-min-max',
                    'completed values respect min_value and max_value', lo=lo, hi=hi)
        if alg == 'arpack':
            first_step(c, par, X, mk, M, s)
            fixed_point(c, par, X, mk, M, np.asarray(a), s)
    c.event('completions')
    a = np.asarray(a)
    c.eq(a.shape, X.shape, mech + ':shape', '')
    c.check(np.isrealobj(a), mech + ':complex', 'the completion of a real matrix is real', dtype=str(a.dtype), shape=(n, m))
    c.check(np.isfinite(a).all(), mech + ':not-finite', '', par=par)
    c.check((a[M] == X[M]).all() or np.allclose(a[M], X[M], rtol=1e-12, atol=0), mech + ':observed-value-changed',
            'observed entries keep their values', worst=float(np.abs(a - X)[M].max()))
    c.check((X == Xc).all() and (y == yc).all() and (M == Mc).all(), mech + ':input-modified', '')
    for nan in (False, True):
        T = twin(c, X, M, nan)
        c.event('twin_nan' if nan else 'twin_other')
        ok, b = c.attempt(mech + ':hidden-value-read', lambda: seeded(c, lambda: run(T), s), nan=nan)
        b = np.asarray(b)
        c.check(np.isfinite(b).all() and np.allclose(a, b, rtol=1e-6, atol=1e-8 * max(1, np.abs(X).max())), mech + ':hidden-value-read',
                'the completion depends on the observed entries only', nan=nan, par=par, first=a[~M][:3], second=b[~M][:3])
    c.covered((X.tobytes(), y.tobytes()))


def first_step(c, par, X, mk, M, s):
    """One iteration fills the missing entries from the best low-rank approximation of the observed ones."""
    a = seeded(c, lambda: np.asarray(IterativeSVD_mc(**dict(par, max_iters=1)).impute(X, mk)), s)
    k = min(1 if par['gradual_rank_increase'] else par['rank'], max(1, min(X.shape) - 1))
    U, S, V = np.linalg.svd(np.where(M, X, 0.), full_matrices=False)
    if S[0] == 0 or k < len(S) and (S[k - 1] - S[k]) < 1e-6 * S[0]:
        return          # the approximation is not unique
    rec = (U[:, :k] * S[:k]).dot(V[:k])
    if 'min_value' in par:
        rec = np.clip(rec, par['min_value'], par['max_value'])
    c.event('first_steps')
    c.close(a[~M], rec[~M], 'IterativeSVD:first-step', 'the first completion is the low-rank approximation of the observed entries', tol=1e-6)


def fixed_point(c, par, X, mk, M, out, s):
    """A converged completion reproduces its missing entries from its own low-rank approximation."""
    p = dict(par, max_iters=par['max_iters'] * 2)
    again = seeded(c, lambda: np.asarray(IterativeSVD_mc(**p).impute(X, mk)), s)
    if not np.allclose(out, again, rtol=1e-9, atol=1e-12):
        return          # had not converged
    U, S, V = np.linalg.svd(out, full_matrices=False)
    mis = out[~M]
    if (mis ** 2).sum() < 1e-9:
        return
    cap = max(1, min(X.shape) - 1)
    best = np.inf
    for k in {min(v, par['rank'], cap) for v in ([1, 2, 4, 8, 16] if par['gradual_rank_increase'] else [par['rank']])}:
        rec = (U[:, :k] * S[:k]).dot(V[:k])
        if 'min_value' in par:
            rec = np.clip(rec, par['min_value'], par['max_value'])
        best = min(best, ((rec[~M] - mis) ** 2).sum() / (mis ** 2).sum())
    c.event('fixed_points')
    c.event('bounded_fixed_points', 'min_value' in par)
    c.check(best < 1e-3, 'IterativeSVD:not-a-fixed-point', 'missing values are those of the low-rank approximation', residual=best, par=par)


def afasmc_optimum(X, y, M, l1, l2, iters=800):
    """The documented objective (trace norm + observed residual + a linear model fitted on the observed data) and its minimiser,
    by an independent accelerated proximal gradient with restarts."""
    n, m = X.shape
    Xo, l2 = np.where(M, X, 0.), l2 / n
    E = np.hstack((Xo, np.ones((n, 1))))
    W = np.linalg.lstsq(E, y, rcond=None)[0]
    w, b = W[:-1], W[-1]

    def F(Z):
        return ((np.where(M, Z, 0) - Xo) ** 2).sum() / 2 + l2 * ((Z.dot(w) + b - y) ** 2).sum() + \
            l1 * np.linalg.svd(Z, compute_uv=False).sum()
    if np.linalg.cond(E) > 12 * max(1, np.abs(Xo).max()) or np.linalg.cond(E) > 200 or np.abs(w).max() > 3 or n <= m:
        return None     # the linear model is not well determined
    L = 1 + 2 * l2 * w.dot(w)
    Z = Zp = np.zeros((n, m))
    t, prev, best = 1., np.inf, (np.inf, None)
    for _ in range(iters):
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
        Y = Z + (t - 1) / tn * (Z - Zp)
        G = np.where(M, Y, 0) - Xo + 2 * l2 * np.outer(Y.dot(w) + b - y, w)
        U, S, V = np.linalg.svd(Y - G / L, full_matrices=False)
        Zn = (U * np.maximum(S - l1 / L, 0)).dot(V)
        f = F(Zn)
        if f < best[0]:
            best = f, Zn
        if f > prev:
            t = 1.
        Zp, Z, prev = Z, Zn, f
        t = tn if f <= best[0] else t
        if np.abs(Z - Zp).max() < 1e-11:
            break
    return best[1], best[0], F


@R.family('optimal completion', quick=110, thorough=2500)
def optimal_completion(c):
    r = c.rng
    X, y, n, m = data(c, n=r.randint(5, 10), m=r.randint(2, 4))
    M = mask_for(c, n, m)
    l1, l2 = r.choice([.1, .3, 1, 1, 3]), r.choice([.5, 1, 2, 4])
    ref = afasmc_optimum(X, y, M, l1, l2)
    if ref is None:
        return
    Z, f, F = ref
    par = {}
    if (l1, l2) != (1, 1) or r.random() < .5:
        par = dict(lambda1=l1, lambda2=l2)
    once = r.random() < .4
    if once:
        par.update(max_out_iter=1, max_in_iter=400)
    a = np.asarray(AFASMC_mask_mc(X=twin(c, X, M, False), y=y, mask=M, **par))
    gap = float(np.real(F(np.where(M, Z, a)))) / f - 1
    c.event('optimal_completions')
    c.check(gap < .02, 'AFASMC:not-the-optimum', 'the completed entries minimise the documented objective', gap=gap, l1=l1, l2=l2,
            got=a[~M][:5], best=Z[~M][:5])
    if np.abs(Z[~M]).max() > 1e-6:
        c.covered((X.tobytes(), M.tobytes()))


def start(c, n, m):
    """train rows, observed and unknown entries (each train row with something observed)"""
    r = c.rng
    k = r.randint(max(3, n // 2), n)
    tr = r.sample(range(n), k)
    M = mask_for(c, k, m)
    obs = [(tr[i], j) for i in range(k) for j in range(m) if M[i, j]]
    unk = [(tr[i], j) for i in range(k) for j in range(m) if not M[i, j]]
    r.shuffle(obs)
    r.shuffle(unk)
    return tr, obs, unk


def give(c, E, n, m):
    f = c.rng.choice(['coll', 'coll', 'feat', 'tuples', '1d'])
    if f == 'coll':
        return MultiLabelIndexCollection(list(E), label_size=m)
    if f == 'feat':
        return FeatureIndexCollection(list(E), feature_size=m)
    if f == 'tuples':
        return list(E)
    ids = [i + j * n for i, j in E]
    return np.array(ids) if c.rng.random() < .5 else ids


def snap(v):
    return v.tobytes() if isinstance(v, np.ndarray) else [k for k in v]


def pairs(c, got, mech):
    c.check(isinstance(got, list), mech + ':not-a-list', 'a list of (instance, feature) tuples', type=type(got).__name__)
    for e in got:
        c.check(isinstance(e, tuple) and len(e) == 2, mech + ':malformed-entry', '', entry=e)
    return [(int(a), int(b)) for a, b in got]


@R.family('random loop', quick=250, thorough=5000)
def random_loop(c):
    X, y, n, m = data(c)
    tr, obs, unk = start(c, n, m)
    q = QueryFeatureRandom(X, y)
    Xc, yc = X.copy(), y.copy()
    inside = 0
    while unk:
        b = c.rng.choice([1, 1, 2, 3, len(unk), len(unk) + 2])
        O, U = give(c, obs, n, m), give(c, unk, n, m)
        so, su = snap(O), snap(U)
        got = q.select(O, U, batch_size=b)
        P = pairs(c, got, 'Random')
        c.event('selections')
        c.event('batch', b > 1)
        c.event('last_entry', len(unk) == 1)
        inside += 0 < len(P) < len(unk)
        c.check(set(P) <= set(unk), 'Random:not-unknown', 'selected entries are in the unknown set', got=P, unknown=unk)
        c.eq(len(P), len(set(P)), 'Random:repeated', '')
        c.eq(len(P), min(b, len(unk)), 'Random:count', 'as many entries as requested, when available')
        c.check(got is not U, 'Random:own-collection', 'the result is not the caller\'s collection')
        got.append('x')
        c.check(snap(O) == so and snap(U) == su, 'Random:collection-modified', '')
        obs, unk = obs + P, [e for e in unk if e not in P]
    c.event('exhausted')
    c.eq(list(q.select(give(c, obs, n, m), MultiLabelIndexCollection([], label_size=m))), [], 'Random:empty-pool', '')
    c.check((X == Xc).all() and (y == yc).all(), 'Random:data-modified', '')
    if inside:
        c.covered((X.tobytes(), y.tobytes()))


def variance_loop(c, name):
    r = c.rng
    X, y, n, m = data(c)
    tr, obs, unk = start(c, n, m)
    cap = r.choice([4, 4, 4, 4, 4, 12]) if name == 'AFASMC' else 6
    c.event('long_history', cap == 12)
    keep = list(unk)
    s = r.randrange(10 ** 6)
    ranks = r.choice([None, [1, 2], [1], [2, 1], [1, 2, 3]])
    how = r.choice(['array', 'list', 'none'])
    order = sorted(tr) if how == 'none' else tr
    arg = {'array': np.array(tr), 'list': list(tr), 'none': None}[how]
    c.event({'array': 'train_subset', 'list': 'train_list', 'none': 'inferred_train'}[how])
    par = dict(max_in_iter=15, max_out_iter=2)

    def make(D):
        if name == 'AFASMC':
            return QueryFeatureAFASMC(D, y, train_idx=arg)
        return QueryFeatureStability(D, y, train_idx=arg, rank_arr=ranks)

    def sel(q, O, U):
        return seeded(c, lambda: q.select(O, U, **(par if name == 'AFASMC' else {})), s)
    hidden = np.zeros((n, m), bool)
    for e in unk:
        hidden[e] = True
    T = X.copy()
    T[hidden] = c.nr.randn(hidden.sum()) * 5 + 2
    q = make(X)
    Xc, yc = X.copy(), y.copy()
    past, rounds = [], 0
    # some entries of the pool may be withheld: neither observed nor offered
    if len(unk) > 3 and r.random() < .5:
        unk = unk[:r.randint(2, len(unk) - 1)]
        c.event('pool_without_train')
    twins_from = 0
    while unk and rounds < cap:
        O, U = give(c, obs, n, m), give(c, unk, n, m)
        so, su = snap(O), snap(U)
        single = len(unk) == 1
        if how == 'none' and rounds and sorted({i for i, _ in obs + unk}) != order:
            break
        if how == 'none' and not rounds:
            order = sorted({i for i, _ in obs + unk})
        got = sel(q, O, U)
        P = pairs(c, got, name)
        c.event('selections')
        c.check(len(P) == 1 and P[0] in unk, name + ':not-unknown', 'one of the given unknown entries', got=P, unknown=unk, how=how,
                round=rounds)
        c.check(got is not U, name + ':own-collection', '')
        c.check(snap(O) == so and snap(U) == su, name + ':collection-modified', '')
        c.check((X == Xc).all() and (y == yc).all(), name + ':data-modified', '')
        if arg is not None:
            c.eq(list(arg), list(tr), name + ':train-idx-modified', '')
        if single:
            c.event('last_entry')
        else:
            Mk = np.zeros((len(order), m), bool)
            at = {i: k for k, i in enumerate(order)}
            for i, j in obs:
                Mk[at[i], j] = True
            Xs, ys = X[order], y[order]
            if name == 'AFASMC':
                past.append(np.asarray(seeded(c, lambda: AFASMC_mask_mc(X=Xs, y=ys, mask=Mk, **par), s)))
                stack = past
            else:
                np.random.seed(s)
                stack = [np.asarray(IterativeSVD_mc(rank=k).impute(Xs, Mk)) for k in (ranks or [1, 2, 3])]
            if len(stack) > 1:
                V = np.var(np.array(stack), axis=0)
                best = max(V[at[i], j] for i, j in unk)
                mine = V[at[P[0][0]], P[0][1]]
                c.event('ranked')
                c.event('round_two', rounds > 0)
                c.check(mine >= best - 1e-6 * abs(best) - 1e-12, name + ':not-the-highest-variance',
                        'the unknown entry with the highest variance of its completions', got=P, its=mine, best=best, round=rounds)
            # a strategy seeing other hidden values chooses the same
            q2 = make(T)
            if name == 'Stability' or rounds == 0:
                g2 = sel(q2, give(c, obs, n, m), MultiLabelIndexCollection(list(unk), label_size=m))
                c.event('twin_selections')
                if name == 'AFASMC' or len(stack) == 1:
                    same = pairs(c, g2, name) == P
                else:
                    P2 = pairs(c, g2, name)
                    same = P2 == P or V[at[P2[0][0]], P2[0][1]] >= best - 1e-6 * abs(best) - 1e-12
                c.check(same, name + ':hidden-value-read', 'the query cannot depend on values nobody has observed', got=P, other=g2)
        rounds += 1
        if how != 'none' and c.rng.random() < .3:        # as many entries, of other instances
            to = dict(zip(tr, c.rng.sample(tr, len(tr))))
            obs, unk = [(to[i], j) for i, j in obs], [(to[i], j) for i, j in unk]
            T = X.copy()
            for i in tr:
                for j in range(m):
                    if (i, j) not in obs:
                        T[i, j] = c.nr.randn() * 5 + 2
            c.event('another_fold')
        else:
            obs, unk = obs + P, [e for e in unk if e not in P]
            T[P[0]] = X[P[0]]
    if not unk:
        c.event('exhausted')
    if rounds > 1:
        c.covered((X.tobytes(), y.tobytes()))


@R.family('AFASMC loop', quick=120, thorough=2500)
def afasmc_loop(c):
    variance_loop(c, 'AFASMC')


@R.family('stability loop', quick=120, thorough=2500)
def stability_loop(c):
    variance_loop(c, 'Stability')


@R.family('by mask', quick=120, thorough=2500)
def by_mask(c):
    X, y, n, m = data(c)
    k = c.rng.randint(3, n)
    tr = c.rng.sample(range(n), k)
    M = mask_for(c, k, m)
    arg = c.rng.choice([np.array(tr), list(tr)])
    name = c.rng.choice(['AFASMC', 'Stability'])
    s = c.rng.randrange(10 ** 6)
    q = QueryFeatureAFASMC(X, y, train_idx=arg) if name == 'AFASMC' else QueryFeatureStability(X, y, train_idx=arg, rank_arr=[1, 2])
    par = dict(max_in_iter=15, max_out_iter=2) if name == 'AFASMC' else {}
    past = []
    rounds = 0
    cap = c.rng.choice([4, 4, 4, 4, 4, 12])
    while not M.all() and rounds < cap:
        form = c.rng.choice([M.copy(), M.astype(int), M.astype(int).tolist()])
        before = np.array(form).tolist()
        P = pairs(c, seeded(c, lambda: q.select_by_mask(form, **par), s), name + '.mask')
        c.event('by_mask')
        c.eq(np.array(form).tolist(), before, name + '.mask:mask-modified', '')
        c.check(len(P) == 1 and 0 <= P[0][0] < k and 0 <= P[0][1] < m and not M[P[0]], name + '.mask:not-unknown',
                'an entry the mask marks unknown', got=P, mask=M.astype(int).tolist())
        Xs, ys = X[tr], y[tr]
        if name == 'AFASMC':
            past.append(np.asarray(seeded(c, lambda: AFASMC_mask_mc(X=Xs, y=ys, mask=M, check_para=False, **par), s)))
            stack = past
        else:
            np.random.seed(s)
            stack = [np.asarray(IterativeSVD_mc(rank=v).impute(Xs, M)) for v in (1, 2)]
        if len(stack) > 1:
            V = np.var(np.array(stack), axis=0)
            best = V[~M].max()
            c.event('ranked')
            c.check(V[P[0]] >= best - 1e-6 * abs(best) - 1e-12, name + '.mask:not-the-highest-variance', '', got=P, best=best,
                    its=V[P[0]])
        rounds += 1
        if c.rng.random() < .3:         # as many entries, of other instances
            M = M[c.nr.permutation(k)]
            c.event('another_fold')
        else:
            M[P[0]] = True
    if rounds > 1:
        c.covered((X.tobytes(), y.tobytes()))


@R.family('random reach', quick=16, thorough=100)
def random_reach(c):
    """over many random selections from one pool every unknown entry occurs (a miss has chance < 1e-20)"""
    X, y, n, m = data(c)
    tr, obs, unk = start(c, n, m)
    unk = unk[:7]
    q = QueryFeatureRandom(X, y)
    b = c.rng.choice([1, 1, max(1, len(unk) - 1)])
    O, U = give(c, obs, n, m), give(c, unk, n, m)
    seen = set()
    for _ in range(60 * len(unk)):
        seen |= {(int(i), int(j)) for i, j in q.select(O, U, batch_size=b)}
    c.eq(seen, set(unk), 'Random:never-selected', 'some unknown entry is never selected', batch=b)
    c.event('reach')
    c.covered((X.tobytes(), b), len(unk) > 1)
