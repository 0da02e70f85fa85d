"""C15: saved experiment state survives a crash at any point and loads back equal."""
import json
import os
import signal
import time
import warnings

import numpy as np

from alipy import ToolBox
from alipy.experiment import State, StateIO
from alipy.index.index_collections import IndexCollection, MultiLabelIndexCollection, FeatureIndexCollection
from alipy.oracle.oracle import Oracle, OracleQueryMultiLabel
from alipy.utils.multi_thread import aceThreading
from rv.core import Registry
from rv.checks.c14 import freeze, content, py
from rv.lib import crash

R = Registry('C15', 'Random logs, tool boxes, oracles and parallel-run records are saved, changed and saved again; every save of the crash '
                    'families is re-run in forked children killed at chosen executed lines, at chosen byte offsets of the written file '
                    '(by the kernel) and under a full disk, and the file is then loaded and compared with the former and the new state. '
                    'Non-trivial: a save that was interrupted, or a round trip of a non-empty object.',
             require=('killed_at_line', 'killed_at_byte', 'disk_full', 'found_old', 'found_new', 'first_save_interrupted', 'saved_after_crash',
                      'log_roundtrips', 'box_roundtrips', 'oracle_roundtrips', 'parallel_kills', 'journaled_states', 'recovered_midway',
                      'recovered_complete', 'stale_files', 'second_kill'))


# ---- digests: what a user can read from an object -----------------------------------------------------
def d_log(s):
    states = [sorted((k, freeze(st.get_value(k))) for k in st.keys()) for st in s]
    ws = []
    for k in range(len(s) + 1):
        tr, te, L, U = s.get_workspace(k)
        ws.append((freeze(tr), freeze(te), content(L), content(U), type(L).__name__, type(U).__name__))
    return (s.round, s.initial_point, len(s), states, ws, float(s.cost_inall), freeze(s.get_current_performance()),
            freeze([st.batch_size for st in s]))


def d_box(b, nin):
    out = [b.query_type]
    o = b.get_clean_oracle()
    keys = list(range(nin)) if type(o) is Oracle else [(i,) for i in range(nin)]
    ans = o.query_by_index(keys)
    out.append([freeze(np.asarray(v)) for v in ans[0]])
    try:
        sp = b.get_split()
    except Exception:
        return out + ['no split']
    out.append([[freeze(fold) for fold in part] for part in sp])
    for i in range(len(sp[0])):
        one = b.get_split(i)
        out.append((freeze(one[0]), freeze(one[1]), content(one[2]), content(one[3])))
        out.append(d_log(b.get_stateio(i, saving_path=os.devnull, verbose=False)))
    return out


def d_oracle(o, keys):
    lab, cost = o.query_by_index(keys)
    return [freeze(np.asarray(v)) for v in lab], [freeze(np.asarray(v)) for v in cost], sorted(map(str, o.index_keys))


# ---- generators ---------------------------------------------------------------------------------------
def gen_log(c, path, big=False):
    r = c.rng
    n = r.randint(6, 20)
    perm = list(range(n))
    r.shuffle(perm)
    nt = r.randint(4, n - 1)
    train, test = perm[:nt], perm[nt:]
    kind = r.choice(['single', 'single', 'multi', 'feature'])
    k = r.randint(1, nt - 2)
    if kind == 'single':
        L, U = IndexCollection(train[:k]), IndexCollection(train[k:])
    else:
        cls = MultiLabelIndexCollection if kind == 'multi' else FeatureIndexCollection
        L = cls([(i, j) for i in train[:k] for j in range(3)], 3)
        U = cls([(i, j) for i in train[k:] for j in range(3)], 3)
    s = StateIO(r.randint(0, 4), train, test, L, U, saving_path=path, verbose=False)
    s.set_initial_point(r.choice([None, 0.5]))

    def grow(m):
        for _ in range(m):
            _, _, _, U = s.get_workspace()
            pool = content(U)
            if not pool:
                return
            sel = r.sample(pool, min(len(pool), r.randint(1, 2)))
            st = State(sel, r.randint(0, 100) / 100, cost=r.choice([None, [1.5] * len(sel)]))
            if big:
                st.add_element('blob', c.nr.rand(r.randint(200, 6000)))
            if r.random() < .3:
                st.add_element('note', {'a': [1, 2]})
            s.add_state(st)
    return s, grow


def check_crash(c, save, path, load, digest, old, new, n_line, n_byte, what):
    """save() replaces `path` (holding `old`, or absent when old is None) by a file loading as `new`."""
    r = c.rng
    before = None
    if old is not None:
        with open(path, 'rb') as f:
            before = f.read()

    def restore():
        if before is None:
            if os.path.exists(path):
                os.remove(path)
        else:
            with open(path, 'wb') as f:
                f.write(before)

    def inspect(how, returned):
        c.event('crash_points')
        if not os.path.exists(path):
            c.check(old is None, what + ':file-gone', 'the saved file disappeared', how=how)
            c.check(not returned, what + ':save-did-nothing', '', how=how)
            c.event('first_save_interrupted')
            return
        ok, obj = c.attempt(what + ':unloadable-after-crash', lambda: load(path), how=how, size=os.path.getsize(path))
        if not ok:
            return
        got = digest(obj)
        if returned:
            c.check(got == new, what + ':saved-differs', '', how=how, got=got, want=new)
            return
        if got == new:
            c.event('found_new')
        elif old is not None and got == old:
            c.event('found_old')
        else:
            c.fail(what + ':mixed-after-crash', 'the file holds neither the former nor the new state', how=how, got=got, old=old, new=new)
        if old is None:
            c.event('first_save_interrupted')

    cnt = os.path.join(c.scratch(), 'count')
    restore()
    total = crash.count_lines(save, cnt)
    size = os.path.getsize(path) if os.path.exists(path) else 0
    c.check(total > 0 and size > 0, what + ':save-did-nothing', '', total=total, size=size)
    inspect('undisturbed', True)
    pts = set(range(min(total, 6))) | set(range(max(0, total - 12), total)) | {r.randrange(total) for _ in range(n_line)}
    for k in sorted(pts):
        restore()
        rc = crash.child(save, crash.at_line(k))
        c.event('killed_at_line', rc == crash.CRASHED)
        inspect('killed after %d of %d lines (rc %s)' % (k, total, rc), rc == 0)
    sizes = {0, 1, size // 2, size - 1} | {r.randrange(size) for _ in range(n_byte)}
    for k in sorted(sizes):
        restore_ok = restore()
        rc = crash.child(save, crash.at_byte(k))
        c.event('killed_at_byte', rc == -signal.SIGXFSZ)
        inspect('killed after %d of %d bytes (rc %s)' % (k, size, rc), rc == 0)
        if k % 3 == 0 or k < 2:
            restore()
            rc = crash.child(save, crash.disk_full(k))
            c.event('disk_full', rc == crash.FAILED)
            inspect('disk full after %d of %d bytes (rc %s)' % (k, size, rc), rc == 0)
    # after all these crashes (and what they left behind) saving still works
    save()
    c.check(digest(load(path)) == new, what + ':later-save-differs')
    c.event('saved_after_crash')


@R.family('log_roundtrip', 200, 6000, 'logs saved, loaded, continued on both sides, saved again')
def log_roundtrip(c):
    r = c.rng
    d = c.scratch()
    path = r.choice([d, os.path.join(d, 'mine.pkl')])
    s, grow = gen_log(c, path, big=r.random() < .3)
    f = os.path.join(d, 'AL_round_%d.pkl' % s.round) if path == d else path
    n = 0
    for _ in range(r.randint(1, 4)):
        grow(r.randint(0, 4))
        if r.random() < .2 and len(s):
            s.pop()
        before = d_log(s)
        s.save()
        c.check(d_log(s) == before, 'log:save-changed-it')
        t = StateIO.load(f)
        c.check(d_log(t) == before, 'log:loaded-differs', '', got=d_log(t), want=before)
        c.eq(sorted(os.listdir(d)), [os.path.basename(f)], 'log:stray-files')
        if r.random() < .5:
            pool = content(t.get_workspace()[3])
            if pool:        # the loaded log is a full one: continue with it, and save to the same place
                st = State([pool[0]], .25)
                t.add_state(st)
                s.add_state(st)
                t.save()
                c.check(d_log(StateIO.load(f)) == d_log(s), 'log:continued-differs')
        n += 1
        c.event('log_roundtrips')
    c.covered(before, len(s) > 0)


@R.family('log_crash', 48, 1000, 'saves of a log interrupted')
def log_crash(c):
    r = c.rng
    d = c.scratch()
    s, grow = gen_log(c, d, big=r.random() < .5)
    f = os.path.join(d, 'AL_round_%d.pkl' % s.round)
    old = None
    if r.random() < .8:
        grow(r.randint(0, 3))
        s.save()
        old = d_log(s)
    grow(r.randint(1, 3))
    new = d_log(s)
    check_crash(c, s.save, f, StateIO.load, d_log, old, new, 8, 5, 'log')
    c.covered((old, new), True)


def gen_box(c, d):
    r, nr = c.rng, c.nr
    n = r.randint(25, 40)
    X = nr.rand(n, r.randint(2, 4))
    qt = r.choice(['AllLabels', 'AllLabels', 'PartLabels', 'Features'])
    y = nr.permutation(np.arange(n) % r.randint(2, 3)) if qt != 'PartLabels' and r.random() < .6 else (nr.rand(n, 3) > .4).astype(int)
    return n, qt, y, ToolBox(y=y, X=X, query_type=qt, saving_path=d)


@R.family('box', 80, 2500, 'tool boxes saved at creation and by the split, loaded by load() and by creating a box in the same folder')
def box(c):
    r = c.rng
    d = c.scratch()
    as_file = r.random() < .3
    path = os.path.join(d, 'box.pkl') if as_file else d
    n, qt, y, b = gen_box(c, path)
    f = path if as_file else os.path.join(d, 'al_settings.pkl')
    c.check(d_box(ToolBox.load(f), n) == d_box(b, n), 'box:loaded-differs-unsplit')
    b.split_AL(test_ratio=.3, initial_label_rate=.5, split_count=r.randint(1, 3), all_class=False)
    want = d_box(b, n)
    b2 = ToolBox.load(f)
    c.check(d_box(b2, n) == want, 'box:loaded-differs', '', got=d_box(b2, n), want=want)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        b3 = ToolBox(y=1 - np.arange(n) % 2, X=np.zeros((n, 2)), saving_path=path)
    c.check(d_box(b3, n) == want, 'box:detected-differs')
    b2.save()
    c.check(d_box(ToolBox.load(f), n) == want, 'box:resaved-differs')
    c.event('box_roundtrips')
    c.covered((n, qt, y.ndim, as_file), True)


@R.family('box_crash', 12, 200, 'saves of a tool box interrupted')
def box_crash(c):
    d = c.scratch()
    n, qt, y, b = gen_box(c, d)
    f = os.path.join(d, 'al_settings.pkl')
    old = d_box(b, n)
    b2 = ToolBox.load(f)
    # split without saving: take the path away while splitting
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        other = os.path.join(d, 'other')
        os.mkdir(other)
        ob = ToolBox(y=y, X=c.nr.rand(n, 3), query_type=qt, saving_path=other)
        ob.split_AL(test_ratio=.3, initial_label_rate=.5, split_count=2, all_class=False)
        sp = ob.get_split()
    new_box = ToolBox(y=y, X=c.nr.rand(n, 3), query_type=qt, train_idx=sp[0], test_idx=sp[1], label_idx=sp[2], unlabel_idx=sp[3],
                      saving_path=None)
    new_box._saving_path = d            # the same state, saved over the former box
    new = d_box(new_box, n)
    check_crash(c, new_box.save, f, ToolBox.load, lambda o: d_box(o, n), old, new, 8, 5, 'box')
    c.covered((n, qt, y.ndim), True)


@R.family('oracle', 120, 2500, 'oracles saved, loaded, and saves over an earlier oracle interrupted (one case in twelve)')
def oracle(c):
    r, nr = c.rng, c.nr
    d = c.scratch()
    path = r.choice([d, os.path.join(d, 'o.pkl')])
    f = os.path.join(d, 'oracle.pkl') if path == d else path

    def make():
        n = r.randint(2, 30)
        ids = r.sample(range(100), n)
        if r.random() < .5:
            return Oracle(labels=nr.randint(0, 5, n), indexes=ids, cost=r.choice([None, nr.rand(n)]), examples=r.choice([None, nr.rand(n, 2)])), ids
        return OracleQueryMultiLabel(labels=nr.randint(0, 2, (n, 3)), indexes=ids, cost=r.choice([None, nr.rand(n, 3)])), [(i,) for i in ids]
    a, ka = make()
    b, kb = make()
    a.save_oracle(path)
    da, db = d_oracle(a, ka), d_oracle(b, kb)
    c.check(d_oracle(a.load_oracle(f), ka) == da, 'oracle:loaded-differs')

    def dig(o):
        keys = list(o.index_keys)
        keys = [(k,) for k in keys] if isinstance(o, OracleQueryMultiLabel) else keys
        return d_oracle(o, keys)
    if c.i % 12 == 0:
        check_crash(c, lambda: b.save_oracle(path), f, Oracle.load_oracle, dig, dig(a), dig(b), 5, 4, 'oracle')
    else:
        b.save_oracle(path)
        c.check(d_oracle(b.load_oracle(f), kb) == db, 'oracle:overwritten-differs')
    c.event('oracle_roundtrips')
    c.covered((len(ka), len(kb), type(a).__name__), True)


# ---- a parallel run killed at any moment, recovered from its record --------------------------------------
def select(round, k, pool, nb, seed):
    """The deterministic strategy of the run: depends on the fold, the step and the pool only."""
    pool = sorted(pool)
    return [pool[(seed * 7919 + round * 31 + k * 17 + t * 5) % len(pool)] for t in range(1)] if nb == 1 else pool[:nb]


def target(round, train_id, test_id, Ucollection, Lcollection, saver, examples, labels, global_parameters):
    g = global_parameters
    while len(saver) < g['steps'][round] and len(Ucollection):
        sel = select(round, len(saver), list(Ucollection), g['nb'], g['seed'])
        Ucollection.difference_update(sel)
        Lcollection.update(sel)
        if g['pause']:
            time.sleep(g['pause'] * ((round + len(saver)) % 3))
        saver.add_state(State(sel, float(sum(labels[i] for i in Lcollection.index)) / len(Lcollection)))
        saver.save()
        line = json.dumps([round, len(saver), [int(v) for v in sel]]) + '\n'
        fd = os.open(g['journal'], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, line.encode())
        os.close(fd)


def expected(fold, steps, nb, seed, labels, r0):
    tr, te, L, U = fold
    L, U = list(L), list(U)
    out = []
    while len(out) < steps and U:
        sel = select(r0, len(out), list(U), nb, seed)
        U = [u for u in U if u not in sel]
        L += sel
        out.append((sel, float(sum(labels[i] for i in L)) / len(L)))
    return out


def read_journal(path):
    got = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.endswith('\n'):
                    rd, k, sel = json.loads(line)
                    got.setdefault(rd, []).append((k, sel))
    return got


@R.family('parallel', 100, 2000, 'a parallel run killed (SIGKILL) at a random moment, its record recovered, and finished (perhaps after a second kill)')
def parallel(c):
    r, nr = c.rng, c.nr
    d = c.scratch()
    folds_n = r.randint(1, 5)
    n = r.randint(12, 30)
    labels = nr.randint(0, 3, n)
    X = nr.rand(n, 2)
    folds = []
    for i in range(folds_n):
        p = [int(v) for v in nr.permutation(n)]
        nt = r.randint(6, n - 2)
        k = r.randint(1, nt - 3)
        folds.append((p[:nt], p[nt:], p[:k], p[k:nt]))
    nb = r.choice([1, 1, 2])
    steps = [r.randint(1, 8) for _ in range(folds_n)]
    seed = r.randint(0, 99)
    max_thread = r.choice([None, 1, 2, 3])
    pause = r.choice([0, 0.001, 0.004])
    journal = os.path.join(d, 'journal')
    want = [expected(folds[i], steps[i], nb, seed, labels, i) for i in range(folds_n)]
    rec = os.path.join(d, 'multi_thread_state.pkl')
    if r.random() < .3:      # an earlier run (of another split) left its files here
        os.makedirs(os.path.join(d, 'AL_result'))
        for i in range(folds_n):
            s = StateIO(i, [90, 91], [92], [90], [91], saving_path=os.path.join(d, 'AL_result'), verbose=False)
            s.add_state(State([91], .1))
            s.save()
        c.event('stale_files')

    def start():
        a = aceThreading(X, labels, [f[0] for f in folds], [f[1] for f in folds], [f[2] for f in folds], [f[3] for f in folds],
                         target_func=target, max_thread=max_thread, refresh_interval=1000, saving_path=d)
        a.start_all_threads(global_parameters=dict(steps=steps, nb=nb, seed=seed, journal=journal, pause=pause))

    def resume():
        a = aceThreading.recover(rec)
        a.start_all_threads()

    def run_killed(fn, delay):
        pid = os.fork()
        if pid == 0:
            try:
                crash._reset()
                fn()
            except BaseException:
                os._exit(crash.FAILED)
            os._exit(0)
        t0 = time.time()
        while time.time() - t0 < delay:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                return os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
            time.sleep(0.0005)
        os.kill(pid, signal.SIGKILL)
        _, st = os.waitpid(pid, 0)
        return os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)

    def inspect(stage):
        if not os.path.exists(rec):
            c.check(not read_journal(journal), 'parallel:no-record', 'queries were made but there is nothing to recover', stage=stage)
            return False
        ok, a = c.attempt('parallel:unrecoverable', lambda: aceThreading.recover(rec), stage=stage,
                          files={x: os.path.getsize(os.path.join(d, 'AL_result', x)) for x in os.listdir(os.path.join(d, 'AL_result'))})
        logs = a.get_results()
        j = read_journal(journal)
        done = 0
        for i, log in enumerate(logs):
            c.eq(log.round, i, 'parallel:round')
            sels = [([py(v) for v in st.get_value('select_index')], st.get_value('performance')) for st in log]
            c.check(sels == want[i][:len(sels)], 'parallel:recovered-states-differ', '', fold=i, got=sels, want=want[i], stage=stage)
            last = max([k for k, _ in j.get(i, [])] or [0])
            c.check(len(sels) >= last, 'parallel:completed-iteration-lost', '', fold=i, have=len(sels), completed=last, stage=stage)
            c.event('journaled_states', last)
            tr, te, L, U = log.get_workspace()
            moved = [v for s2, _ in sels for v in s2]
            c.eq(content(L), sorted(folds[i][2] + moved), 'parallel:recovered-labeled')
            c.eq(content(U), sorted(set(folds[i][3]) - set(moved)), 'parallel:recovered-unlabeled')
            done += len(sels) == len(want[i])
        c.event('recovered_complete' if done == folds_n else 'recovered_midway')
        return True

    span = 0.01 + 0.004 * sum(steps) + pause * sum(steps) / (max_thread or folds_n)
    rc = run_killed(start, r.uniform(0, span * 1.5))
    c.check(rc in (0, -signal.SIGKILL), 'parallel:run-failed', '', rc=rc)
    c.event('parallel_kills', rc == -signal.SIGKILL)
    have = inspect('first')
    nxt = resume if have else start
    if r.random() < .4:
        rc = run_killed(nxt, r.uniform(0, span))
        c.check(rc in (0, -signal.SIGKILL), 'parallel:resume-failed', '', rc=rc)
        c.event('second_kill', rc == -signal.SIGKILL)
        nxt = resume if inspect('second') else start
    rc = run_killed(nxt, 60)
    c.check(rc == 0, 'parallel:resume-failed', '', rc=rc)
    inspect('finished')
    a = aceThreading.recover(rec)
    for i, log in enumerate(a.get_results()):
        c.eq(len(log), len(want[i]), 'parallel:final-length', '', fold=i, steps=steps, max_thread=max_thread, journal=read_journal(journal))
    j = read_journal(journal)
    for i in j:
        ks = [k for k, _ in j[i]]
        c.check(len(ks) <= len(set(ks)) + 2, 'parallel:query-repeated-after-save', '', fold=i, journal=j[i])
    c.covered((folds_n, n, steps, max_thread, nb, rc), True)
