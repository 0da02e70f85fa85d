"""Runtime-verification harness: runs families of generated executions of the real
code in /repo under monitors, in forked workers, and turns what the monitors saw into a
three-valued verdict (held / violated / inconclusive), an evidence file and replay files."""
import hashlib
import io
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RV_REPO', '/repo')
CPU_LIMIT = 60      # CPU seconds one case may use (typical: < 1 s); progress bound, see DESIGN.md
WALL_LIMIT = 600     # wall seconds without a finished case before a worker is given up (inconclusive)


class CaseStop(BaseException):
    """Raised by a monitor to end the case after a violation."""


class NoProgress(BaseException):
    """Raised by the CPU timer: the code under test does not come back."""


class Skip(BaseException):
    """The generated case turned out to be outside the property's domain."""


def h(*parts):
    return int.from_bytes(hashlib.sha256('/'.join(map(str, parts)).encode()).digest()[:4], 'big')


def short(x, n=400):
    try:
        s = repr(x)
    except Exception as e:  # pragma: no cover
        s = '<unreprable %s>' % type(e).__name__
    return s if len(s) <= n else s[:n] + '...'


class Family(object):
    def __init__(self, fn, name, quick, thorough, rule):
        self.fn, self.name, self.quick, self.thorough, self.rule = fn, name, quick, thorough, rule


class Registry(object):
    """One per check module."""

    def __init__(self, prop, rule, require=(), level='exploration', assumptions=()):
        self.prop, self.rule, self.level = prop, rule, level
        self.require = tuple(require)
        self.assumptions = list(assumptions)
        self.families = []

    def family(self, name, quick, thorough, rule=''):
        def deco(fn):
            self.families.append(Family(fn, name, quick, thorough, rule or (fn.__doc__ or '').strip()))
            return fn
        return deco


class Case(object):
    """One generated execution. `rng`/`nr` are its only sources of choice."""

    def __init__(self, reg, fam, i, seed, known, tier):
        import numpy as np
        self.reg, self.fam, self.i, self.tier = reg, fam, i, tier
        self.seed = h(seed, reg.prop, fam.name, i)
        self.rng = random.Random(self.seed)
        self.nr = np.random.RandomState(self.seed)
        self.events = Counter()
        self.fails, self.known_hits = [], []
        self.keys = []
        self.sample = None
        self._known = known
        self._scratch = None
        self._trace = []
        self._watch = None
        random.seed(self.seed)
        np.random.seed(self.seed)

    # -- observation ---------------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] += n

    def look(self, final=False):
        """Whether to observe now. Reading state back may itself refresh what is stale, so that a monitor which looks
        after every step can hide a fault: each case draws how densely it is watched, down to (almost) not at all
        before its end. `final`: from now on everything is looked at."""
        if self._watch is None:
            self._watch = self.rng.choice([1, 1, 1, .6, .3, .05])
        if final:
            self._watch = 1
        yes = self._watch == 1 or self.rng.random() < self._watch
        if not yes:
            self.event('unwatched')
        return yes

    def spoil(self, *things):
        """In some cases the caller goes on using, and changes in place, what it passed or received."""
        if self.rng.random() > .3:
            return
        import numpy as np
        for t in things:
            for v in t if isinstance(t, (list, tuple)) else [t]:
                if isinstance(v, np.ndarray) and v.dtype.kind in 'biuf' and v.flags.writeable:
                    v[...] = 66
                elif isinstance(v, list):
                    v[:] = v[::-1] + [66]
            if isinstance(t, list):
                t.append(66)
        self.event('spoiled')

    def note(self, *what):
        """Append to this case's recorded history (shown in a witness)."""
        self._trace.append(' '.join(w if isinstance(w, str) else short(w, 160) for w in what))
        if len(self._trace) > 400:
            del self._trace[:200]

    def covered(self, key, nontrivial=True):
        """Declare what this evaluation covered; distinct non-trivial keys are counted."""
        if nontrivial:
            self.keys.append('%08x' % h(self.fam.name, short(key, 4000)))
        else:
            self.keys.append(None)
        if self.sample is None:
            self.sample = '%s: %s' % (self.fam.name, short(key, 300))

    # -- verdicts ------------------------------------------------------------------
    def fail(self, mech, msg, /, **wit):
        rec = dict(mech=mech, msg=msg, witness={k: short(v, 1500) for k, v in wit.items()},
                   history=list(self._trace[-60:]))
        if mech in self._known:
            self.known_hits.append(rec)
            return False
        self.fails.append(rec)
        raise CaseStop()

    def check(self, cond, mech, msg='', /, **wit):
        self.events['oracle_checks'] += 1
        if not bool(cond):
            return self.fail(mech, msg, **wit)
        return True

    def eq(self, got, want, mech, msg='', /, **wit):
        self.events['oracle_checks'] += 1
        if not (got == want):
            return self.fail(mech, msg or 'got != want', **dict(wit, got=got, want=want))
        return True

    def close(self, got, want, mech, msg='', /, tol=1e-7, **wit):
        import numpy as np
        self.events['oracle_checks'] += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
            ok = g.shape == w.shape and np.allclose(g, w, rtol=tol, atol=tol, equal_nan=True)
        except Exception:
            ok = False
        if not ok:
            return self.fail(mech, msg or 'got != want', **dict(wit, got=got, want=want))
        return True

    def raises(self, excs, fn, mech, msg='', /, **wit):
        """The call must be rejected by one of the exception types."""
        self.events['oracle_checks'] += 1
        try:
            r = fn()
        except excs:
            self.event('rejections_observed')
            return True
        except (CaseStop, NoProgress, Skip):
            raise
        except Exception as e:
            return self.fail(mech, msg or 'wrong exception', **dict(wit, raised=e, exception=type(e).__name__))
        return self.fail(mech, msg or 'accepted what must be rejected', **dict(wit, returned=r))

    def attempt(self, mech, fn, /, **wit):
        """Run fn(); if it raises although the property says it may not, report it under mech.
        Returns (ok, value)."""
        try:
            return True, fn()
        except (CaseStop, NoProgress, Skip):
            raise
        except Exception as e:
            tb = traceback.format_exc()
            self.fail(mech, 'raised %s: %s' % (type(e).__name__, e), **dict(wit, traceback=tb[-1200:]))
            return False, None

    def scratch(self):
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix='case-', dir=os.environ['RV_SCRATCH'])
        return self._scratch

    def close_scratch(self):
        if self._scratch is not None:
            shutil.rmtree(self._scratch, ignore_errors=True)
            self._scratch = None

    def skip(self):
        raise Skip()


def load_known(prop):
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                mech, _, text = rest.partition(' | ')
                known[mech.split('=', 1)[1].strip()] = text.strip()
    return known


def _run_case(reg, fam, i, seed, known, tier):
    c = Case(reg, fam, i, seed, known, tier)
    cwd = os.getcwd()

    def on_timer(sig, frame):
        raise NoProgress()
    old = signal.signal(signal.SIGPROF, on_timer)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    status = 'ok'
    try:
        fam.fn(c)
    except CaseStop:
        pass
    except Skip:
        status = 'skip'
    except NoProgress:
        c.fails.append(dict(mech=fam.name + ':no-progress',
                            msg='the code under test did not return within %d CPU s' % CPU_LIMIT,
                            witness={}, history=list(c._trace[-60:])))
    except MemoryError:
        status = 'inconclusive'
    except Exception as e:
        # The generated call is inside the property's domain and must not raise: on the
        # unchanged tree no case does, so an exception here is an observation about the code.
        tb = traceback.format_exc()
        mech = fam.name + ':exception:' + type(e).__name__
        rec = dict(mech=mech, msg='unexpected %s: %s' % (type(e).__name__, short(e, 300)),
                   witness={'traceback': tb[-3000:]}, history=list(c._trace[-60:]))
        (c.known_hits if mech in known else c.fails).append(rec)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        os.chdir(cwd)
        c.close_scratch()
    if c.fails:
        status = 'fail'
    return c, status


def _worker(reg, cases, seed, known, tier, deadline, out, hb):
    """Runs in a forked child."""
    warnings.simplefilter('ignore')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.stdout = io.open(os.devnull, 'w')
    sys.stderr = io.open(os.devnull, 'w')
    os.chdir(os.environ['RV_SCRATCH'])
    res = dict(fams={}, events=Counter(), keys=set(), fails=[], known={}, samples={}, cut=0, slow=[])
    for n, (fam, i) in enumerate(cases):
        if time.time() > deadline:
            res['cut'] = len(cases) - n
            break
        with open(hb, 'w') as f:
            f.write('%s %d' % (fam.name, i))
        t0 = time.time()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c, status = _run_case(reg, fam, i, seed, known, tier)
        fs = res['fams'].setdefault(fam.name, dict(cases=0, evaluations=0, nontrivial=0, skipped=0, inconclusive=0, s=0.0))
        fs['s'] += time.time() - t0
        if status == 'skip':
            fs['skipped'] += 1
            continue
        if status == 'inconclusive':
            fs['inconclusive'] += 1
            continue
        fs['cases'] += 1
        fs['evaluations'] += max(1, len(c.keys))
        fs['nontrivial'] += sum(k is not None for k in c.keys)
        res['events'].update(c.events)
        res['keys'].update(k for k in c.keys if k)
        if c.sample is not None and fam.name not in res['samples']:
            res['samples'][fam.name] = c.sample
        for r in c.known_hits:
            res['known'].setdefault(r['mech'], [0, fam.name, i, r['msg']])[0] += 1
        for r in c.fails:
            r.update(family=fam.name, index=i, case_seed=c.seed)
            res['fails'].append(r)
        if len(res['fails']) >= 8 or any('no-progress' in r['mech'] for r in c.fails):
            break
    res['events'] = dict(res['events'])
    res['keys'] = sorted(res['keys'])
    tmp = out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(res, f, default=short)
    os.rename(tmp, out)
    os._exit(0)


def run(reg, tier, seed, only=None, replay=None, jobs=None, scale=1.0):
    t0 = time.time()
    prop = reg.prop
    known = load_known(prop)
    jobs = jobs or int(os.environ.get('RV_JOBS', '8'))
    budget = float(os.environ.get('RV_BUDGET', '420' if tier == 'quick' else '3000'))
    if replay:
        rec = json.load(open(replay))
        fam = [f for f in reg.families if f.name == rec['family']][0]
        c, status = _run_case(reg, fam, rec['index'], rec['seed'], known, rec['tier'])
        for r in c.fails + c.known_hits:
            print(json.dumps(r, indent=1, default=short))
        print('replay:', status, dict(c.events))
        if c.fails:
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            return 1
        return 0
    # round-robin over the families so that a time cut thins every family alike
    per = []
    for f in reg.families:
        if only and f.name not in only:
            continue
        n = f.quick if tier == 'quick' else f.thorough
        n = max(1, int(n * scale))
        per.append([((k + 0.5) / n, f, k) for k in range(n)])
    cases = sorted((x for p in per for x in p), key=lambda t: t[0])
    cases = [(f, k) for _, f, k in cases]
    jobs = max(1, min(jobs, len(cases)))
    scr = os.environ['RV_SCRATCH']
    pids, outs, hbs = [], [], []
    deadline = t0 + budget
    sys.stdout.flush()
    for w in range(jobs):
        out, hb = os.path.join(scr, 'out%d.json' % w), os.path.join(scr, 'hb%d' % w)
        outs.append(out)
        hbs.append(hb)
        pid = os.fork()
        if pid == 0:
            try:
                _worker(reg, cases[w::jobs], seed, known, tier, deadline, out, hb)
            except BaseException:
                with open(out + '.err', 'w') as f:
                    traceback.print_exc(file=f)
                os._exit(3)
        pids.append(pid)
    alive = set(range(jobs))
    lost, reasons = 0, []
    while alive:
        for w in list(alive):
            p, st = os.waitpid(pids[w], os.WNOHANG)
            if p:
                alive.discard(w)
                continue
            try:
                stale = time.time() - os.path.getmtime(hbs[w])
            except OSError:
                stale = time.time() - t0
            if stale > WALL_LIMIT:
                os.kill(pids[w], signal.SIGKILL)
                os.waitpid(pids[w], 0)
                alive.discard(w)
        time.sleep(0.05)
    tot = dict(fams={}, events=Counter(), keys=set(), fails=[], known={}, samples={}, cut=0)
    for w, out in enumerate(outs):
        if not os.path.exists(out):
            lost += 1
            where = open(hbs[w]).read() if os.path.exists(hbs[w]) else '?'
            err = open(out + '.err').read()[-800:] if os.path.exists(out + '.err') else ''
            reasons.append('worker %d lost at %s %s' % (w, where, err))
            continue
        r = json.load(open(out))
        for k, v in r['fams'].items():
            d = tot['fams'].setdefault(k, Counter())
            d.update(v)
        tot['events'].update(r['events'])
        tot['keys'].update(r['keys'])
        tot['fails'] += r['fails']
        tot['cut'] += r['cut']
        for k, v in r['known'].items():
            if k in tot['known']:
                tot['known'][k][0] += v[0]
            else:
                tot['known'][k] = v
        for k, v in r['samples'].items():
            tot['samples'].setdefault(k, v)
    fails = sorted(tot['fails'], key=lambda r: (r['family'], r['index']))
    rdir = os.path.join(VERIF, 'replays', prop)
    shutil.rmtree(rdir, ignore_errors=True)
    seen, lines = set(), []
    for r in fails:
        if r['mech'] in seen:
            continue
        seen.add(r['mech'])
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (r['family'], r['index']))
        r.update(property=prop, tier=tier, seed=seed)
        with open(path, 'w') as f:
            json.dump(r, f, indent=1, default=short)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        print('  [%s] case %s/%d: %s %s' % (r['mech'], r['family'], r['index'], r['msg'], short(r['witness'], 700)))
    evaluations = int(sum(f['evaluations'] for f in tot['fams'].values()))
    cov = dict(evaluations=evaluations, distinct_nontrivial=len(tot['keys']),
               rule=reg.rule + ' Families: ' + '; '.join('%s = %s' % (f.name, f.rule) for f in reg.families),
               samples=[tot['samples'][k] for k in sorted(tot['samples'])][:12],
               executions=int(sum(f['cases'] for f in tot['fams'].values())),
               families={k: {a: (round(b, 2) if a == 's' else b) for a, b in v.items()} for k, v in sorted(tot['fams'].items())},
               events=dict(sorted(tot['events'].items())), cases_cut_by_time_budget=tot['cut'])
    ev = dict(property=prop, tier=tier, seed=seed, level=reg.level, coverage=cov,
              assumptions=reg.assumptions + [
                  'Held only on the executions listed; code paths the workloads do not drive are not covered.'],
              wall_s=round(time.time() - t0, 2), violations=len(lines),
              known_findings_seen={k: dict(times=v[0], example='%s/%s' % (v[1], v[2]), what=v[3]) for k, v in tot['known'].items()})
    if only is None and os.environ.get('RV_NO_EVIDENCE') is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=short)
    for mech in sorted(known):
        if mech in tot['known']:
            print('KNOWN-FINDING: property=%s %s: %s (seen %d times)' % (prop, mech, known[mech], tot['known'][mech][0]))
        else:
            print('KNOWN-FINDING: property=%s %s: %s (not reached by this run)' % (prop, mech, known[mech]))
    print('%s tier=%s seed=%s evaluations=%d distinct_nontrivial=%d checks=%d wall=%.1fs cut=%d' % (
        prop, tier, seed, evaluations, len(tot['keys']), tot['events'].get('oracle_checks', 0), time.time() - t0, tot['cut']))
    if os.environ.get('RV_VERBOSE'):
        print(json.dumps(cov, indent=1, default=short))
    if lines:
        for l in lines:
            print(l)
        return 1
    for f in reg.families:
        if only and f.name not in only:
            continue
        d = tot['fams'].get(f.name)
        if not d or not d['cases'] or d['skipped'] > 20 * d['cases']:
            reasons.append('family %s observed (almost) nothing' % f.name)
        elif d['inconclusive'] > d['cases']:
            reasons.append('family %s mostly inconclusive' % f.name)
    if not only:
        for name in reg.require:
            if not tot['events'].get(name):
                reasons.append('monitor event %r was never observed' % name)
    if lost or reasons:
        print('INCONCLUSIVE property=%s %s' % (prop, ' | '.join(reasons)))
        return 3
    return 0
