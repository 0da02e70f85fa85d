import argparse
import importlib
import os
import shutil
import sys
import tempfile
import warnings


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--only', action='append')
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int)
    a = ap.parse_args()
    repo = os.environ.get('RV_REPO', '/repo')
    sys.path.insert(0, repo)
    scr = tempfile.mkdtemp(prefix='rv-%s-' % a.prop)
    os.environ['RV_SCRATCH'] = scr
    mpl = os.path.join(scr, 'mpl')
    try:
        if os.path.isdir('/opt/vp/mplconfig'):
            shutil.copytree('/opt/vp/mplconfig', mpl)
    except Exception:
        pass
    os.makedirs(mpl, exist_ok=True)
    os.environ['MPLCONFIGDIR'] = mpl
    pid = os.getpid()
    code = 4
    try:
        warnings.simplefilter('ignore')
        try:
            import alipy
        except Exception as e:
            print('cannot import the code under test: %s: %s' % (type(e).__name__, e))
            return 4
        if not os.path.realpath(alipy.__file__).startswith(os.path.realpath(repo) + os.sep):
            print('imported alipy from %s, not from %s' % (alipy.__file__, repo))
            return 4
        from rv import core
        mod = importlib.import_module('rv.checks.' + a.prop.lower())
        code = core.run(mod.R, a.tier, a.seed, only=a.only, replay=a.replay, jobs=a.jobs, scale=a.scale)
    finally:
        if os.getpid() == pid:
            shutil.rmtree(scr, ignore_errors=True)
    return code


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
