"""A clock the workload moves: every clock of the time module, also where the code under test imported it by name."""
import sys
import time

CLOCKS = ('perf_counter', 'time', 'monotonic', 'process_time', 'thread_time')
REAL = {k: getattr(time, k) for k in CLOCKS if hasattr(time, k)}
REAL.update({k + '_ns': getattr(time, k + '_ns') for k in CLOCKS if hasattr(time, k + '_ns')})


class FakeClock(object):
    """All clocks advance together, each from its own origin (so that mixing two of them is noticed)."""

    def __init__(self, c):
        self.now, self.c, self.reads = 0.0, c, 0

    def __enter__(self):
        self.undo = []
        by_id = {}
        for n, k in enumerate(sorted(REAL)):
            def read(n=n, ns=k.endswith('_ns')):
                self.reads += 1
                self.c.event('clock_reads')
                t = 1000.0 * (n + 1) + self.now
                return int(t * 1e9) if ns else t
            by_id[id(REAL[k])] = read
            self._set(time, k, read)
        for name, mod in list(sys.modules.items()):
            if name.split('.')[0] == 'alipy' and mod is not None:
                for k, v in list(vars(mod).items()):
                    if id(v) in by_id:
                        self._set(mod, k, by_id[id(v)])
        return self

    def _set(self, obj, k, v):
        self.undo.append((obj, k, getattr(obj, k)))
        setattr(obj, k, v)

    def __exit__(self, *a):
        for obj, k, v in reversed(self.undo):
            setattr(obj, k, v)
