"""Schedule fuzzing: while active, threads started meanwhile pause at a few randomly chosen lines of ALiPy (the same
lines each time they are reached), so that other threads run between any two of its statements. Works on whatever lines
there are: nothing depends on how the code is written."""
import os
import sys
import threading
import time

from rv.core import REPO

ROOT = os.path.join(os.path.realpath(REPO), 'alipy') + os.sep


class Fuzz(object):
    """share: part of the lines that pause; nap: longest pause; budget: seconds of pauses in all."""

    def __init__(self, c, share=.05, nap=.002, budget=.4):
        self.c, self.share, self.nap, self.budget = c, share, nap, budget
        self.sites, self.mine, self.spent, self.pauses = {}, {}, 0., 0
        self.seed = c.rng.random()

    def _call(self, frame, event, arg):
        f = frame.f_code.co_filename
        ok = self.mine.get(f)
        if ok is None:
            ok = self.mine[f] = os.path.realpath(f).startswith(ROOT)
        return self._line if ok else None

    def _line(self, frame, event, arg):
        if event == 'line' and self.spent < self.budget:
            key = (frame.f_code.co_filename, frame.f_lineno)
            hot = self.sites.get(key)
            if hot is None:
                hot = self.sites[key] = hash((self.seed, key)) % 1000 < 1000 * self.share
            if hot:
                d = (hash((key, self.pauses)) % 100) / 100. * self.nap
                self.pauses += 1
                self.spent += d
                time.sleep(d)
        return self._line

    def __enter__(self):
        threading.settrace(self._call)
        return self

    def __exit__(self, *a):
        threading.settrace(None)
        self.c.event('scheduled_runs')
        self.c.event('schedule_pauses', self.pauses)


def maybe(c, chance=.4):
    """A Fuzz in some cases, nothing in the others."""
    if c.rng.random() < chance:
        return Fuzz(c, share=c.rng.choice([.02, .05, .15]), nap=c.rng.choice([.001, .004]))
    return _Nothing()


class _Nothing(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass
