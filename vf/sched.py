"""Runs several calls as threads, one at a time, switching at lines of the code under test as a seeded generator decides.

The interleaving is a function of the calls, the seed and the rate, so that a failing one can be replayed.
"""
import os
import random
import sys
import threading

from vf import boot


class Interleaved:
    def __init__(self, calls, seed, rate, patience=2.):
        self.calls, self.rate, self.patience = calls, rate, patience
        self.rng = random.Random(seed)
        self.go = [threading.Event() for _ in calls]
        self.alive = list(range(len(calls)))
        self.out = [None] * len(calls)
        self.switches = 0
        self.root = os.path.join(os.path.realpath(boot.REPO), 'pymultifracs') + os.sep
        self.ours = {}

    def _mine(self, code):
        f = code.co_filename
        if f not in self.ours:
            self.ours[f] = os.path.realpath(f).startswith(self.root)
        return self.ours[f]

    def _pass_on(self, i, finished=False):
        others = [k for k in self.alive if k != i]
        if finished:
            self.alive.remove(i)
        if not others:
            return
        k = others[self.rng.randrange(len(others))]
        self.switches += 1
        self.go[i].clear()
        self.go[k].set()
        if not finished:
            # a thread that waits for something this one holds would never give back: go on after a while
            self.go[i].wait(self.patience)

    def _thread(self, i):
        def line(frame, event, arg):
            if event == 'line' and self.rng.random() < self.rate:
                self._pass_on(i)
            return line

        def trace(frame, event, arg):
            return line if self._mine(frame.f_code) else None

        self.go[i].wait(30)
        sys.settrace(trace)
        try:
            self.out[i] = 'value', self.calls[i]()
        except Exception as e:      # noqa: B902 - reported by the caller
            self.out[i] = 'error', e
        finally:
            sys.settrace(None)
            self._pass_on(i, finished=True)

    def run(self):
        ts = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(len(self.calls))]
        for t in ts:
            t.start()
        self.go[self.rng.randrange(len(ts))].set()
        for t in ts:
            t.join(60)
        return self.out
