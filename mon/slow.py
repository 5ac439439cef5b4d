"""Injected delays: verifiers whose probabilities take longest for the first tasks, and sleeps in forked workers."""
import os
import random
import sys
import time

from PyAnEn import VerifyProbGaussian, VerifyProbGammaHurdle, VerifyEnsemble, VerifyProbGamma
from .mk import watched

DELAY = {'lo': 0.0, 'hi': 1.0, 'max': 0.0}


def _pause(v, below):
    lo, hi, mx = v.delay[:3]
    x = float(below) if not hasattr(below, '__len__') else 0.0
    time.sleep(mx if x < lo + .12 * (hi - lo) else .01)       # the first tasks take longest
    if len(v.delay) > 3:                                     # order in which the tasks finished
        with open(v.delay[3], 'a') as f:
            f.write('%r\n' % x)


def make(cls, name):
    return watched(cls, _pause, name, delay=(0., 1., 0.), __module__=__name__)


SlowGaussian = make(VerifyProbGaussian, 'SlowGaussian')
SlowHurdle = make(VerifyProbGammaHurdle, 'SlowHurdle')
SlowEnsemble = make(VerifyEnsemble, 'SlowEnsemble')
SlowGamma = make(VerifyProbGamma, 'SlowGamma')
SLOW = {'gauss': SlowGaussian, 'hurdle': SlowHurdle, 'ens': SlowEnsemble, 'gamma': SlowGamma, 'tgauss': SlowGaussian}


class WorkerJitter:
    """While active, forked children sleep at random when they enter a function of the package."""
    registered = False
    active = False
    seed = 0
    limit = 0.01

    @classmethod
    def child(cls):
        if not cls.active:
            return
        rnd = random.Random(cls.seed * 1000003 + os.getpid())
        m = sys.monitoring
        try:
            m.use_tool_id(4, 'verif-jitter')
        except ValueError:
            return

        def on_start(code, off):
            if code.co_filename.startswith('/repo/PyAnEn/'):
                time.sleep(rnd.random() * cls.limit)
                return None
            return m.DISABLE
        m.register_callback(4, m.events.PY_START, on_start)
        m.set_events(4, m.events.PY_START)

    def __init__(self, seed, limit=0.01):
        self.s, self.l = seed, limit

    def __enter__(self):
        c = WorkerJitter
        if not c.registered:
            os.register_at_fork(after_in_child=c.child)
            c.registered = True
        c.active, c.seed, c.limit = True, self.s, self.l

    def __exit__(self, *a):
        WorkerJitter.active = False
