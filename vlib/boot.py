"""Puts the code under test on the path, fills the missing ``src.CLA`` hole and
gives checks a controlled environment (no bytecode, no output noise, no wall
clock)."""
import contextlib
import io
import os
import sys
import time
import warnings

sys.dont_write_bytecode = True
REPO = os.environ.get('BELLA_REPO', '/repo')
for _p in (REPO,):
    if _p not in sys.path:
        sys.path.insert(0, _p)
os.environ.setdefault('MPLBACKEND', 'Agg')
warnings.simplefilter('ignore')

import numpy as np                        # noqa: E402
np.seterr(all='ignore')

from vlib import cla                      # noqa: E402
CLA_STUBBED = cla.install()


class _Sink(io.TextIOBase):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


@contextlib.contextmanager
def quiet():
    """the code under test prints a lot; drop it"""
    with contextlib.redirect_stdout(_Sink()):
        yield


@contextlib.contextmanager
def virtual_clock(step=0.002):
    """time.time() etc. advance by `step` per call: time limits inside the code
    under test become limits on the number of iterations, so runs are
    reproducible whatever the load of the machine"""
    saved = {n: getattr(time, n) for n in ('time', 'perf_counter', 'monotonic',
                                           'process_time')}
    state = [1.7e9]    # zip archives refuse dates before 1980

    def tick():
        state[0] += step
        return state[0]
    try:
        for n in saved:
            setattr(time, n, tick)
        yield state
    finally:
        for n, f in saved.items():
            setattr(time, n, f)
