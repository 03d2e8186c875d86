"""Explorer core.

A check module enumerates a finite list of *cases* (one case = one bounded
behaviour: an initial state and an operation sequence, or an environment
choice) and replays every one of them on the real otpod code, comparing each
observation with a reference model.  Nothing is sampled: the whole list is
explored on every run, and a run that does not finish the list is an error.

Recorder (Ctx):
  step(label, *detail)   one transition taken on the implementation
  state(*parts)          one abstract state reached (counted when distinct)
  check(cond, msg)       one monitor evaluation
"""
import hashlib
import json
import math
import os
import sys
import traceback


class Stop(Exception):
    """The current trace cannot go on (a violation was recorded)."""


def canon(x):
    """Canonical JSON-able form of a value (floats rounded to 9 digits)."""
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        if math.isnan(x):
            return 'nan'
        if math.isinf(x):
            return 'inf' if x > 0 else '-inf'
        return float('%.9g' % x)
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [canon(v) for v in x]
    if hasattr(x, 'tolist'):
        return canon(x.tolist())
    try:
        return [canon(v) for v in x]
    except TypeError:
        pass
    try:
        return canon(float(x))
    except Exception:
        return str(x)


class Ctx(object):
    def __init__(self, case):
        self.case = case
        self.trace = []
        self.states = set()
        self.transitions = 0
        self.monitors = 0
        self.problems = []

    # -- recording -------------------------------------------------------
    def step(self, label, *detail):
        self.transitions += 1
        if len(self.trace) < 400:
            self.trace.append([label] + [canon(d) for d in detail])

    def state(self, *parts):
        blob = json.dumps(canon(list(parts)), sort_keys=True)
        self.states.add(hashlib.md5(blob.encode()).hexdigest()[:16])

    # -- monitors --------------------------------------------------------
    def fail(self, msg, sig=None):
        self.problems.append({'message': str(msg)[:1500], 'signature': sig,
                              'trace': list(self.trace[-60:])})

    def check(self, cond, msg, sig=None):
        self.monitors += 1
        if not cond:
            self.fail(msg() if callable(msg) else msg, sig)
            return False
        return True

    def close(self, got, want, msg, rtol=1e-7, atol=1e-9, sig=None):
        """Element-wise comparison, NaN and shape mismatches are failures."""
        import numpy as np
        self.monitors += 1
        try:
            g = np.array(got, dtype=float).ravel()
            w = np.array(want, dtype=float).ravel()
        except Exception as e:
            self.fail('%s: cannot compare %r with %r (%s)' % (msg, got, want, e), sig)
            return False
        if g.shape != w.shape:
            self.fail('%s: %d values, expected %d' % (msg, g.size, w.size), sig)
            return False
        with np.errstate(all='ignore'):
            ok = np.abs(g - w) <= atol + rtol * np.abs(w)
            ok |= (g == w)
            ok |= np.isnan(g) & np.isnan(w)
        if not ok.all():
            i = int(np.argmin(ok))
            self.fail('%s: got %r, expected %r (component %d of %d)' %
                      (msg, float(g[i]), float(w[i]), i, g.size), sig)
            return False
        return True

    def raises(self, label, exc, func, *args, **kw):
        """The call must be refused with one of the exception types exc."""
        self.step(label, *[str(a)[:80] for a in args])
        self.monitors += 1
        try:
            func(*args, **kw)
        except exc:
            return True
        except Exception as e:
            self.fail('%s raised %s (%s), expected %s' %
                      (label, type(e).__name__, e, exc))
            return False
        self.fail('%s was accepted, it must be refused' % label)
        return False


def close_figs():
    plt = sys.modules.get('matplotlib.pyplot')
    if plt is not None:
        plt.close('all')


def run_case(module, case):
    ctx = Ctx(case)
    try:
        module.run(case, ctx)
    except Stop:
        pass
    except BaseException as e:       # noqa: B902 -- any escape is a violation
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.format_exc()
        ctx.fail('unexpected %s: %s\n%s' % (type(e).__name__, e, tb[-1200:]),
                 sig='exc:%s' % type(e).__name__)
    finally:
        close_figs()
    return {'transitions': ctx.transitions, 'monitors': ctx.monitors,
            'states': sorted(ctx.states), 'problems': ctx.problems,
            'trace_len': len(ctx.trace), 'trace': ctx.trace[:12]}
