"""Shared machinery of the bounded-exhaustive checks.

A check is a set of *groups* (functions decorated with ``@group``).  Each group
enumerates a finite space of programs / histories / inputs completely, drives the
real code in /repo with every element and compares the observation with a
reference model written in plain numpy / python.  A group runs once per mode:
``f32`` (jax default precision) and ``f64`` (JAX_ENABLE_X64).
"""
import contextlib
import itertools
import os
import traceback

import numpy as np

GROUPS = {}


def group(*, modes=("f32", "f64"), quick=None, tiers=("quick", "thorough"), cost=1):
    def deco(fn):
        mod = fn.__module__.rsplit(".", 1)[-1].upper()
        GROUPS.setdefault(mod, {})[fn.__name__] = dict(fn=fn, modes=modes, tiers=tiers, cost=cost)
        return fn

    return deco


def _short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


class Ctx:
    def __init__(self, prop, grp, mode, tier, seed=1):
        self.prop, self.group, self.mode, self.tier, self.seed = prop, grp, mode, tier, seed
        self.x64 = mode == "f64"
        self.thorough = tier == "thorough"
        self.evaluations = 0
        self.nontrivial = 0
        self._states = {}
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.failures = []
        self.nfail = 0

    # ----- bookkeeping -----------------------------------------------------
    def tol(self, f64, f32):
        return f64 if self.x64 else f32

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def visit(self, key, n=1):
        """record a state (a program node / history) with its n distinct input points"""
        new = key not in self._states
        if new or self._states[key] < n:
            self._states[key] = n
        return new

    @property
    def states(self):
        return sum(self._states.values())

    def step(self, n=1):
        self.transitions += int(n)

    def trace(self, n=1):
        self.traces += int(n)

    def outcome(self, key):
        if len(self.outcomes) < 20000:
            self.outcomes.add(key if isinstance(key, (str, int, tuple, bool)) else repr(key))

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(_short(f"{self.group}/{self.mode}: {text}", 400))

    # ----- verdicts --------------------------------------------------------
    def fail(self, case, detail):
        self.nfail += 1
        if len(self.failures) < 5:
            self.failures.append(dict(case=_short(str(case), 400), detail=_short(str(detail), 1500)))

    def check(self, case, cond, detail=""):
        self.evaluations += 1
        ok = bool(cond)
        if not ok:
            self.fail(case, detail() if callable(detail) else detail)
        return ok

    def mask(self, case, ok, describe):
        """ok: boolean array; describe(index tuple) -> text of that element"""
        ok = np.asarray(ok)
        self.evaluations += int(ok.size)
        if not ok.all():
            bad = np.argwhere(~ok)
            for ix in bad[:2]:
                self.fail(f"{case} @ {tuple(int(i) for i in ix)}", describe(tuple(ix)))
            self.nfail += len(bad) - min(2, len(bad))
            return False
        return True

    def close(self, case, got, want, rtol=None, atol=None, info=""):
        """element-wise comparison of arrays (shape included); NaN never matches"""
        rtol = self.tol(1e-9, 1e-4) if rtol is None else rtol
        atol = self.tol(1e-9, 1e-5) if atol is None else atol
        got, want = np.asarray(got), np.asarray(want)
        self.evaluations += max(1, int(want.size))
        if got.shape != want.shape:
            self.fail(case, f"shape {got.shape}, expected {want.shape} {info}")
            return False
        g, w = got.astype(np.float64), want.astype(np.float64)
        with np.errstate(all="ignore"):
            ok = np.abs(g - w) <= atol + rtol * np.abs(w)
        if not ok.all():
            ix = tuple(int(i) for i in np.argwhere(~ok)[0]) if ok.ndim else ()
            self.fail(case, f"{int((~ok).sum())} of {ok.size} differ; at {ix}: got {g[ix]!r}, expected {w[ix]!r} {info}")
            return False
        return True

    @contextlib.contextmanager
    def case(self, desc):
        """code raising on a valid input is a violation of the property"""
        try:
            yield
        except Exception as e:  # noqa: BLE001
            tb = traceback.format_exc(limit=-6)
            self.evaluations += 1
            self.fail(desc, f"raised {type(e).__name__}: {_short(str(e), 300)}\n{tb[-900:]}")

    def raises(self, case, fn, exc=Exception):
        self.evaluations += 1
        try:
            r = fn()
        except exc:
            return True
        except Exception as e:  # noqa: BLE001
            self.fail(case, f"raised {type(e).__name__} instead of {exc}: {e}")
            return False
        self.fail(case, f"accepted, returned {_short(r, 200)}")
        return False

    def result(self):
        return dict(
            group=self.group, mode=self.mode, evaluations=self.evaluations, states=self.states,
            transitions=self.transitions, traces=self.traces, outcomes=len(self.outcomes),
            samples=self.samples, failures=self.failures, nfail=self.nfail,
        )


def tree_close(ctx, case, got, want, **kw):
    """compare two pytrees: same structure, leaves close"""
    import jax

    gl, gd = jax.tree_util.tree_flatten(got)
    wl, wd = jax.tree_util.tree_flatten(want)
    if not ctx.check(case + " (tree structure)", gd == wd, lambda: f"structure {gd}, expected {wd}"):
        return False
    return all([ctx.close(f"{case} leaf {i}", g, w, **kw) for i, (g, w) in enumerate(zip(gl, wl))])


def product(*a, **k):
    return list(itertools.product(*a, **k))
