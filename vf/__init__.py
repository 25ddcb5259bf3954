"""Small property-based-testing layer on top of hypothesis, used by all checks.

A check module (checks/<ID>.py) declares *facets*: functions ``f(d)`` that draw one
case with ``d(strategy, "label")`` and raise :class:`Violation` (usually through
``close`` / ``must``) if the property does not hold for it.  A facet returns
``False`` for a trivial case, anything else for a non-trivial one.
"""
import json
import math
import os
import time
import traceback
import zlib

import numpy as np

FACETS = []


class Violation(Exception):
    """The oracle disagrees with the code under test."""


class HarnessError(Exception):
    """The harness itself is at fault (never reported as a violation)."""


class _Stop(KeyboardInterrupt):
    pass


class Facet:
    def __init__(self, fn, quick, thorough, shards, tshards):
        self.fn, self.name = fn, fn.__name__
        self.quick, self.thorough = quick, thorough
        self.shards, self.tshards = shards, tshards


def facet(quick, thorough=None, shards=1, tshards=None):
    """Register a facet: number of cases per shard in each tier, and shard counts."""

    def deco(fn):
        FACETS.append(
            Facet(fn, quick, thorough or quick * 10, shards, tshards or max(shards, 2))
        )
        return fn

    return deco


# ---------------------------------------------------------------- encoding of cases
def encode(v):
    if isinstance(v, (bool, type(None), str, int)):
        return v
    if isinstance(v, float):
        return v if math.isfinite(v) else {"__f": repr(v)}
    if isinstance(v, complex):
        return {"__c": [encode(v.real), encode(v.imag)]}
    if isinstance(v, tuple):
        return {"__t": [encode(x) for x in v]}
    if isinstance(v, list):
        return [encode(x) for x in v]
    if isinstance(v, dict):
        return {"__d": [[encode(k), encode(x)] for k, x in v.items()]}
    if isinstance(v, np.generic):
        return encode(v.item())
    raise HarnessError(f"cannot encode {type(v)}")


def decode(v):
    if isinstance(v, list):
        return [decode(x) for x in v]
    if isinstance(v, dict):
        if "__f" in v:
            return float(v["__f"])
        if "__c" in v:
            return complex(*[decode(x) for x in v["__c"]])
        if "__t" in v:
            return tuple(decode(x) for x in v["__t"])
        return {decode(k): decode(x) for k, x in v["__d"]}
    return v


# ---------------------------------------------------------------- drawing
class Draw:
    def __init__(self, data=None, replay=None):
        self._data, self._replay = data, replay
        self.log = []  # (label, encoded value)
        self.notes = {}

    def __call__(self, strategy, label="v"):
        if self._replay is not None:
            if len(self.log) >= len(self._replay):
                raise HarnessError("replay file has too few values")
            lab, enc = self._replay[len(self.log)]
            v = decode(enc)
        else:
            v = self._data.draw(strategy)
            enc = encode(v)
            lab = label
        self.log.append([lab, enc])
        return v

    # frequent draws
    def pick(self, options, label="pick"):
        """Index-based choice among arbitrary python objects."""
        from hypothesis import strategies as st

        options = list(options)
        return options[self(st.integers(0, len(options) - 1), label)]

    def int(self, lo, hi, label="n"):
        from hypothesis import strategies as st

        return self(st.integers(lo, hi), label)

    def bool(self, label="flag"):
        from hypothesis import strategies as st

        return self(st.booleans(), label)

    def float(self, lo, hi, label="x"):
        from hypothesis import strategies as st

        return self(
            st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False), label
        )

    def floats(self, lo, hi, n, label="xs"):
        from hypothesis import strategies as st

        return self(
            st.lists(
                st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False),
                min_size=n,
                max_size=n,
            ),
            label,
        )

    def gen(self, label="seed"):
        """numpy generator seeded by a drawn integer (bulk data of a case)."""
        from hypothesis import strategies as st

        return np.random.default_rng(self(st.integers(0, 2**32 - 1), label))

    def key(self, label="key"):
        import jax
        from hypothesis import strategies as st

        return jax.random.key(self(st.integers(0, 2**32 - 1), label))

    def note(self, **kw):
        self.notes.update({k: str(v)[:300] for k, v in kw.items()})


# ---------------------------------------------------------------- oracles' helpers
def fail(msg, **ctx):
    raise Violation(msg + "".join(f"; {k}={_short(v)}" for k, v in ctx.items()))


def _short(v):
    s = np.array2string(np.asarray(v), threshold=20) if hasattr(v, "shape") else str(v)
    return s if len(s) < 400 else s[:400] + "..."


def must(cond, msg, **ctx):
    if not bool(np.all(np.asarray(cond))):
        fail(msg, **ctx)


def arr(x, what="value"):
    """numpy array of a returned value; failure to be an array is a violation."""
    try:
        a = np.asarray(x)
    except Exception as e:
        fail(f"{what} is not an array: {e!r}")
    if a.dtype == object:
        fail(f"{what} is not a numeric array", value=x)
    return a


def shape(x, expect, what="value"):
    a = np.shape(x)
    if tuple(a) != tuple(expect):
        fail(f"{what}: shape {tuple(a)}, expected {tuple(expect)}")


def close(got, want, what="value", rtol=1e-9, atol=1e-9, finite=True, **ctx):
    """got and want agree within atol + rtol*|want| (arrays broadcastable: atol, rtol)."""
    g, w = arr(got, what), np.asarray(want)
    if g.shape != w.shape:
        fail(f"{what}: shape {g.shape}, expected {w.shape}", **ctx)
    if g.size == 0:
        return
    if g.dtype == bool:
        g = g.astype(int)
    if w.dtype == bool:
        w = w.astype(int)
    if np.iscomplexobj(w) and not np.all(np.isfinite(w)):
        raise HarnessError(f"{what}: reference value not finite")
    bad_ref = np.isnan(w)
    if bad_ref.any():
        raise HarnessError(f"{what}: reference value is nan")
    with np.errstate(all="ignore"):
        err = np.abs(g - w)
        err = np.where((g == w), 0.0, err)  # equal infinities
        tol = atol + rtol * np.where(np.isfinite(w), np.abs(w), 0)
        ok = err <= tol
    if not ok.all():
        tol = np.broadcast_to(tol, err.shape)
        score = np.where(ok, 0, np.where(np.isfinite(err), err / np.maximum(tol, 1e-300), np.inf))
        i = np.unravel_index(np.argmax(score), err.shape)
        fail(
            f"{what}: got {g[i]!r}, expected {w[i]!r} at index {tuple(int(j) for j in i)}"
            f" (error {err[i]:.3g}, tolerance {tol[i]:.3g}; {int((~ok).sum())} of {ok.size} entries differ)",
            **ctx,
        )


# ---------------------------------------------------------------- running one facet
HARNESS_EXC = (HarnessError, ImportError, NameError, SyntaxError, MemoryError, OSError)


def is_harness(e):
    return isinstance(e, HARNESS_EXC) or type(e).__module__.startswith("hypothesis")


def run_facet(f, n, seed, budget, shrink_s):
    """Drive one facet with hypothesis. Returns a result dictionary."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import strategies as st

    t0 = time.time()
    res = dict(
        facet=f.name, seed=seed, evaluations=0, nontrivial=0, skipped=0, samples=[],
        violation=None, error=None, wall_s=0.0,
    )
    seen = set()
    state = dict(first=None, best=None)
    rnd = zlib.crc32(f"{seed}".encode())

    def body(data):
        now = time.time()
        if now - t0 > budget and state["first"] is None:
            res["skipped"] += 1
            return
        if state["first"] is not None and now - state["first"] > shrink_s:
            raise _Stop()
        d = Draw(data)
        try:
            out = f.fn(d)
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except hypothesis.errors.StopTest:
            raise
        except Exception as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            if is_harness(e):
                res["error"] = "".join(traceback.format_exception(e))[-4000:]
                raise _Stop()
            if state["first"] is None:
                state["first"] = time.time()
            size = len(json.dumps(d.log))
            if state["best"] is None or size <= state["best"][0]:
                kind = "oracle" if isinstance(e, Violation) else "exception"
                msg = str(e) if kind == "oracle" else f"{type(e).__name__}: {e}"
                tb = "".join(traceback.format_exception(e))[-6000:]
                state["best"] = (size, d.log, d.notes, kind, msg[:2000], tb)
            # one exception type and location, so that shrinking sees one bug
            raise Violation("violation") from None
        res["evaluations"] += 1
        if out is not False:
            h = zlib.crc32(json.dumps(d.log).encode())
            if h not in seen:
                seen.add(h)
                res["nontrivial"] += 1
                if len(res["samples"]) < 3 or (len(res["samples"]) < 8 and res["nontrivial"] % 37 == 0):
                    s = json.dumps(d.log)
                    res["samples"].append(
                        dict(facet=f.name, case=s if len(s) < 1500 else s[:1500] + "...", **d.notes)
                    )

    test = given(st.data())(body)
    test = settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink], print_blob=False,
        report_multiple_bugs=False, verbosity=hypothesis.Verbosity.quiet,
    )(test)
    test = hypothesis.seed(zlib.crc32(f"{seed}:{f.name}:{rnd}".encode()))(test)
    try:
        test()
    except KeyboardInterrupt as e:
        if not isinstance(e, _Stop):
            raise
    except Violation:
        pass
    except Exception as e:  # hypothesis' own (e.g. flaky), or harness
        if state["best"] is None and res["error"] is None:
            res["error"] = "".join(traceback.format_exception(e))[-4000:]
    if state["best"] is not None:
        _, log, notes, kind, msg, tb = state["best"]
        res["violation"] = dict(
            facet=f.name, draws=log, notes=notes, kind=kind, message=msg, traceback=tb
        )
        res["error"] = None
    res["wall_s"] = time.time() - t0
    return res
