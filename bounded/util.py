"""Helpers of the bounded stand-ins: evaluate a proved contract's clauses on a result obtained through the public API."""
import copy
import numpy as np
import pandas as pd


def clause_fail(key, args, result, new=None):
    """first clause of the contract that fails on (args, result), '' when all hold, None outside the precondition"""
    from pyvc import decl, dsl, trace
    c = decl.REGISTRY[key]
    g = trace.spec_globals()
    dsl.reset()
    env = {a: copy.deepcopy(b) for (a, _), b in zip(c.params, args)}
    for r in c.requires:
        if not trace.eval_expr(r, env, g):
            return None
    for e, cond in c.raises:
        if trace.eval_expr(cond, env, g):
            return f"{e} expected"
    env["result"] = result
    for (a, _), b in zip(c.params, args):
        env["new_" + a] = (new or {}).get(a, b)
    for cl in c.all_ensures():
        try:
            ok = trace.eval_expr(cl, env, g)
        except (IndexError, ZeroDivisionError, KeyError) as e:
            return f"{cl} [{type(e).__name__}: {e}]"
        if not ok:
            return cl
    return ""


def same(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "f" or b.dtype.kind == "f":
        return bool(np.allclose(a.astype(float), b.astype(float), rtol=rtol, atol=atol, equal_nan=True))
    return bool(np.array_equal(a, b))


def close_idx(ts, i):
    return np.asarray(i, dtype=np.int64)


def trades(rng, n, start=1_600_000_000_000_000_000, eqp=0.3, signs=True):
    """time-ordered trades with repeated times and prices; prices and amounts are dyadic so sums are exact in float32"""
    ts = np.cumsum([0 if rng.random() < eqp else rng.choice([1, 999, 10**6, 10**8, 10**9, 3 * 10**9, 7 * 10**9]) for _ in range(n)]).astype(np.int64) + start + rng.choice([0, 1, 5 * 10**8])
    px = 100.0 + np.cumsum([rng.choice([0, 0, 0.5, -0.5, 1.0, -1.0, 2.0]) for _ in range(n)])
    px = np.maximum(px, 0.5)
    am = np.array([rng.choice([0.25, 0.5, 1.0, 2.0, 4.0, 16.0]) for _ in range(n)])
    side = np.array([rng.choice([-1, 1]) for _ in range(n)], dtype=np.int8)
    return ts, px, am, side


def trades_data(ts, px, am, side=None):
    from finmlkit.bar.data_model import TradesData
    return TradesData(ts.copy(), px.copy(), am.copy(), timestamp_unit="ns", side=None if side is None else side.copy())
