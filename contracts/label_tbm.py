from pyvc.decl import Contract
from pyvc.dsl import *
from pyvc.base_specs import *
import numpy as np


# side-adjusted log return of trade j against the event trade
@spec("A_real, int, int, real -> real", macro=True)
def ret(close, ev, j, sd):
    return (log_(close[j]) - log_(close[ev])) * sd


@spec("A_real, int, int, real, real, ereal, ereal -> bool", macro=True)
def hit(close, ev, j, sd, tgt, bottom, top):
    return (isfinite(top) and ret(close, ev, j, sd) >= tgt * top) or (isfinite(bottom) and ret(close, ev, j, sd) <= -tgt * bottom)


@spec("ereal, int -> bool", macro=True)
def late(vertical, ns):
    """the duration exceeds the vertical barrier, taken to the nanosecond"""
    return isfinite(vertical) and ns > round_(vertical * 1000000000.0)


# largest share of the way to the upper (lower) barrier among the trades allowed to close, over [lo, hi)
@spec("A_real, A_int, int, real, real, real, real, int, int -> real")
def prog(close, ts, ev, sd, barrier, sgn, minc, lo, hi):
    return 0.0 if hi <= lo else (max(prog(close, ts, ev, sd, barrier, sgn, minc, lo, hi - 1), ret(close, ev, hi - 1, sd) / barrier)
                                 if ts[hi - 1] - ts[ev] >= minc and ret(close, ev, hi - 1, sd) * sgn > 0
                                 else prog(close, ts, ev, sd, barrier, sgn, minc, lo, hi - 1))


def g_tbm(meta):
    def g(rng, n):
        n = max(n, 1)
        ts = np.array(sorted(rng.randrange(0, 6 * n + 1) for _ in range(n)), dtype=np.int64) * 500_000_000 + rng.choice([0, 0, 1_600_000_000_001_000_001])
        c = [100.0]
        for _ in range(n - 1):
            c.append(c[-1] * (1 + rng.choice([0.0, rng.uniform(-0.02, 0.02), rng.uniform(-0.002, 0.002)])))
        k = rng.randint(1, 3)
        ev = np.array(sorted(rng.randrange(n) for _ in range(k)), dtype=np.int64)
        tg = np.array([rng.uniform(0.001, 0.02) for _ in range(k)])
        hb = (rng.choice([np.inf, -np.inf, 0.0, 0.5, 1.0, 2.0]), rng.choice([np.inf, -np.inf, 0.0, 0.5, 1.0, 2.0]))
        vb = rng.choice([np.inf, 0.25, 1.0, 3.0, 10.0, 30.0])
        if rng.random() < 0.05:
            vb = rng.choice([0.0, -1.0])
        if rng.random() < 0.05:
            tg = tg[:-1]
        sd = np.array([rng.choice([-1, 1]) for _ in range(k if rng.random() < 0.95 else k + 1)], dtype=np.int8) if meta else None
        return (ts, np.array(c), ev, tg, hb, vb, rng.choice([0.0, 0.0, 0.5, 2.0, 5.0]), sd, rng.choice([0.0, 0.0, 0.001, -0.1]) if rng.random() < .3 else 0.0)
    return g


for META in (False, True):
    EV, TCH = "event_idxs[e]", "result[1][e]"
    SD = "side[e]" if META else "1.0"
    MINC = "(min_close_time_sec * 1000000000.0)"
    BOT, TOP = "horizontal_barriers[0]", "horizontal_barriers[1]"
    SKIP = f"({EV} + 1 >= len(timestamps) or late(vertical_barrier, timestamps[{EV} + 1] - timestamps[{EV}]))"
    ELIG = lambda j: f"(timestamps[{j}] - timestamps[{EV}] >= {MINC})"
    HIT = lambda j: f"hit(close, {EV}, {j}, {SD}, targets[e], {BOT}, {TOP})"
    RET = lambda j: f"ret(close, {EV}, {j}, {SD})"
    UP = f"(targets[e] * {TOP})"
    LOW = f"(-targets[e] * {BOT})"
    UV = f"(isfinite({TOP}) and {UP} != 0)"
    LV = f"(isfinite({BOT}) and {LOW} != 0)"
    PU = lambda hi, ev=EV: f"prog(close, timestamps, {ev}, {SD}, {UP}, 1.0, {MINC}, {ev} + 1, {hi})"
    PL = lambda hi, ev=EV: f"prog(close, timestamps, {ev}, {SD}, {LOW}, -1.0, {MINC}, {ev} + 1, {hi})"
    U = f"ite({UV}, {PU(TCH + ' + 1')}, 0.0)"
    V = f"ite({LV}, {PL(TCH + ' + 1')}, 0.0)"
    CL = [
        # skipped events
        f"implies({SKIP}, {TCH} == {EV} and isnan(result[2][e]) and result[0][e] == 0 and isnan(result[3][e]))",
        # the touch lies after the event and inside the vertical barrier
        f"implies(not {SKIP}, {EV} < {TCH} and {TCH} < len(timestamps) and not late(vertical_barrier, timestamps[{TCH}] - timestamps[{EV}]))",
        # nothing before it touches
        f"implies(not {SKIP}, forall({EV} + 1, {TCH}, lambda j: not ({ELIG('j')} and {HIT('j')})))",
        # it touches, or it is the last trade inside the vertical barrier
        f"implies(not {SKIP}, ({ELIG(TCH)} and {HIT(TCH)}) or {TCH} + 1 >= len(timestamps) or late(vertical_barrier, timestamps[{TCH} + 1] - timestamps[{EV}]))",
        f"implies(not {SKIP}, same(result[2][e], {RET(TCH)}))",
        f"implies(not {SKIP}, result[0][e] == " + (f"ite({RET(TCH)} >= min_ret, 1, 0))" if META else f"ite({RET(TCH)} < 0, -1, 1))"),
        f"implies(not {SKIP} and {ELIG(TCH)} and {HIT(TCH)}, same(result[3][e], 1.0))",
        f"implies(not {SKIP} and not ({ELIG(TCH)} and {HIT(TCH)}) and {RET(TCH)} > 0, same(result[3][e], ite({UV}, min({U} / (1 + {V}), 1.0), nan)))",
        f"implies(not {SKIP} and not ({ELIG(TCH)} and {HIT(TCH)}) and {RET(TCH)} <= 0, same(result[3][e], ite({LV}, min({V} / (1 + {U}), 1.0), nan)))",
    ]
    def arrs(s):
        return s.replace("result[0]", "$A0").replace("result[1]", "$A1").replace("result[2]", "$A2").replace("result[3]", "$A3")
    I_ = lambda s: s.replace("[e]", "[$u9]")
    Contract("finmlkit/label/tbm.py:triple_barrier" + ("#meta" if META else "#side"),
             ["timestamps: A_int", "close: A_real", "event_idxs: A_int", "targets: A_real", "horizontal_barriers: (ereal|ereal)", "vertical_barrier: ereal",
              "min_close_time_sec: real", "side: " + ("A_int" if META else "none"), "min_ret: real"],
             cases=[{}] if META else [{"side": None}],
             requires=["forall(0, len(timestamps), lambda a: forall(a, len(timestamps), lambda b: timestamps[a] <= timestamps[b]))",
                       "forall(0, len(close), lambda b: close[b] > 0)", "forall(0, len(targets), lambda b: targets[b] > 0)",
                       "forall(0, len(event_idxs), lambda b: 0 <= event_idxs[b] and event_idxs[b] < len(timestamps))",
                       "isinf(horizontal_barriers[0]) or horizontal_barriers[0] >= 0", "isinf(horizontal_barriers[1]) or horizontal_barriers[1] >= 0"],
             raises=[("ValueError", "vertical_barrier <= 0 or min_ret < 0 or len(timestamps) != len(close) or len(event_idxs) != len(targets) or len(event_idxs) == 0"
                      + (" or len(event_idxs) != len(side)" if META else ""))],
             ensures=[f"len(result[{k}]) == len(event_idxs)" for k in range(4)] + [f"forall(0, len(event_idxs), lambda e: {x})" for x in CL],
             templates=[arrs(f"forall(0, $c, lambda e: {x})") for x in CL] + [
                 I_(f"forall({EV} + 1, $k, lambda j: not ({ELIG('j')} and {HIT('j')}))"),
                 I_(f"same($f, ite($k - 1 > {EV} and {ELIG('$k - 1')}, {RET('$k - 1')}, {RET('$u8')}))"),
                 I_(f"same($f, ite({UV}, {PU('$k')}, 0.0))"), I_(f"same($f, ite({LV}, {PL('$k')}, 0.0))"),
             ],
             gen=g_tbm(META))
