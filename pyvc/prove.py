"""Discharging an obligation: skolemise, instantiate, unfold spec functions, ask z3 (then cvc5)."""
import os
import shutil
import subprocess
import tempfile
import time

import z3

from . import specsym
from .sym import *

STATS = {"queries": 0, "time": 0.0, "stage1": 0, "stage2": 0, "cvc5": 0}
_NODES = {}
_SPECIAL = {"umul", "uimul", "uidiv", "uimod", "udiv", "usqrt", "uexp", "ulog", "urnd", "usin", "ucos"}
_EMPTY = frozenset()


class Node:
    """memoised structure of a hash-consed term: the interesting ground subterms, by id (quantifier bodies are opaque)"""
    __slots__ = ("e", "hv", "hq", "spec", "lib", "idx", "sk", "nl")


_MV = {}


def maxvar(e):
    """1 + the largest free de Bruijn index, 0 for a closed term"""
    k = e.get_id()
    r = _MV.get(k)
    if r is not None:
        return r[0]
    if z3.is_var(e):
        v = z3.get_var_index(e) + 1
    elif z3.is_quantifier(e):
        v = max(0, maxvar(e.body()) - e.num_vars())
    else:
        v = max([maxvar(c) for c in e.children()], default=0)
    _MV[k] = (v, e)
    return v


def node(e):
    n = _NODES.get(e.get_id())
    if n is not None:
        return n
    stack = [(e, None)]
    while stack:
        x, kids = stack.pop()
        k = x.get_id()
        if k in _NODES:
            continue
        if kids is None:
            if z3.is_var(x) or z3.is_quantifier(x):
                n = Node()
                n.e, n.hv, n.hq = x, True, z3.is_quantifier(x)
                if n.hq and x.is_lambda():
                    n.hv, n.hq = maxvar(x) > 0, False
                n.spec = n.lib = n.idx = n.sk = _EMPTY
                n.nl = n.hq and _quant_nl(x.body())
                _NODES[k] = n
                continue
            kids = x.children()
            stack.append((x, kids))
            for c in kids:
                if c.get_id() not in _NODES:
                    stack.append((c, None))
            continue
        ns = [_NODES[c.get_id()] for c in kids]
        n = Node()
        n.e = x
        n.hv = any(c.hv for c in ns)
        n.hq = any(c.hq for c in ns)
        n.nl = any(c.nl for c in ns)
        spec, lib, idx, sk = ([c.spec for c in ns if c.spec], [c.lib for c in ns if c.lib], [c.idx for c in ns if c.idx], [c.sk for c in ns if c.sk])
        d = x.decl()
        kind = d.kind()
        if kind == z3.Z3_OP_UNINTERPRETED:
            nm = d.name()
            if not kids:
                if nm.startswith("sk_") and x.sort() == I:
                    sk.append({k})
            else:
                if nm in specsym.DECLS:
                    if not n.hv:
                        spec.append({k})
                    i2 = {((nm, j), c.get_id()) for j, (c, cn) in enumerate(zip(kids, ns)) if not cn.hv and c.sort() == I}
                    if i2:
                        idx.append(i2)
                if nm in _SPECIAL or nm.startswith("ext_"):
                    if not n.hv:
                        lib.append({k})
                    if nm in ("umul", "udiv", "uimul", "uidiv", "uimod"):
                        n.nl = True
        elif kind == z3.Z3_OP_SELECT:
            rk = root_keys(kids[0])
            idx.append({(r, c.get_id()) for c, cn in zip(kids[1:], ns[1:]) if not cn.hv and c.sort() == I for r in rk})
        elif kind == z3.Z3_OP_STORE:
            rk = root_keys(kids[0])
            idx.append({(r, c.get_id()) for c, cn in zip(kids[1:-1], ns[1:-1]) if not cn.hv and c.sort() == I for r in rk})
        n.spec, n.lib, n.idx, n.sk = _u(spec), _u(lib), _u(idx), _u(sk)
        _NODES[k] = n
    return _NODES[e.get_id()]


def _quant_nl(e):
    if z3.is_app(e):
        if e.num_args() and e.decl().name() in ("umul", "udiv", "uimul", "uidiv", "uimod"):
            return True
        return any(_quant_nl(c) for c in e.children())
    return z3.is_quantifier(e) and _quant_nl(e.body())


def _u(sets):
    if not sets:
        return _EMPTY
    if len(sets) == 1:
        return frozenset(sets[0])
    big = max(sets, key=len)
    if isinstance(big, frozenset) and all(s is big or s <= big for s in sets):
        return big
    return frozenset().union(*sets)


def has_var(e):
    return node(e).hv


def union(fs, attr):
    out = set()
    for f in fs:
        s = getattr(node(f), attr)
        if s:
            out |= s
    return sorted(out)


_SK = [0]


def split_goal(hyps, g, depth=0):
    """skolemise / split a goal into [(hyps, goal)]"""
    if isinstance(g, bool):
        return [] if g else [(hyps, z3.BoolVal(False))]
    if z3.is_and(g) and depth < 12:
        out = []
        for c in g.children():
            out += split_goal(hyps, c, depth + 1)
        return out
    if z3.is_implies(g):
        return split_goal(hyps + [g.arg(0)], g.arg(1), depth + 1)
    if z3.is_quantifier(g) and g.is_forall():
        vs = []
        for i in range(g.num_vars()):       # names reused between queries (never free in a hypothesis), so instances are shared
            vs.append(z3.Const(f"sk_{_SK[0]}", g.var_sort(i)))
            _SK[0] += 1
        return split_goal(hyps, z3.substitute_vars(g.body(), *reversed(vs)), depth + 1)
    if z3.is_or(g):
        cs = g.children()
        if any(z3.is_quantifier(c) or z3.is_implies(c) for c in cs):
            # prove the quantified disjunct under the negation of the others
            q = next(c for c in cs if z3.is_quantifier(c) or z3.is_implies(c))
            return split_goal(hyps + [z3.Not(c) for c in cs if not c.eq(q)], q, depth + 1)
    if z3.is_not(g) and z3.is_implies(g.arg(0)):
        return [(hyps, g)]
    return [(hyps, g)]


def _is_sk(e):
    return z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith("sk_")


def _reads(a, j, out):
    """store indices a read of a at j may meet"""
    while True:
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            out.append(a.arg(1))
            a = a.arg(0)
        elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            _reads(a.arg(1), j, out)
            a = a.arg(2)
        else:
            return


def _store_reads(e, out, seen):
    k = e.get_id()
    if k in seen or z3.is_quantifier(e):
        return
    seen.add(k)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SELECT and e.num_args() == 2 and _is_sk(e.arg(1)):
        ixs = []
        _reads(e.arg(0), e.arg(1), ixs)
        out += [(e.arg(1), i) for i in ixs]
    for c in e.children():
        _store_reads(c, out, seen)


def _reduce(e, neq, memo):
    """reads over stores resolved (neq: ids of index pairs known to differ)"""
    k = e.get_id()
    if k in memo:
        return memo[k][1]
    if not z3.is_app(e) or e.num_args() == 0:
        r = e
    else:
        ch = [_reduce(c, neq, memo) for c in e.children()]
        if e.decl().kind() == z3.Z3_OP_SELECT and len(ch) == 2:
            r = _read(ch[0], ch[1], neq)
        elif all(x.eq(y) for x, y in zip(ch, e.children())):
            r = e
        else:
            r = z3.And(*ch) if z3.is_and(e) else z3.Or(*ch) if z3.is_or(e) else e.decl()(*ch)
    memo[k] = (e, r)
    return r


def _read(a, j, neq):
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        i = a.arg(1)
        if i.eq(j):
            return a.arg(2)
        if (i.get_id(), j.get_id()) in neq:
            return _read(a.arg(0), j, neq)
        d = z3.simplify(i - j)
        if z3.is_int_value(d):
            return a.arg(2) if d.as_long() == 0 else _read(a.arg(0), j, neq)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(a.arg(0), _read(a.arg(1), j, neq), _read(a.arg(2), j, neq))
    return sel(a, j)


def store_cases(n0, hs, g):
    """a goal about a stored array read at a goal constant: one goal where the constant is the stored index, one where not"""
    prs = []
    _store_reads(g, prs, set())
    prs = {(sk.get_id(), i.get_id()): (sk, i) for sk, i in prs if not any(_is_sk(x) for x in _consts(i))}
    if len(prs) != 1:
        return [(hs, g)]
    sk, i = next(iter(prs.values()))
    sub = lambda e: z3.substitute(e, (sk, i))
    same = hs[:n0] + [_reduce(sub(h), (), {}) for h in hs[n0:]]
    neq = {(i.get_id(), sk.get_id())}
    diff = hs[:n0] + [_reduce(h, neq, {}) for h in hs[n0:]] + [sk != i]
    return [(same, _reduce(sub(g), (), {})), (diff, _reduce(g, neq, {}))]


def _consts(e, out=None, seen=None):
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if e.get_id() not in seen:
        seen.add(e.get_id())
        if z3.is_const(e):
            out.append(e)
        for c in e.children():
            _consts(c, out, seen)
    return out


def quants(e, out, seen, pol=True):
    """positive universal quantifiers inside the boolean structure of e"""
    k = (e.get_id(), pol)
    if k in seen:
        return
    seen.add(k)
    if z3.is_quantifier(e):
        if (e.is_forall() and pol) or (e.is_exists() and not pol):
            out.append(e)
        return
    if z3.is_and(e) or z3.is_or(e):
        for c in e.children():
            quants(c, out, seen, pol)
    elif z3.is_not(e):
        quants(e.arg(0), out, seen, not pol)
    elif z3.is_implies(e):
        quants(e.arg(0), out, seen, not pol)
        quants(e.arg(1), out, seen, pol)
    elif z3.is_app_of(e, z3.Z3_OP_ITE) and e.sort() == B:
        quants(e.arg(1), out, seen, pol)
        quants(e.arg(2), out, seen, pol)


def instantiate(e, q, t):
    """replace quantifier q inside e by its instance at t (sound for positive occurrences)"""
    if q.num_vars() != 1:
        return None
    inst = z3.substitute_vars(q.body(), t)
    if e.eq(q):
        return inst
    return z3.substitute(e, (q, inst))


def roots(a, out=None):
    """ids of the array constants a store/ite chain is built on"""
    out = set() if out is None else out
    st = [a]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_store(x):
            st.append(x.arg(0))
        elif z3.is_app_of(x, z3.Z3_OP_ITE):
            st += [x.arg(1), x.arg(2)]
        else:
            out.add(x.get_id())
    return out


_ROOT = {}


def root_keys(a):
    k = a.get_id()
    if k not in _ROOT:
        _ROOT[k] = (a, frozenset(roots(a)))
    return _ROOT[k][1]


_PAT = {}


def patterns(q):
    """[(key, offset)]: where the bound variable of q occurs as an index: key is an array root or a spec function (with position)"""
    k = q.get_id()
    if k in _PAT:
        return _PAT[k][1]
    out = set()
    seen = set()
    st = [(q.body(), 0)]
    nested = False

    def offset(x, d):
        if z3.is_var(x):
            return 0 if z3.get_var_index(x) == d else None
        if z3.is_add(x) and x.num_args() == 2:
            p, r = x.children()
            if z3.is_int_value(p):
                p, r = r, p
            if z3.is_var(p) and z3.get_var_index(p) == d and z3.is_int_value(r):
                return r.as_long()
        if z3.is_sub(x) and x.num_args() == 2:
            p, r = x.children()
            if z3.is_var(p) and z3.get_var_index(p) == d and z3.is_int_value(r):
                return -r.as_long()
        return None

    def keyed(key, x, d):
        o = offset(x, d)
        if o is not None:
            out.add((key, o))
        elif node(x).hv:
            out.add((key, None))
    while st:
        x, d = st.pop()
        if (x.get_id(), d) in seen:
            continue
        seen.add((x.get_id(), d))
        if z3.is_quantifier(x):
            st.append((x.body(), d + x.num_vars()))
            continue
        if z3.is_select(x):
            for r in root_keys(x.arg(0)):
                keyed(r, x.arg(1), d)
        elif z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in specsym.DECLS:
            for j, c in enumerate(x.children()):
                if c.sort() == I:
                    keyed((x.decl().name(), j), c, d)
        if z3.is_app(x):
            st += [(c, d) for c in x.children()]
    _PAT[k] = (q, out)
    return out


def index_keys(exprs):
    """[(key, index term)] of the ground index positions"""
    ids = []
    seen = set()
    for e in exprs:
        for p in node(e).idx:
            if p not in seen:
                seen.add(p)
                ids.append(p)
    return ids


def sk_terms(exprs):
    return [_NODES[k].e for k in union(exprs, "sk")]


_QUANTS = {}


def quants_of(h):
    k = h.get_id()
    if k not in _QUANTS:
        o = []
        quants(h, o, set())
        _QUANTS[k] = (h, o)
    return _QUANTS[k][1]


_INST = {}
_UNF = {}


class Facts:
    def __init__(self):
        self.list = []
        self.ids = set()

    def add(self, e):
        if isinstance(e, bool):
            e = z3.BoolVal(e)
        if e.get_id() in self.ids:
            return False
        self.ids.add(e.get_id())
        self.list.append(e)
        return True


_FP = {}


def fingerprint(t):
    """operators inside the derived arrays a fold reads (constants and indices left out)"""
    k = t.get_id()
    if k not in _FP:
        out = set()
        st = [a.body() for a in t.children() if z3.is_quantifier(a)]
        while st:
            x = st.pop()
            if z3.is_app(x):
                if x.num_args() and maxvar(x) and x.sort() != I and not (z3.is_and(x) or z3.is_or(x) or z3.is_not(x)):
                    out.add(x.decl().name())
                st += x.children()
        _FP[k] = (frozenset(out), t)
    return _FP[k][0]


def fold_congruence(ts, lam, qs, extra, gs):
    """folds over [lo, hi) agree when the cells they read agree (one of the two reads a derived array)"""
    n = 0
    ls = {t.get_id() for t in lam}
    pairs = [(ts[i], ts[j]) for i in range(len(ts)) for j in range(i) if ts[i].get_id() in ls or ts[j].get_id() in ls]
    def both(p):
        return p[0].get_id() in ls and p[1].get_id() in ls
    pairs = [p for p in pairs if not both(p) or fingerprint(p[0]) <= fingerprint(p[1]) or fingerprint(p[1]) <= fingerprint(p[0])]
    bnd = lambda p: sum(p[0].arg(p[0].num_args() - q).eq(p[1].arg(p[1].num_args() - q)) for q in (1, 2))
    pairs = [p for p in pairs if p[0].num_args() == p[1].num_args()]
    pairs.sort(key=lambda p: 2 * (p[0].get_id() in gs) + 2 * (p[1].get_id() in gs) + both(p) + bnd(p), reverse=True)
    if DEBUG == "3":
        print("FOLDS", len(ts), len(lam), len(pairs))
    for s, t in pairs:
        if True:
            m = s.num_args()
            if n > 24 or all(s.arg(q).eq(t.arg(q)) for q in range(m - 2) if s.arg(q).sort().kind() == z3.Z3_ARRAY_SORT):
                continue
            n += 1
            sk = z3.Int(f"ext_{s.get_id()}_{t.get_id()}")
            alo, ahi, blo, bhi = s.arg(m - 2), s.arg(m - 1), t.arg(m - 2), t.arg(m - 1)
            rest, eqs, rk = [], [], set()
            ia, ib = z3.simplify(alo + sk), z3.simplify(blo + sk)
            for q in range(m - 2):
                a, b = s.arg(q), t.arg(q)
                if a.sort().kind() == z3.Z3_ARRAY_SORT:
                    eqs.append(sel(a, ia) == sel(b, ib))
                    rk |= root_keys(a) | root_keys(b)
                else:
                    rest.append(a == b)
            ne = specsym.DECLS[s.decl().name()][0].sf.fold == 2
            extra.append(z3.Implies(z3.And(z3.And(ahi - alo == bhi - blo, ahi > alo) if ne else z3.Or(ahi - alo == bhi - blo, z3.And(ahi <= alo, bhi <= blo)), *rest, z3.Implies(z3.And(0 <= sk, sk < ahi - alo), z3.And(*eqs))), s == t))
            for e in eqs:
                for key, tid in index_keys([e]):
                    rk.add(key)
            witness_instances(eqs, rk, (ia, ib), qs, extra)


def witness_instances(eqs, rk, ats, qs, extra):
    byk = {}
    for key, tid in index_keys(eqs):
        byk.setdefault(key, []).append(_NODES[tid].e)
    for h, q in qs:
        ixs = {}
        for key, o in patterns(q):
            if o is None:
                continue
            for x in byk.get(key, ()):
                ix = z3.simplify(x - o)
                ixs[ix.get_id()] = ix
            if key in rk and key not in byk:
                for x in ats:
                    ix = z3.simplify(x - o)
                    ixs[ix.get_id()] = ix
        for ix in ixs.values():
            e = instantiate(h, q, ix)
            if e is not None:
                extra.append(e)


def squares(c):
    if not z3.is_app(c):
        return []
    if c.decl().kind() == z3.Z3_OP_ITE:
        return squares(c.arg(1)) + squares(c.arg(2))
    return [c] if c.decl().name() == "umul" and c.arg(0).eq(c.arg(1)) else []


def sum_bounds(ts, qs, extra):
    """a sum of cells all >= 0 (> 0, <= 1) is >= 0 (> 0 when nonempty, <= number of cells)"""
    for t in ts[:8]:
        a, lo, hi = t.arg(0), t.arg(1), t.arg(2)
        ws, cells = [], []
        for nm in ("ge", "gt", "le"):
            sk = z3.Int(f"ext_{nm}_{t.get_id()}")
            ws.append(z3.And(0 <= sk, sk < hi - lo))
            cells.append(sel(a, z3.simplify(lo + sk)))
        for c in cells:
            for u in squares(c):
                extra.append(u >= 0)
        n = z3.ToReal(hi - lo) if t.sort() == R else hi - lo
        extra.append(z3.Implies(z3.Implies(ws[0], cells[0] >= 0), t >= 0))
        extra.append(z3.Implies(z3.And(hi > lo, z3.Implies(ws[1], cells[1] > 0)), t > 0))
        extra.append(z3.Implies(z3.And(hi >= lo, z3.Implies(ws[2], cells[2] <= 1)), t <= n))
        for nm, c in zip(("ge", "gt", "le"), cells):
            sk = z3.Int(f"ext_{nm}_{t.get_id()}")
            witness_instances([c == 0], set(root_keys(a)), (lo + sk,), qs, extra)


_STO = {}


def store_rule(t):
    """a fold over [lo, hi) does not see a store outside of [lo, hi)"""
    for a in t.children():
        if a.sort().kind() == z3.Z3_ARRAY_SORT and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            c = a.arg(0)        # a merged array: one case per branch
            pick = lambda n: [x.arg(n) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and x.arg(0).eq(c) else x for x in t.children()]
            return z3.And(z3.Implies(c, t == t.decl()(*pick(1))), z3.Implies(z3.Not(c), t == t.decl()(*pick(2))))
    if not specsym.DECLS[t.decl().name()][0].sf.fold:
        return False
    if t.decl().name() in ("asum.v", "isum.v") and z3.is_K(t.arg(0)) and z3.is_rational_value(t.arg(0).arg(0)) and t.arg(0).arg(0).as_fraction() == 0:
        return t == 0
    m = t.num_args()
    lo, hi = t.arg(m - 2), t.arg(m - 1)
    args, conds = [], []
    for a in t.children():
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            conds.append(z3.Or(a.arg(1) >= hi, a.arg(1) < lo))
            a = a.arg(0)
        args.append(a)
    if not conds:
        return False
    ne = specsym.DECLS[t.decl().name()][0].sf.fold == 2
    r = z3.Implies(z3.And(*conds, *([lo < hi] if ne else [])), t == t.decl()(*args))
    if t.decl().name() in ("asum.v", "isum.v"):        # and a sum grows by what a store inside of the range adds
        a = t.arg(0)
        i, b = a.arg(1), a.arg(0)
        r = z3.And(r, z3.Implies(z3.And(lo <= i, i < hi), t == t.decl()(b, lo, hi) + a.arg(2) - sel(b, i)))
    return r


def expand(hyps, ngoal, levels, inst_rounds, cap_unfold=160, cap_inst=500, wide=False, ext=True, gside=()):
    F = Facts()
    for h in hyps:
        F.add(h)
    F.add(ngoal)
    # 1. quantifier instances
    qs = []
    for h in hyps:
        if node(h).hq:
            for q in quants_of(h):
                qs.append((h, q))
    unfolded = set()
    ninst = 0
    done_inst = set()
    goal_side = [ngoal, *gside]
    ground = [h for h in hyps if not node(h).hq] if wide else ()
    def unfold_level(roots, fuel):
        new = []
        for k in union(roots, "spec"):
            if k in unfolded or len(unfolded) > cap_unfold:
                continue
            unfolded.add(k)
            eq = _UNF.get(k)
            if eq is None:
                eq = _UNF[k] = specsym.unfold(_NODES[k].e)
            if F.add(eq):
                new.append(eq)
            eq = _STO.get(k)
            if eq is None:
                eq = _STO[k] = store_rule(_NODES[k].e)
            if eq is not False and F.add(eq):
                new.append(eq)
        return new

    frontier = unfold_level(goal_side, 1)
    goal_side = goal_side + frontier
    qids = {q.get_id() for _, q in qs}
    root, perq = {}, {}
    extra_round = False
    for rnd in range(inst_rounds):
        byk = {}
        alln = {}
        for key, tid in index_keys(goal_side):
            byk.setdefault(key, []).append(tid)
            alln[tid] = 1
        if wide == 1:
            for key, tid in index_keys(ground):
                if tid not in byk.setdefault(key, []):
                    byk[key].append(tid)
        sks = sk_terms(goal_side)
        allt = sks + [_NODES[t].e for t in alln]
        new = []
        nq = []
        for h, q in qs:
            if wide == 2:
                terms = allt[:24]
            else:
                terms = {}
                for key, off in patterns(q):
                    if off is None:
                        for t in sks:
                            terms[t.get_id()] = t
                        continue
                    for tid in byk.get(key, ())[:24]:
                        t = _NODES[tid].e
                        if off:
                            t = z3.simplify(t - off)
                        terms[t.get_id()] = t
                terms = terms.values()
            fam = root.get(q.get_id(), q.get_id())
            for t in terms:
                node(t)
                k = (q.get_id(), h.get_id(), t.get_id())
                if k in done_inst or ninst > cap_inst or (wide < 2 and perq.get((fam, rnd), 0) > 60):
                    continue
                perq[fam, rnd] = perq.get((fam, rnd), 0) + 1
                done_inst.add(k)
                if k in _INST:
                    e = _INST[k]
                else:
                    e = _INST[k] = instantiate(h, q, t)
                if e is not None and F.add(e):
                    ninst += 1
                    new.append(e)
                    if node(e).hq and len(qs) < 300:
                        for q2 in quants_of(e):
                            if q2.get_id() not in qids:
                                qids.add(q2.get_id())
                                root[q2.get_id()] = fam
                                nq.append((e, q2))
        qs = qs + nq
        if nq and rnd + 1 == inst_rounds and not extra_round:
            extra_round = True
            for h, q in nq:
                for key, off in patterns(q):
                    if off is None:
                        continue
                    for key2, tid in index_keys(goal_side):
                        if key2 != key:
                            continue
                        t = _NODES[tid].e
                        if off:
                            t = z3.simplify(t - off)
                        e = instantiate(h, q, t)
                        if e is not None and ninst < cap_inst and F.add(e):
                            ninst += 1
                            new.append(e)
        if not new:
            break
        if rnd + 1 < inst_rounds:
            goal_side = goal_side + new
    # 2. unfold
    roots = list(F.list)
    before = union(F.list, "spec")
    for lv in range(levels):
        new = unfold_level(roots, lv)
        if not new:
            break
        roots = new
    # 3. commutativity, extensionality, library facts
    exts = {}
    extra = []
    imuls = []
    if ext:
        folds = {}
        for tid in before:
            t = _NODES[tid].e
            sp, _ = specsym.DECLS[t.decl().name()]
            if sp.sf.fold:
                folds.setdefault(t.decl().name(), []).append(t)
        for ts in folds.values():
            lam = [t for t in ts if any(z3.is_quantifier(a) for a in t.children())]
            if lam:
                fold_congruence(ts, lam, qs, extra, set(union([ngoal], "spec")))
    for tid in union(F.list, "spec"):
        t = _NODES[tid].e
        if t.decl().name() in ("bcount.v", "ncount.v"):      # a count over [lo, hi) lies in [0, hi - lo]
            lo, hi = t.arg(t.num_args() - 2), t.arg(t.num_args() - 1)
            extra.append(z3.And(t >= 0, z3.Implies(hi >= lo, t <= hi - lo)))
    if ext:
        gs = set(union([ngoal, *gside], "spec"))
        sums = [_NODES[k].e for k in before if _NODES[k].e.decl().name() in ("asum.v", "isum.v")]
        sums.sort(key=lambda t: t.get_id() in gs, reverse=True)
        sum_bounds(sums, qs, extra)
    for tid in union(F.list, "lib"):
        t = _NODES[tid].e
        nm = t.decl().name()
        if nm == "umul":
            if not t.arg(0).eq(t.arg(1)):
                extra.append(t == umul(t.arg(1), t.arg(0)))
                extra.append(z3.Implies(z3.And(t.arg(0) >= 0, t.arg(1) >= 0), t >= 0))
            else:
                extra.append(z3.And(t >= 0, (t == 0) == (t.arg(0) == 0)))
        elif nm == "uimul":
            x, y = t.arg(0), t.arg(1)
            nf = imul(x, y)
            if is_int(nf) and not (z3.is_expr(nf) and nf.eq(t)):
                extra.append(t == nf)
            for u, w in ((x, y), (y, x)):
                if z3.is_app_of(w, z3.Z3_OP_ITE) and not z3.is_app_of(w.arg(1), z3.Z3_OP_ITE) and not z3.is_app_of(w.arg(2), z3.Z3_OP_ITE):
                    extra.append(t == z3.If(w.arg(0), zi(imul(u, w.arg(1))), zi(imul(u, w.arg(2)))))
            imuls.append(t)
        elif nm == "urnd":
            x = t.arg(0)
            h = z3.RealVal("1/2")
            r = z3.ToReal(t)
            extra.append(z3.And(r - x <= h, x - r <= h, z3.Implies(z3.Or(r - x == h, x - r == h), t % 2 == 0)))
        elif nm in ("uidiv", "uimod"):
            a, b = t.arg(0), t.arg(1)
            q, r = uidiv(a, b), uimod(a, b)
            extra.append(z3.Implies(b > 0, z3.And(0 <= uimod(a, b), uimod(a, b) < b, a == zi(imul(b, q)) + r)))
        elif nm == "udiv":
            a, b = t.arg(0), t.arg(1)
            extra.append(z3.Implies(b > 0, z3.And((a > 0) == (t > 0), (a == 0) == (t == 0))))
        elif nm == "usqrt":
            extra.append(z3.Implies(t.arg(0) >= 0, z3.And(t >= 0, umul(t, t) == t.arg(0))))
        elif nm == "uexp":
            extra.append(t > 0)
            extra.append(z3.Implies(t.arg(0) <= 0, t <= 1))
            extra.append(z3.Implies(t.arg(0) < 0, t < 1))
            extra.append(z3.Implies(t.arg(0) == 0, t == 1))
        elif nm in ("usin", "ucos"):
            sn, cs = usin(t.arg(0)), ucos(t.arg(0))
            extra.append(z3.And(-1 <= sn, sn <= 1, -1 <= cs, cs <= 1, umul(sn, sn) + umul(cs, cs) == 1))
        elif nm == "ulog":
            a = t.arg(0)
            extra.append(z3.Implies(a > 1, t > 0))
            extra.append(z3.Implies(a == 1, t == 0))
            extra.append(z3.Implies(z3.And(a > 0, a < 1), t < 0))
            if z3.is_app(a) and a.decl().name() == "udiv":
                p, q = a.arg(0), a.arg(1)
                extra.append(z3.Implies(z3.And(p > 0, q > 0), t == ulog(p) - ulog(q)))
        elif nm.startswith("ext_"):
            exts.setdefault(nm, []).append(t)
    for i, s in enumerate(imuls[:8]):
        for t in imuls[:i]:
            for p, x in ((s.arg(0), s.arg(1)), (s.arg(1), s.arg(0))):
                for q, y in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                    if p.eq(q):
                        extra.append(z3.Implies(p > 0, (s <= t) == (x <= y)))
                        extra.append(z3.Implies(p > 0, z3.And(z3.Implies(x < y, s + p <= t), z3.Implies(y < x, t + p <= s))))
    glib = set(union([ngoal, *gside], "lib"))
    for nm, ts in exts.items() if ext else ():
        ts.sort(key=lambda t: t.get_id() in glib, reverse=True)
        for i in range(min(len(ts), 24)):
            for j in range(min(i, 3 if i >= 12 else i)):
                s, t = ts[i], ts[j]
                sk = z3.Int(f"ext_{s.get_id()}_{t.get_id()}")
                a, alo, ahi = s.arg(0), s.arg(1), s.arg(2)
                b, blo, bhi = t.arg(0), t.arg(1), t.arg(2)
                rest = [s.arg(m) == t.arg(m) for m in range(3, s.num_args())]
                pre = z3.And(ahi - alo == bhi - blo, *rest,
                             z3.Implies(z3.And(0 <= sk, sk < ahi - alo), sel(a, alo + sk) == sel(b, blo + sk)))
                ax = z3.Implies(pre, s == t)
                extra.append(ax)
                # instances for the witness
                rk = root_keys(a) | root_keys(b)
                for h, q in qs:
                    offs = {o for key, o in patterns(q) if key in rk and o is not None}
                    ixs = {}
                    for o in offs:
                        for ix in (alo + sk, blo + sk):
                            ix = z3.simplify(ix - o)
                            ixs[ix.get_id()] = ix
                    for ix in ixs.values():
                        e = instantiate(h, q, ix)
                        if e is not None:
                            extra.append(e)
    for e in extra:
        F.add(e)
    return F.list


def _real_funs(fs):
    x, y = z3.Var(0, R), z3.Var(1, R)
    i, j = z3.Var(0, I), z3.Var(1, I)
    return [z3.substitute_funs(f, (umul, x * y), (udiv, x / y), (uimul, i * j)) for f in fs]


def _check(fs, timeout, mbqi=False, strip=False):
    s = z3.Solver()
    s.set("timeout", int(timeout))
    s.set("smt.mbqi", mbqi)
    for f in fs:
        if strip and has_quant(f):
            continue
        s.add(abstract(f))
    r = s.check()
    return r, s


_LAM = {}
_ABS = {}


def lambdas(e):
    k = e.get_id()
    if k in _LAM:
        return _LAM[k][1]
    out = {}
    if z3.is_quantifier(e):
        if e.is_lambda() and maxvar(e) == 0:
            out = {k: e}
    else:
        for c in e.children():
            out.update(lambdas(c))
    _LAM[k] = (e, out)
    return out


def abstract(e):
    """closed lambda terms become constants (every read of them has been beta-reduced before)"""
    k = e.get_id()
    r = _ABS.get(k)
    if r is None:
        ls = lambdas(e)
        r = (z3.substitute(e, *[(l, z3.Const(f"lam!{i}", l.sort())) for i, l in ls.items()]) if ls else e, e)
        _ABS[k] = r
    return r[0]


def has_quant(e):
    return node(e).hq


def cvc5_check(fs, timeout):
    exe = shutil.which("cvc5")
    if not exe:
        return "unknown"
    s = z3.Solver()
    for f in fs:
        s.add(f)
    txt = s.to_smt2()
    txt = "(set-logic ALL)\n" + txt
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(txt)
        o = subprocess.run([exe, "--lang=smt2", f"--tlimit={int(timeout)}", p], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        return o.stdout.split("\n")[0].strip()
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(p)


DEBUG = os.environ.get("PYVC_DEBUG")


def prove_one(hs, g, timeout, quick, want_model, gside=()):
    ng = z3.Not(g)
    last = None
    t0 = time.time()
    for lv in (0, 1, 2, 3):
        if quick and time.time() - t0 > QUICK_BUDGET * SLOW:
            break
        fs = expand(hs, ng, levels=2 if lv else 1, inst_rounds=2 if lv else 1, wide=lv - 1 if lv > 1 else 0, ext=lv > 0, gside=gside)
        if lv and {f.get_id() for f in fs} == last:
            continue
        last = {f.get_id() for f in fs}
        # quantifier-free first: all quantified hypotheses replaced by their instances
        r, s = _check(fs, SLOW * min(timeout, 2000 if not quick else 1200), strip=True)
        if r == z3.unsat:
            STATS["stage1"] += 1
            return True, "z3", None
        if os.environ.get("PYVC_MODEL"):
            print("LEVEL", lv, r, str(g)[:60].replace("\n", " "))
            if r == z3.sat:
                m = s.model()
                for k in list(union(fs, "spec")) + list(union(fs, "lib")):
                    print("   MODEL", " ".join(str(_NODES[k].e).split())[:250], "=", m.eval(abstract(_NODES[k].e)))
                for d in m.decls():
                    if d.arity() == 0 and not "nl" in d.name(): print("   CONST", d.name(), str(m[d])[:80].replace("\n", " "))
        if needs_nl(fs):
            rf = _real_funs(fs)
            r, s = _check(rf, SLOW * (timeout if not quick else min(timeout, 1200)), strip=True)
            if r == z3.unsat:
                STATS["stage2"] += 1
                return True, "z3-nl", None
        else:
            rf = None
        STATS[f"lv{lv}"] = STATS.get(f"lv{lv}", 0) + 1
    if quick:
        if DEBUG == "3":
            print("QUICK FAIL", r, str(z3.simplify(g))[:1500])
        return False, str(r), (s.model() if want_model and r == z3.sat else None)
    if any(has_quant(f) for f in fs):
        r2, s2 = _check(fs, timeout)
        if r2 == z3.unsat:
            STATS["stage1"] += 1
            return True, "z3", None
    m = s.model() if r == z3.sat else None
    rr = cvc5_check([f for f in (rf or fs) if not has_quant(f)], min(timeout, 8000))
    if rr == "unsat":
        STATS["cvc5"] += 1
        return True, "cvc5", None
    if DEBUG:
        print("FAILED GOAL:", str(g)[:600])
        if DEBUG == "2":
            for h in hs:
                print("   HYP", h)
    return False, str(r), m


_FLAT = {}


def _flat(h):
    """conjuncts of a quantified hypothesis, also below an implication (an instance of one must not keep the others' quantifiers)"""
    k = h.get_id()
    if k not in _FLAT:
        out = [h]
        if node(h).hq:
            if z3.is_and(h):
                out = [y for c in h.children() for y in _flat(c)]
            elif z3.is_implies(h):
                cs = _flat(h.arg(1))
                if len(cs) > 1:
                    out = [z3.Implies(h.arg(0), c) for c in cs]
        _FLAT[k] = (h, out)
    return _FLAT[k][1]


def flatten(hyps):
    return [y for h in hyps for y in _flat(h)]


def prove(hyps, goal, timeout=4000, quick=False, want_model=False):
    """returns (proved: bool, backend or reason, model or None)"""
    t0 = time.time()
    STATS["queries"] += 1
    try:
        hyps = [h for h in hyps if not isinstance(h, bool) or h is False]
        hyps = [zb(h) if isinstance(h, bool) else h for h in hyps]
        backend = "trivial"
        _SK[0] = 0
        hyps = flatten(hyps)
        for hs, g in split_goal(hyps, goal):
            ok, why, m = prove_one(hs, g, timeout, quick, want_model, hs[len(hyps):])
            if not ok:
                cs = store_cases(len(hyps), hs, g)
                if len(cs) == 2:
                    rs = []
                    for h2, g2 in cs:
                        rs.append(prove_one(h2, g2, timeout, quick, False, h2[len(hyps):]))
                        if not rs[-1][0]:
                            break
                    if all(x[0] for x in rs):
                        ok, why = True, rs[0][1]
            if not ok:
                return False, why, m
            backend = why
        return True, backend, None
    finally:
        STATS["time"] += time.time() - t0


def needs_nl(fs):
    return any(node(f).nl for f in fs)


def satisfiable(hyps, timeout=3000):
    hyps = [h for h in hyps if not isinstance(h, bool) or h is False]
    hyps = [zb(h) if isinstance(h, bool) else h for h in hyps]
    fs = expand(hyps, z3.BoolVal(True), levels=1, inst_rounds=1)
    r, s = _check(fs, timeout, strip=True)
    return str(r)


def prove_many(items, timeout=4000, quick=False):
    """[(proved, backend or reason, seconds)] for [(hyps, goal)], spread over forked workers when that pays"""
    import pickle
    out = [None] * len(items)
    t0 = time.time()
    i = 0

    def one(k):
        t = time.time()
        ok, be, _ = prove(items[k][0], items[k][1], timeout=timeout, quick=quick)
        out[k] = (ok, be, time.time() - t)
    while i < len(items) and (i < 2 or time.time() - t0 < 0.25):
        one(i)
        i += 1
    rest = list(range(i, len(items)))
    if len(rest) < 3 or JOBS < 2:
        for k in rest:
            one(k)
        return out
    n = min(JOBS, len(rest))
    pids = []
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                q0 = STATS["queries"]
                res = []
                for k in rest[w::n]:
                    one(k)
                    res.append((k, out[k]))
                with os.fdopen(wr, "wb") as f:
                    f.write(pickle.dumps(res))
            finally:
                os._exit(0)
        os.close(wr)
        pids.append((pid, r))
    for pid, r in pids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if data:
            for k, v in pickle.loads(data):
                out[k] = v
                STATS["queries"] += 1
                STATS["time"] += v[2]
    for k in rest:
        if out[k] is None:          # a worker died: decide it here
            one(k)
    return out


QUICK_BUDGET = 6.0
SLOW = int(os.environ.get("PYVC_SLOW") or 1)      # a second attempt at a failed proof gets more solver time
JOBS = int(os.environ.get("PYVC_JOBS") or min(8, len(os.sched_getaffinity(0))))
