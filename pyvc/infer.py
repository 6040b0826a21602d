"""Loop-invariant inference: templates instantiated over whatever locals the current source has, filtered on traces,
then reduced to an inductive set by the prover (Houdini).  Names of locals never appear in a contract, so renaming or
reordering code does not invalidate the proof."""
import ast
import itertools
import re

import numpy as np

from . import trace
from .execsym import MaybeU, UNDEF
from .sym import *

HOLE = re.compile(r"\$([A-Za-z])(\d*)")


PFX = re.compile(r"^forall\(0, \((\w+) - 1\), (.*)$")
SFX = re.compile(r"^forall\(\((\w+) \+ 1\), (.*)$")
BND = re.compile(r"^(\w+) (<=|>=) (len\(\w+\))$")


class Infer:
    def __init__(self, contract, tracer, verbose=False):
        self.c = contract
        self.tr = tracer
        self.g = trace.spec_globals()
        self.cache = {}
        self.dead = {}
        self.verbose = verbose

    def note_dead(self, lid, sites, bad):
        lid = (lid, sites)
        self.dead.setdefault(lid, {})
        for b in bad:
            self.dead[lid][b] = self.dead[lid].get(b, 0) + 1

    # ------------------------------------------------------------------
    def classify(self, ex, head, entry, names, oids, node):
        ints, mints, fls, mfls, arrs, marrs, lists, bools = [], [], [], [], [], [], [], []

        def add(prefix, env, modified):
            for k, v in env.items():
                if k.startswith("$") or k.startswith("__"):
                    continue
                if v is UNDEF or isinstance(v, MaybeU):
                    continue
                nm = prefix + k
                if isinstance(v, FV):
                    fls.append(nm)
                    if modified and k in names:
                        mfls.append(nm)
                elif is_bool(v):
                    bools.append(nm)
                elif is_int(v):
                    ints.append(nm)
                    if modified and k in names:
                        mints.append(nm)
                elif isinstance(v, Ref) and v.whole():
                    a = head.heap[v.oid]
                    if a.nd == 1:
                        arrs.append(nm)
                        if v.oid in oids:
                            marrs.append(nm)
                        if a.is_list:
                            lists.append(nm)
        add("_L_", head.env, True)
        n = len(head.callers)
        for d in range(1, min(n, 3) + 1):
            add(f"_C{d}_", head.callers[n - d][1], False)
        # array cells used as accumulators: a[i] assigned in the loop with i not modified by it
        cells = []
        for x in ast.walk(node):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and isinstance(x.slice, ast.Name):
                a, i = x.value.id, x.slice.id
                if "_L_" + a in marrs and "_L_" + i in ints and i not in names:
                    t = f"_L_{a}[_L_{i}]"
                    if t not in cells:
                        cells.append(t)
        return dict(ints=ints, mints=mints, fls=fls, mfls=mfls, arrs=arrs, marrs=marrs, lists=lists, cells=cells, bools=bools)

    def candidates(self, ex, lid, node, head, entry, names, oids, ck):
        is_for = ck in head.env
        key = (lid, ex.sites)
        evs = self.tr.events.get(lid, []) if self.tr else []
        evs = [e for e in evs if e["$site"] == ex.sites] or evs
        cl = self.classify(ex, head, entry, names, oids, node)
        sig = (key, tuple(cl["ints"]), tuple(cl["mfls"]), tuple(cl["marrs"]), tuple(cl["mints"]), tuple(cl["cells"]))
        if sig in self.cache:
            c = self.cache[sig]
        else:
            c = self.generate(cl, is_for, evs, head, ex)
            c = self.filter(c, evs)
            self.cache[sig] = c
            if self.verbose:
                print(f"   loop {lid}: {len(c)} candidates after traces ({len(evs)} events)")
        dead = self.dead.get((lid, ex.sites), {})
        return [x for x in c if dead.get(x, 0) < (2 if head.callers else 1)] or c

    def generate(self, cl, is_for, evs, head, ex):
        out = []
        kk = (["_k"] if is_for else []) + cl["mints"]
        kexp = []
        for k in kk:
            kexp += [k, f"({k} + 1)", f"({k} - 1)"]
        scal = cl["mfls"] + cl["mints"] + cl["cells"]
        lens = [f"len({a})" for a in cl["arrs"]]
        # ---- generic
        for x in cl["mints"]:
            out += [f"{x} >= 0", f"{x} >= {x.replace('_L_', '_E_')}", f"{x} <= {x.replace('_L_', '_E_')}"]
            if is_for:
                out.append(f"{x} - {x.replace('_L_', '_E_')} == _k - _k0")
            for y in cl["ints"] + lens + (["_k"] if is_for else []):
                if y != x:
                    out += [f"{x} <= {y}", f"{x} >= {y}"] + ([f"{x} < {y}"] if y == "_k" else [])
        # constant offsets seen on the traces
        if evs:
            pool = cl["mints"] + [f"len({a})" for a in cl["lists"] if a in cl["marrs"]] + (["_k"] if is_for else [])
            rhs = pool + [i for i in cl["ints"] if i not in cl["mints"]] + [l for l in lens if l not in pool]
            for i, x in enumerate(pool):
                if x == "_k":
                    continue
                for y in rhs:
                    if y == x:
                        continue
                    d = self.offset(x, y, evs)
                    if d is not None:
                        out.append(f"{x} == {y} + {d}" if d >= 0 else f"{x} == {y} - {-d}")
        if is_for:
            for l in cl["lists"]:
                if l in cl["marrs"]:
                    out += [f"len({l}) <= _k + 1", f"len({l}) >= 1", f"len({l}) <= _k"]
        for l in cl["lists"]:
            if l in cl["marrs"]:
                e = l.replace("_L_", "_E_")
                out += [f"len({l}) >= len({e})", f"forall(0, len({e}), lambda b: same({l}[b], {e}[b]))"]
        for f in cl["mfls"] + cl["cells"]:
            out += [f"{f} >= 0", f"{f} <= 0", f"not isnan({f})"]
        for a in cl["marrs"]:
            e = a.replace("_L_", "_E_")
            if a in cl["lists"]:
                continue
            v = head.env.get(a[3:])
            same = "same" if isinstance(v, Ref) and head.heap[v.oid].et == "float" else "same"
            for k in kexp:
                out.append(f"forall({k}, len({a}), lambda b: same({a}[b], {e}[b]))")
                out.append(f"forall(0, {k}, lambda b: same({a}[b], {e}[b]))")
            for i in cl["ints"]:
                if i not in cl["mints"] and i.startswith("_L_"):
                    out.append(f"forall(0, len({a}), lambda b: implies(b != {i}, same({a}[b], {e}[b])))")
                    out.append(f"forall({i}, len({a}), lambda b: same({a}[b], {e}[b]))")
                    out.append(f"forall(0, {i}, lambda b: same({a}[b], {e}[b]))")
        # ---- contract templates
        pools = {"f": scal, "x": cl["mfls"] + [c for c in cl["cells"] if self.is_float_cell(c, head)], "n": cl["mints"], "i": cl["ints"] + (["_k"] if is_for else []), "k": kexp, "A": cl["marrs"], "B": cl["arrs"],
                 "L": [l for l in cl["lists"] if l in cl["marrs"]], "g": cl["fls"], "c": (["_k"] if is_for else []) + cl["mints"], "q": cl["bools"],
                 "u": [i for i in cl["ints"] if i not in cl["mints"]] + (["_k0"] if is_for else [])}
        for t in self.c.all_templates():
            holes = []
            for m in HOLE.finditer(t):
                if m.group(0) not in holes:
                    holes.append(m.group(0))
            ps = [pools.get(h[1], []) for h in holes]
            tot = 1
            for p in ps:
                tot *= len(p)
            if tot > 60000:
                raise Unsupported(f"template blow-up: {t}")
            for combo in itertools.product(*ps):
                s = t
                for h, v in sorted(zip(holes, combo), key=lambda z: -len(z[0])):
                    s = s.replace(h, v)
                out.append(s)
        seen = set()
        res = []
        for o in out:
            if o not in seen:
                seen.add(o)
                res.append(o)
        return res

    def is_float_cell(self, c, head):
        v = head.env.get(c[3:].split("[")[0])
        return isinstance(v, Ref) and head.heap[v.oid].et == "float"

    def vacuous(self, c, evs):
        """a bounded statement whose range is empty in every trace says nothing worth proving"""
        if not c.startswith("forall("):
            return False
        try:
            n = ast.parse(c, mode="eval").body
            lo, hi = ast.unparse(n.args[0]), ast.unparse(n.args[1])
        except SyntaxError:
            return False
        code = trace.compile_expr(f"({lo}) < ({hi})")
        for e in evs:
            gl = dict(self.g)
            gl.update(e)
            try:
                if eval(code, gl):
                    return False
            except Exception:
                return False
        return True

    def offset(self, x, y, evs):
        d = None
        for e in evs[:40]:
            try:
                v = trace.eval_expr(f"({x}) - ({y})", e, self.g)
            except Exception:
                return None
            if d is None:
                d = v
            elif d != v:
                return None
        try:
            return int(d) if d is not None and abs(int(d)) <= 4 and int(d) == d else None
        except (ValueError, OverflowError):
            return None

    def filter(self, cands, evs):
        if not evs:
            return cands if len(cands) < 400 else cands[:400]
        step = max(1, len(evs) // 60)
        first = evs[::step]
        out = []
        for c in cands:
            if self.holds(c, first):
                out.append(c)
        rest = evs[:600]
        return self.prune([c for c in out if self.holds(c, rest) and not self.vacuous(c, rest)], rest)

    def prune(self, cands, evs):
        """drop candidates another surviving candidate implies (k-prefix over (k-1)-prefix, k-suffix over (k+1)-suffix, equal bounds)"""
        have = set(cands)
        out = []
        seen = set()
        lens = {}
        for c in cands:
            m = PFX.match(c)
            if m and f"forall(0, {m.group(1)}, {m.group(2)}" in have:
                continue
            m = SFX.match(c)
            if m and f"forall({m.group(1)}, {m.group(2)}" in have:
                continue
            m = BND.match(c)
            if m:
                l = m.group(3)
                if l not in lens:
                    v = []
                    for e in evs[:60]:
                        try:
                            v.append(trace.eval_expr(l, e, self.g))
                        except Exception:
                            v.append(None)
                    lens[l] = tuple(v)
                k = (m.group(1), m.group(2), lens[l])
                if k in seen:
                    continue
                seen.add(k)
            out.append(c)
        return out

    def holds(self, c, evs):
        code = trace.compile_expr(c)
        for e in evs:
            gl = dict(self.g)
            gl.update(e)
            try:
                with np.errstate(all="ignore"):
                    if not eval(code, gl):
                        return False
            except Exception:
                return False
        return True
