"""Contract declarations (no solver needed here: the same declarations are proved and evaluated on the running code)."""

REGISTRY = {}


class Contract:
    def __init__(self, key, params, requires=(), ensures=(), raises=(), pointwise=(), templates=(), cases=None, gen=None,
                 modifies=(), result=None, lemmas=(), prelemmas=(), error_model=None, opts=None, modular=False, views=None, check=None, aux=None, note=""):
        self.key = key
        self.rel, self.func = key.split("#")[0].split(":")
        self.params = [(p.split(":")[0].strip(), p.split(":")[1].strip()) for p in params]
        self.pnames = [p for p, _ in self.params]
        self.requires, self.ensures, self.raises = list(requires), list(ensures), list(raises)
        self.pointwise = list(pointwise)     # (component or None, length expr, "b-expression", start expr)
        self.templates = list(templates)
        self.cases = cases or [{}]
        self.gen = gen
        self.modifies = set(modifies)
        self.result = result
        self.lemmas = list(lemmas)
        self.prelemmas = list(prelemmas)
        self.error_model = error_model
        self.opts = opts or {}
        self.modular = modular
        self.views = views or {}           # argument -> (array, offset): the argument is any window of any array, and the contract speaks about that array (offset None: a prefix of any array)
        self.note = note
        REGISTRY[key] = self

    def comp(self, k):
        return "result" if k is None else f"result[{k}]"

    def all_ensures(self):
        out = []
        for k, n, e, *lo in self.pointwise:
            r = self.comp(k)
            out.append(f"len({r}) == {n}")
            out.append(f"forall(0, {n}, lambda b: same({r}[b], {e}))")
        return out + self.ensures

    def all_templates(self):
        out = []
        for k, n, e, *lo in self.pointwise:
            out.append(f"forall(0, $k, lambda b: same($A[b], {e}))")
            if lo:
                out.append(f"forall(0, {n}, lambda b: implies(b < $k, same($A[b], {e})))")
        return out + self.templates

    def ghosts(self, env):
        """concretely every array is the window of itself that starts at 0"""
        out = dict(env)
        for a, (p, o) in self.views.items():
            out[p] = env[a]
            if o:
                out[o] = 0
        return out


class Lemma(Contract):
    """a statement over the contracts only (no code of its own): requires and prelemmas imply ensures"""

    def __init__(self, key, params, **kw):
        super().__init__(key if ":" in key else "lemma:" + key, params, **kw)


BOUNDED = {}


class Bounded:
    """a bounded stand-in: run(rng, budget_s, tier) yields (case id, ok, detail); never counted as proved"""

    def __init__(self, name, run, bound, covers):
        self.name, self.run, self.bound, self.covers = name, run, bound, covers
        BOUNDED[name] = self


def bounded(bound, covers):
    def deco(f):
        Bounded(f.__name__, f, bound, covers)
        return f
    return deco
