"""Mechanical extraction of functions from /repo's current source.

What the extraction drops (and nothing else): decorators, docstrings, type annotations, print() and logger calls.
"""
import ast
import os

REPO = os.environ.get("FMK_REPO", "/repo")
_cache = {}


class Module:
    def __init__(self, rel):
        self.rel = rel
        self.path = os.path.join(REPO, rel)
        with open(self.path) as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.funcs = {}
        self.classes = {}
        self.consts = {}
        self.imports = {}     # local name -> ("mod", dotted) or ("from", dotted, name)
        for n in self.tree.body:
            self._top(n)

    def _top(self, n):
        if isinstance(n, ast.FunctionDef):
            self.funcs[n.name] = n
        elif isinstance(n, ast.ClassDef):
            self.classes[n.name] = n
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    self.funcs[f"{n.name}.{m.name}"] = m
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            self.consts[n.targets[0].id] = n.value
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            self.consts[n.target.id] = n.value
        elif isinstance(n, ast.Import):
            for a in n.names:
                self.imports[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ""
            if n.level:
                pkg = self.rel[:-3].split("/")[:-n.level]
                base = ".".join(pkg + ([n.module] if n.module else []))
            for a in n.names:
                self.imports[a.asname or a.name] = ("from", base, a.name)
        elif isinstance(n, (ast.If, ast.Try)):
            for m in n.body:
                self._top(m)

    def lookup(self, name):
        """resolve a global name: ('func', Module, FunctionDef) | ('const', ast) | ('mod', dotted) | ('ext', dotted)"""
        if name in self.funcs:
            return ("func", self, self.funcs[name])
        if name in self.consts:
            return ("const", self.consts[name])
        if name in self.imports:
            imp = self.imports[name]
            if imp[0] == "mod":
                return ("mod", imp[1])
            mod, nm = imp[1], imp[2]
            if mod.startswith("finmlkit"):
                rel = mod.replace(".", "/") + ".py"
                if os.path.exists(os.path.join(REPO, rel)):
                    return load(rel).lookup(nm)
                rel2 = mod.replace(".", "/") + "/" + nm + ".py"
                if os.path.exists(os.path.join(REPO, rel2)):
                    return ("fmod", rel2)
            return ("ext", f"{mod}.{nm}")
        if name in self.classes:
            return ("class", self, self.classes[name])
        return None


def load(rel):
    if rel not in _cache:
        _cache[rel] = Module(rel)
    return _cache[rel]


def decorators(fn):
    return [ast.unparse(d) for d in fn.decorator_list]
