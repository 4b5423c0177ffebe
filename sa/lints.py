"""Syntactic / dataflow lints (whole-program rules that do not need value graphs)."""

import ast
import glob
import os
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
RULES = {}


def rule(prop):
    def d(f):
        RULES.setdefault(prop, []).append(f)
        return f
    return d


def run(prop, tier):
    out = {"violations": [], "undecided": [], "obligations": 0, "constructs": 0, "technique": "", "samples": []}
    for f in RULES.get(prop, []):
        r = f(tier)
        out["violations"] += r.get("violations", [])
        out["undecided"] += r.get("undecided", [])
        out["obligations"] += r.get("obligations", 0)
        out["constructs"] += r.get("constructs", 0)
        out["samples"] += r.get("samples", [])
        out["technique"] = "; ".join(x for x in (out["technique"], r.get("technique", "")) if x)
    return out


# ------------------------------------------------------------------ program
class Mod:
    def __init__(self, path):
        self.path = path
        self.name = "effector." + os.path.basename(path)[:-3] if not path.endswith("__init__.py") else "effector"
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(open(path).read())
        self.names = {}                      # name -> dotted path, module-wide (imports anywhere, aliases of dotted names)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.names[a.asname] = a.name
                    else:
                        self.names[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and n.module and n.level == 0:
                for a in n.names:
                    self.names[a.asname or a.name] = n.module + "." + a.name
        self.where = {}
        self._scopes(self.tree, "<module>")
        for n in ast.walk(self.tree):        # rng = np.random
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                d = self.dotted(n.value)
                if d and n.targets[0].id not in self.names:
                    self.names[n.targets[0].id] = d

    def _scopes(self, node, qn):
        for c in ast.iter_child_nodes(node):
            q = qn
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                q = c.name if qn == "<module>" else qn + "." + c.name
            self.where[c] = q if q != qn else qn
            self._scopes(c, q)

    def dotted(self, e):
        if isinstance(e, ast.Name):
            return self.names.get(e.id)
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value)
            return b + "." + e.attr if b else None
        return None


def program():
    return [Mod(p) for p in sorted(glob.glob(os.path.join(REPO, "effector", "*.py")))]


# ------------------------------------------------------------------ randomness
SEEDING = ("numpy.random.seed", "numpy.random.set_state", "numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator",
           "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.MT19937", "os.urandom", "scipy.stats.qmc")
FOREIGN = ("random", "secrets", "uuid")


@rule("P17")
def randomness(tier):
    """all randomness comes from numpy's global generator, which is never reseeded"""
    bad, sites, refs = [], [], 0
    for m in program():
        for n in ast.walk(m.tree):
            if not isinstance(n, (ast.Attribute, ast.Name)) or not isinstance(getattr(n, "ctx", None), ast.Load):
                continue
            d = m.dotted(n)
            if not d:
                continue
            refs += 1
            if d.startswith("numpy.random."):
                sites.append("%s:%d %s" % (os.path.basename(m.path), n.lineno, d))
            hit = d in SEEDING or any(d.startswith(f + ".") for f in FOREIGN)
            if hit:
                bad.append(dict(key="randomness:%s:%s:%s" % (m.name, m.where.get(n, "?"), d), rule="randomness", construct=d,
                                loc=(m.path, m.where.get(n, "<module>"), n.lineno),
                                what="%s: results no longer follow the caller's numpy.random state" % d))
    return dict(violations=bad, obligations=refs, constructs=len(sites), samples=sites,
                technique="name resolution over every attribute reference of the package (sources of randomness)")
