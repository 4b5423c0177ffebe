"""Whole-program name, attribute and call binding over the package (no value graphs).

Every name resolves to a binding; every attribute read from the package's modules, classes and typed objects exists; every call
whose callee is known binds to its signature; every tuple unpacking of a known call has the length of one of its returns;
every option of the public interface is read.  Receivers and callees that the inference does not type are counted as such."""
import ast
import builtins
import json
import os
import symtable
import warnings

from . import lints
from .interp import endless

HERE = os.path.dirname(os.path.abspath(__file__))
SPECIAL = {"__name__", "__file__", "__doc__", "__package__", "__spec__", "__loader__", "__builtins__", "__path__", "__annotations__", "__class__"}
OBJECT = set(dir(object)) | {"__dict__", "__name__", "__module__", "__qualname__", "__mro__"}


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods, self.attrs, self.bases, self.foreign = {}, set(), [], False
        self.cols = {}                        # attribute -> list of expressions assigned to it
        self.elems = {}                       # attribute -> list of expressions stored under a key
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = s
            for t in targets(s):
                self.attrs.add(t)

    def mro(self):
        out = []
        todo = [self]
        while todo:                           # depth first is the C3 order for the single inheritance used here
            c = todo.pop(0)
            if c not in out:
                out.append(c)
            todo = [b for b in c.bases] + todo
        return out


def targets(s):
    out = []
    if isinstance(s, ast.Assign):
        for t in s.targets:
            out += [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]
    elif isinstance(s, (ast.AnnAssign, ast.AugAssign)) and isinstance(s.target, ast.Name):
        out.append(s.target.id)
    elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        out.append(s.name)
    return out


def selfname(f):
    deco = {d.id for d in f.decorator_list if isinstance(d, ast.Name)}
    a = f.args.posonlyargs + f.args.args
    if "staticmethod" in deco or not a:
        return None
    return a[0].arg


class Program:
    def __init__(self):
        self.mods = {m.name: m for m in lints.program()}
        self.classes, self.functions = {}, {}     # dotted -> Cls / FunctionDef
        for m in self.mods.values():
            m.src = open(m.path).read()
            m.top = set()
            for s in ast.walk(m.tree):
                pass
            self._top(m, m.tree.body)
        for c in self.classes.values():
            for b in c.node.bases:
                k = self.resolve(c.mod, b)
                if isinstance(k, Cls):
                    c.bases.append(k)
                elif ast.unparse(b) not in ("object", "ABC", "abc.ABC"):
                    c.foreign = True
        self.subs = {c: [d for d in self.classes.values() if c in d.mro()] for c in self.classes.values()}
        for c in self.classes.values():
            for f in c.methods.values():
                me = selfname(f)
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, (ast.Store, ast.Del)):
                        c.attrs.add(n.attr)
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                                c.cols.setdefault(t.attr, []).append((f, n.value))
                            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and isinstance(t.value.value, ast.Name) and t.value.value.id == me:
                                c.elems.setdefault(t.value.attr, []).append((f, n.value))
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                        c.foreign = True
        self.public = set()
        init = self.mods.get("effector")
        if init is not None:
            for n, d in init.names.items():
                if d in self.classes:
                    self.public.add(self.classes[d])
        inter = [c for c in self.classes.values() if c.mod.name in ("effector.interaction", "effector.partitioning")]
        self.public |= set(inter)
        made = set()
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    k = self.resolve(m, n.func)
                    if isinstance(k, Cls):
                        made.add(k)
        self.concrete = self.public | made

    def _top(self, m, body):
        for s in body:
            m.top |= set(targets(s))
            if isinstance(s, ast.FunctionDef):
                self.functions[m.name + "." + s.name] = s
                s.mod = m
            elif isinstance(s, ast.ClassDef):
                self.classes[m.name + "." + s.name] = Cls(m, s)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    m.top.add(a.asname or a.name.split(".")[0])
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for b in ("body", "orelse", "finalbody"):
                    self._top(m, getattr(s, b, []))
                for h in getattr(s, "handlers", []):
                    self._top(m, h.body)

    def resolve(self, m, e):
        """the class, function or module a global expression denotes"""
        if isinstance(e, ast.Name):
            d = m.name + "." + e.id
            if d in self.classes or d in self.functions:
                return self.classes.get(d) or self.functions.get(d)
        d = m.dotted(e)
        return self.lookup(d) if d else None

    def lookup(self, d, depth=0):
        if d in self.classes:
            return self.classes[d]
        if d in self.functions:
            return self.functions[d]
        if d in self.mods:
            return self.mods[d]
        if "." in d and depth < 5:            # re-exported by another module of the package
            a, b = d.rsplit(".", 1)
            if a in self.mods and b in self.mods[a].names and self.mods[a].names[b] != d:
                return self.lookup(self.mods[a].names[b], depth + 1)
        return None


def attribute(c, name):
    """is the attribute defined for objects of class c?  (methods and assignments of its bases; foreign bases define anything)"""
    if name in OBJECT:
        return True
    return any(name in k.methods or name in k.attrs or k.foreign for k in c.mro())


def method(c, name):
    for k in c.mro():
        if name in k.methods:
            return k, k.methods[name]
    return None, None


def bind(f, call, bound):
    """why the call does not bind to the signature of f, or None"""
    a = f.args
    params = [x.arg for x in a.posonlyargs + a.args]
    if bound:
        params = params[1:]
    only = {x.arg for x in a.posonlyargs}
    kwonly = [x.arg for x in a.kwonlyargs]
    defaults = set(params[len(params) - len(a.defaults):] if a.defaults else [])
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if npos > len(params) and a.vararg is None:
        return "takes %d positional argument(s) but %d are given" % (len(params), npos)
    got = set(params[:npos]) if not star else set()
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg not in params + kwonly and a.kwarg is None or k.arg in only:
            return "has no parameter '%s'" % k.arg
        if k.arg in got:
            return "gets '%s' twice" % k.arg
        got.add(k.arg)
    if not star and not dstar:
        missing = [p for p in params if p not in got and p not in defaults]
        need = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in got]
        if missing + need:
            return "misses required argument(s) " + ", ".join(missing + need)
    return None


class Scope:
    """types of the local names of one function: name -> set of Cls, for names that only ever hold objects of the package"""

    def __init__(self, prog, mod, cls, f):
        self.prog, self.mod, self.cls, self.f = prog, mod, cls, f
        self.me = selfname(f) if cls is not None else None
        vals, bad = {}, set()
        a = f.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            bad.add(x.arg)
        for n in own_nodes(f):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        vals.setdefault(t.id, []).append(n.value)
                    else:
                        bad |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                vals.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                bad.add(n.target.id)
            elif isinstance(n, (ast.For, ast.comprehension)):
                bad |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                bad |= {x.id for x in ast.walk(n.optional_vars) if isinstance(x, ast.Name)}
            elif isinstance(n, ast.NamedExpr):
                bad.add(n.target.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                bad.add(n.name)
        self.vals = {k: v for k, v in vals.items() if k not in bad}
        self.locals = set(vals) | bad
        self.up = {}                          # statement or expression -> (block, index) of the statement it is in
        self._blocks(f)
        self.busy = set()

    def _blocks(self, node):
        for b in ("body", "orelse", "finalbody", "handlers"):
            for i, st in enumerate(getattr(node, b, None) or []):
                if isinstance(st, (ast.stmt, ast.ExceptHandler)):
                    for x in ast.walk(st):
                        self.up.setdefault(x, []).append((getattr(node, b), i))
                    if not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                        self._blocks(st)

    def reaching(self, e):
        """the one assignment to the name that reaches its use in straight-line code, or None"""
        for block, i in reversed(self.up.get(e, [])):
            for st in reversed(block[:i]):
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in st.targets):
                    return st.value
                if any(isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store) for x in ast.walk(st)):
                    return None
        return None

    def each(self, e):
        """may the expression denote an object of every class in types(e)?  True for the object a method is called on, unless the
        method asks what it is; the classes of anything else (the result of a dispatching function, say) are those it *may* have"""
        if not (isinstance(e, ast.Name) and e.id == self.me and self.me is not None):
            return False
        for n in ast.walk(self.f):
            if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.Assert)):
                for x in ast.walk(n.test):
                    if isinstance(x, ast.Name) and x.id in ("isinstance", "hasattr", "getattr", "type", "issubclass"):
                        return False
                    if isinstance(x, ast.Attribute) and x.attr in ("method_name", "__class__"):
                        return False
            if isinstance(n, ast.Try) and any(x is e for b in n.body for x in ast.walk(b)):
                return False
        return True

    def types(self, e, depth=0):
        """the classes an expression may denote, or None when unknown"""
        if depth > 6:
            return None
        P = self.prog
        if isinstance(e, ast.Name):
            if e.id == self.me and self.me is not None:
                return {c for c in P.subs[self.cls] if c in P.concrete} or {self.cls}
            if e.id in self.vals and e.id not in self.busy:
                vs = [v for v in self.vals[e.id] if not (isinstance(v, ast.Constant) and v.value is None)]
                if len(vs) > 1:
                    vs = [self.reaching(e)]
                self.busy.add(e.id)
                try:
                    return None if vs == [None] else self.union(vs, depth)
                finally:
                    self.busy.discard(e.id)
            return None
        if isinstance(e, ast.IfExp):
            return self.union([e.body, e.orelse], depth)
        if isinstance(e, ast.Call):
            k = None if isinstance(e.func, ast.Name) and e.func.id in self.locals else P.resolve(self.mod, e.func)
            if isinstance(k, Cls):
                return {k}
            if isinstance(k, ast.FunctionDef):
                return returned(P, k.mod, None, k, depth)
            if isinstance(e.func, ast.Attribute):
                ts = self.types(e.func.value, depth + 1)
                if ts:
                    out = set()
                    for c in ts:
                        o, f = method(c, e.func.attr)
                        r = returned(P, o.mod, o, f, depth) if f is not None else None
                        if r is None:
                            return None
                        out |= r
                    return out
            return None
        if isinstance(e, (ast.Attribute, ast.Subscript)):
            base = e.value if isinstance(e, ast.Attribute) else getattr(e.value, "value", None)
            name = e.attr if isinstance(e, ast.Attribute) else getattr(e.value, "attr", None)
            if isinstance(e, ast.Subscript) and not isinstance(e.value, ast.Attribute) or base is None:
                return None
            ts = self.types(base, depth + 1)
            if not ts:
                return None
            out = set()
            for c in ts:
                known = [x for k in set(c.mro()) | {d for d in P.subs[c]} for x in [(k, *y) for y in (k.cols if isinstance(e, ast.Attribute) else k.elems).get(name, [])]]
                if not known:
                    return None
                for k, f, v in known:
                    if isinstance(v, ast.Constant) and v.value is None or isinstance(v, (ast.Dict, ast.List)) and not isinstance(e, ast.Attribute):
                        continue
                    r = Scope(P, k.mod, k, f).types(v, depth + 2)
                    if r is None:
                        return None
                    out |= r
            return out or None
        return None

    def union(self, es, depth):
        out = set()
        for v in es:
            if isinstance(v, ast.Constant) and v.value is None:
                continue
            r = self.types(v, depth + 1)
            if r is None:
                return None
            out |= r
        return out or None


def returned(P, mod, cls, f, depth):
    rs = [n.value for n in own_nodes(f) if isinstance(n, ast.Return) and n.value is not None]
    if not rs:
        return None
    return Scope(P, mod, cls, f).union(rs, depth + 1)


def own_nodes(f):
    """nodes of a function body, nested functions and classes excluded (lambdas and comprehensions included)"""
    todo = list(f.body)
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                todo.append(c)


def functions_of(m):
    """(class or None, function node, qualified name) of every function of a module, nested ones included"""
    out = []

    def go(node, cls, q):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.ClassDef):
                go(c, c.name, (q + "." if q else "") + c.name)
            elif isinstance(c, ast.FunctionDef):
                out.append((cls if isinstance(node, ast.ClassDef) else None, c, (q + "." if q else "") + c.name))
                go(c, None, (q + "." if q else "") + c.name)
            else:
                go(c, cls, q)
    go(m.tree, None, "")
    return out


# ------------------------------------------------------------------ rules
def viol(kind, m, qn, line, construct, what):
    return dict(key="%s:%s:%s:%s" % (kind, m.name, qn, construct), rule=kind, construct=construct, loc=(m.path, qn, line), what=what)


def undefined_names(P):
    """names that no scope binds"""
    bad, n = [], 0
    for m in P.mods.values():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            table = symtable.symtable(m.src, m.path, "exec")
        tops = {s.get_name() for s in table.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        globs = {x for s in ast.walk(m.tree) if isinstance(s, ast.Global) for x in s.names}
        if any(isinstance(s, ast.ImportFrom) and any(a.name == "*" for a in s.names) for s in ast.walk(m.tree)):
            continue
        lines = {}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                lines.setdefault(x.id, []).append((x.lineno, m.where.get(x, "<module>")))

        def go(t):
            nonlocal n
            for s in t.get_symbols():
                if not s.is_referenced():
                    continue
                n += 1
                if s.is_global() or t.get_type() == "module":
                    nm = s.get_name()
                    if nm in tops or nm in globs or hasattr(builtins, nm) or nm in SPECIAL:
                        continue
                    at = [x for x in lines.get(nm, [(t.get_lineno(), "<module>")]) if x[0] >= t.get_lineno()] or lines.get(nm, [(0, "?")])
                    bad.append(viol("undefined-name", m, at[0][1], at[0][0], nm, "name '%s' is not defined anywhere" % nm))
            for c in t.get_children():
                go(c)
        go(table)
    return bad, n


def unbound(P):
    """local names read where no assignment can have happened yet"""
    bad, n = [], 0
    for m in P.mods.values():
        for cls, f, qn in functions_of(m):
            glob = {x for s in own_nodes(f) if isinstance(s, (ast.Global, ast.Nonlocal)) for x in s.names}
            local = set()
            for x in own_nodes(f):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    local.add(x.id)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    local.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    local |= {a.asname or a.name.split(".")[0] for a in x.names}
            comp = {y.id for x in own_nodes(f) if isinstance(x, ast.comprehension) for y in ast.walk(x.target) if isinstance(y, ast.Name)}
            for s in ast.walk(f):
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s is not f:
                    local.add(s.name)
            a = f.args
            params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
            local -= glob | comp
            first = {}

            def walk(stmts, have):
                """names that may be assigned after the statements; None when control does not go on"""
                nonlocal n
                for s in stmts:
                    if have is None:
                        return None
                    have = step(s, have)
                return have

            def loads(node, have):
                nonlocal n
                for x in own_expr(node):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in local:
                        n += 1
                        if x.id not in have and x.id not in params:
                            first.setdefault(x.id, x)

            def stores(node):
                out = set()
                for x in ast.walk(node):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        out.add(x.id)
                return out

            def join(*hs):
                hs = [h for h in hs if h is not None]
                return set().union(*hs) if hs else None

            def step(s, have):
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    return have | {s.name}
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    return have | {a.asname or a.name.split(".")[0] for a in s.names}
                if isinstance(s, ast.If):
                    loads(s.test, have)
                    h = have | stores(s.test)
                    return join(walk(s.body, set(h)), walk(s.orelse, set(h)))
                if isinstance(s, (ast.For, ast.While)):
                    if isinstance(s, ast.For):
                        loads(s.iter, have)
                    inner = set(have) | (stores(s.target) if isinstance(s, ast.For) else set())
                    every = set(inner)
                    for x in s.body:                       # anything the body assigns may be there at the next turn
                        every |= stores(x)
                    if isinstance(s, ast.While):
                        loads(s.test, every)
                    walk(s.body, every)
                    return join(walk(s.orelse, set(every)), every)
                if isinstance(s, ast.Try):
                    h = walk(s.body, set(have))
                    every = set(have)
                    for x in s.body:
                        every |= stores(x)
                    outs = [walk(s.orelse, set(h)) if h is not None else None]
                    for hd in s.handlers:
                        outs.append(walk(hd.body, every | ({hd.name} if hd.name else set())))
                    o = join(*outs)
                    fin = walk(s.finalbody, set(o if o is not None else every))
                    return fin if o is not None else None
                if isinstance(s, ast.With):
                    for i in s.items:
                        loads(i.context_expr, have)
                        if i.optional_vars is not None:
                            have = have | stores(i.optional_vars)
                    return walk(s.body, set(have))
                if isinstance(s, (ast.Return, ast.Raise)):
                    loads(s, have)
                    return None
                if isinstance(s, (ast.Break, ast.Continue)):
                    return None
                if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in local and s.target.id not in have and s.target.id not in params:
                    n_ = s.target
                    first.setdefault(n_.id, n_)
                if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and s.value is not None:
                    loads(s.value, have)
                    for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        loads(t, have | stores(s.value))
                else:
                    loads(s, have)
                return have | stores(s)
            walk(f.body, set())
            for nm, x in first.items():
                bad.append(viol("unbound-local", m, qn, x.lineno, nm, "local '%s' is read before any assignment to it" % nm))
    return bad, n


def own_expr(node):
    todo = [node]
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.Lambda, ast.FunctionDef)):
            continue
        todo += list(ast.iter_child_nodes(x))


def calls(P):
    """calls and attributes of the package's own functions, classes, modules and objects"""
    bad, n, untyped, samples = [], 0, 0, []
    for m in P.mods.values():
        fs = functions_of(m)
        inside = {}
        for cls, f, qn in fs:
            for x in own_nodes(f):
                inside[x] = (cls, f, qn)
        scopes = {}
        for x in ast.walk(m.tree):
            if not isinstance(x, (ast.Call, ast.Attribute)):
                continue
            cls, f, qn = inside.get(x, (None, None, "<module>"))
            c = P.classes.get(m.name + "." + cls) if cls else None
            sc = None
            if f is not None:
                if f not in scopes:
                    scopes[f] = Scope(P, m, c, f)
                sc = scopes[f]
            shadow = sc is not None and isinstance(getattr(x, "func", x), ast.Name) and x.func.id in sc.locals if isinstance(x, ast.Call) else False
            if isinstance(x, ast.Attribute):
                root = x
                while isinstance(root, ast.Attribute):
                    root = root.value
                if isinstance(root, ast.Name) and sc is not None and root.id in sc.locals:
                    k = None
                else:
                    k = P.resolve(m, x.value)
                if isinstance(k, lints.Mod):
                    n += 1
                    if x.attr not in k.top and (k.name + "." + x.attr) not in P.mods and x.attr not in SPECIAL:
                        bad.append(viol("module-attribute", m, qn, x.lineno, ast.unparse(x), "module %s has no attribute '%s'" % (k.name, x.attr)))
                elif isinstance(k, Cls) and isinstance(x.ctx, ast.Load):
                    n += 1
                    if not attribute(k, x.attr):
                        bad.append(viol("class-attribute", m, qn, x.lineno, ast.unparse(x), "class %s has no attribute '%s'" % (k.name, x.attr)))
                elif k is None and sc is not None and isinstance(x.ctx, ast.Load):
                    ts = sc.types(x.value)
                    if ts:
                        n += 1
                        lack = sorted(t.name for t in ts if not attribute(t, x.attr))
                        if lack and (sc.each(x.value) or len(lack) == len(ts)):
                            bad.append(viol("object-attribute", m, qn, x.lineno, ast.unparse(x), "objects of %s have no attribute '%s'" % ("/".join(lack), x.attr)))
                continue
            # calls
            k = None if shadow else P.resolve(m, x.func)
            if isinstance(x.func, ast.Attribute):
                root = x.func
                while isinstance(root, ast.Attribute):
                    root = root.value
                if isinstance(root, ast.Name) and sc is not None and root.id in sc.locals:
                    k = None
            if isinstance(k, ast.FunctionDef):
                n += 1
                why = bind(k, x, False)
                if why:
                    bad.append(viol("call", m, qn, x.lineno, ast.unparse(x)[:120], "%s() %s" % (k.name, why)))
                continue
            if isinstance(k, Cls):
                _, init = method(k, "__init__")
                if init is not None and not any(b.foreign for b in k.mro()):
                    n += 1
                    why = bind(init, x, True)
                    if why:
                        bad.append(viol("call", m, qn, x.lineno, ast.unparse(x)[:120], "%s.__init__() %s" % (k.name, why)))
                continue
            if isinstance(x.func, ast.Attribute) and sc is not None:
                v, name = x.func.value, x.func.attr
                found = []
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and c is not None:
                    for t in c.mro()[1:]:
                        if name in t.methods:
                            found = [(t, t.methods[name])]
                            break
                else:
                    ts = sc.types(v)
                    if ts is None and isinstance(v, ast.Name) and P.resolve(m, v) is None:
                        untyped += 1
                    for t in ts or []:
                        o, g = method(t, name)
                        if g is not None and g.name == name:
                            found.append((t, g))
                if found:
                    n += 1
                    whys = []
                    for t, g in found:
                        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in g.decorator_list)
                        why = bind(g, x, not static)
                        if why:
                            whys.append((t, why))
                    if whys and (len(whys) == len(found) or sc.each(v)):
                        bad.append(viol("call", m, qn, x.lineno, ast.unparse(x)[:120], "%s.%s() %s" % (whys[0][0].name, name, whys[0][1])))
                    samples.append("%s:%d %s -> %s" % (os.path.basename(m.path), x.lineno, ast.unparse(x.func), ", ".join(sorted({t.name for t, g in found})[:4])))
    return bad, n, untyped, samples


def arities(P):
    """tuple unpacking of the result of a known function: some return has that length"""
    bad, n = [], 0
    for m in P.mods.values():
        for cls, f, qn in functions_of(m):
            c = P.classes.get(m.name + "." + cls) if cls else None
            sc = Scope(P, m, c, f)
            for s in own_nodes(f):
                if not (isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List))):
                    continue
                t = s.targets[0]
                if any(isinstance(x, ast.Starred) for x in t.elts):
                    continue
                fn = s.value.func
                gs = []
                k = P.resolve(m, fn) if not (isinstance(fn, ast.Name) and fn.id in sc.locals) else None
                if isinstance(k, ast.FunctionDef):
                    gs = [k]
                elif isinstance(fn, ast.Attribute) and k is None:
                    for q in sc.types(fn.value) or []:
                        o, g = method(q, fn.attr)
                        if g is not None:
                            gs.append(g)
                for g in gs:
                    rs = [x.value for x in own_nodes(g) if isinstance(x, ast.Return)]
                    if not rs or not all(isinstance(r, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in r.elts) for r in rs):
                        continue
                    n += 1
                    if len(t.elts) not in [len(r.elts) for r in rs]:
                        bad.append(viol("unpacking", m, qn, s.lineno, ast.unparse(s)[:120], "%d values are unpacked from %s(), which returns %s" % (
                            len(t.elts), g.name, " or ".join(str(len(r.elts)) for r in rs))))
                        break
    return bad, n


def imports(P):
    """what is imported from a module of the package exists there; attributes of third-party modules exist in the installed ones"""
    bad, n = [], 0
    ext = json.load(open(os.path.join(HERE, "extnames.json")))
    for m in P.mods.values():
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ImportFrom) and s.module and (s.module == "effector" or s.module.startswith("effector.")):
                n += len(s.names)
                if s.module not in P.mods:
                    bad.append(viol("import", m, "<module>", s.lineno, s.module, "there is no module %s" % s.module))
                    continue
                for a in s.names:
                    if a.name != "*" and a.name not in P.mods[s.module].top and s.module + "." + a.name not in P.mods:
                        bad.append(viol("import", m, "<module>", s.lineno, s.module + "." + a.name, "module %s has no '%s'" % (s.module, a.name)))
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.name.split(".")[0] == "effector":
                        n += 1
                        if a.name not in P.mods:
                            bad.append(viol("import", m, "<module>", s.lineno, a.name, "there is no module %s" % a.name))
            elif isinstance(s, ast.Attribute):
                d = m.dotted(s.value)
                if d in ext:
                    n += 1
                    if s.attr not in ext[d]:
                        bad.append(viol("library-attribute", m, m.where.get(s, "<module>"), s.lineno, d + "." + s.attr, "%s has no attribute '%s'" % (d, s.attr)))
    return bad, n


def reads(f):
    """names read in f, without those that comprehensions bind themselves"""
    out = set()

    def go(n, bound):
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id not in bound:
                out.add(n.id)
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            go(n.generators[0].iter, bound)
            b = bound | {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for i, g in enumerate(n.generators):
                if i:
                    go(g.iter, b)
                for x in g.ifs:
                    go(x, b)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                go(x, b)
        elif isinstance(n, ast.Lambda):
            a = n.args
            go_all(a.defaults + [d for d in a.kw_defaults if d], bound)
            go(n.body, bound | {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]})
        else:
            go_all(ast.iter_child_nodes(n), bound)

    def go_all(ns, bound):
        for n in ns:
            go(n, bound)
    go_all(f.body, frozenset())
    return out


def options(P):
    """every parameter of the public interface is read by the function that takes it"""
    bad, n = [], 0
    seen = set()
    for c in P.public:
        if c.mod.name.endswith("partitioning"):
            continue        # trees and region finders are handed out, not called with options
        for k in c.mro():
            for name, f in k.methods.items():
                if f in seen or name.startswith("_") and name != "__init__":
                    continue
                seen.add(f)
                body = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                if len(body) == 1 and isinstance(body[0], (ast.Raise, ast.Pass)) or not body:
                    continue
                used = reads(f)
                if used & {"locals", "vars"}:
                    continue
                for x in (f.args.posonlyargs + f.args.args + f.args.kwonlyargs)[1:]:
                    n += 1
                    if x.arg not in used:
                        bad.append(viol("ignored-option", k.mod, k.name + "." + name, f.lineno, x.arg, "option '%s' is accepted and never read" % x.arg))
    return bad, n


def loops(P):
    """a while loop over plain local values either changes one of them or can be left"""
    bad, n = [], 0
    for m in P.mods.values():
        for w in ast.walk(m.tree):
            if not isinstance(w, ast.While):
                continue
            n += 1
            if not endless(w):
                continue
            names = {x.id for x in ast.walk(w.test) if isinstance(x, ast.Name)}
            q = m.where.get(w.test) or m.where.get(w) or "<module>"
            bad.append(viol("endless-loop", m, q, w.lineno, "while " + ast.unparse(w.test), "nothing in the loop changes %s, and nothing leaves the loop" % (" or ".join(sorted(names)) or "its condition")))
    return bad, n


@lints.rule("P20")
def binding(tier):
    P = Program()
    bad, total = [], 0
    counts = []
    for nm, r in (("names", undefined_names), ("locals", unbound), ("imports and library attributes", imports), ("unpackings", arities), ("options", options), ("while loops", loops)):
        b, n = r(P)
        bad += b
        total += n
        counts.append("%d %s" % (n, nm))
    b, n, untyped, samples = calls(P)
    bad += b
    total += n
    counts.append("%d calls and attributes with a known receiver (%d call receivers untyped)" % (n, untyped))
    return dict(violations=bad, obligations=total, constructs=total, samples=["resolved: " + ", ".join(counts)] + samples[:12],
                technique="whole-program name resolution, receiver typing and signature binding over the syntax trees")
