"""Abstract interpreter over the value-graph domain.

One pass over the syntax tree; branches are joined with `ite`/phi values, loops over symbolic ranges are
summarised (closed forms), loops over concrete ranges are unrolled.  Nothing of the analysed program is
imported or executed."""
import ast
import os
from fractions import Fraction
from . import terms as tm
from .terms import T, num, TRUE, FALSE, ZERO, ONE, INF, NAN
from .values import *


class Undecided(Exception):
    pass


class NeedFork(Exception):
    def __init__(self, c):
        self.c = c


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Event:
    __slots__ = ("guard", "kind", "data", "loc")

    def __init__(self, guard, kind, data, loc):
        self.guard, self.kind, self.data, self.loc = guard, kind, data, loc


class State:
    def __init__(self):
        self.heap = {}
        self.frames = {}
        self.pc = ()
        self.known = frozenset()
        self.events = []
        self.ret = None
        self.exc = None

    def fork(self):
        s = State()
        s.heap = dict(self.heap)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.pc, s.known = self.pc, self.known
        s.events = list(self.events)
        s.ret, s.exc = self.ret, self.exc
        return s

    def assume(self, c):
        if c is TRUE or c in self.known:
            return
        self.pc = self.pc + (c,)
        add = [c]
        if c.op == "and":
            add += list(c.args)
        k = propagate(self.known, c)
        self.known = self.known | frozenset(add) if k is None else k

    def setpc(self, pc):
        self.pc = ()
        self.known = frozenset()
        for c in pc:
            self.assume(c)


_PROP = {}


def propagate(known, c):
    """known facts plus c, closed under unit propagation over disjunctions; None when contradictory"""
    key = (known, c)
    r = _PROP.get(key, 0)
    if r != 0:
        return r
    if len(_PROP) > 50000:
        _PROP.clear()
    k = set(known)
    todo = [c]
    dead = False
    while todo and not dead:
        x = todo.pop()
        if x in k and x is not c:
            continue
        if x is FALSE:
            dead = True
            break
        if x.op == "and":
            todo.extend(x.args)
        k.add(x)
        if not todo:
            ors = [y for y in k if y.op == "or"]
            if len(ors) > 24:
                break
            for y in ors:
                live = []
                for z in y.args:
                    v = implied(k, z)
                    if v is TRUE:
                        live = None
                        break
                    if v is None:
                        live.append(z)
                        if len(live) > 1:
                            break
                if live is None:
                    continue
                if not live:
                    dead = True
                    break
                if len(live) == 1 and live[0] not in k:
                    todo.append(live[0])
    r = None if dead else frozenset(k)
    _PROP[key] = r
    return r


NEXT, RET, BRK, CONT, RAISE = "next", "return", "break", "continue", "raise"


_CORE = {}


def _core(p):
    """(p without its constant, the constant, the negated first)"""
    r = _CORE.get(p)
    if r is None:
        k = sum((c for c, m in tm._terms(p) if not m), 0)
        q = tm.sub(p, tm.num(k)) if k else p
        if len(_CORE) > 100000:
            _CORE.clear()
        r = _CORE[p] = (q, k, tm.neg(q))
    return r


def implied(known, c):
    """TRUE / FALSE / None"""
    if c is TRUE or c is FALSE:
        return c
    if c in known:
        return TRUE
    n = tm.not_(c)
    if n in known:
        return FALSE
    if c.op == "and":
        rs = [implied(known, x) for x in c.args]
        if all(r is TRUE for r in rs):
            return TRUE
        if any(r is FALSE for r in rs):
            return FALSE
        return None
    if c.op == "or":
        rs = [implied(known, x) for x in c.args]
        if any(r is TRUE for r in rs):
            return TRUE
        if all(r is FALSE for r in rs):
            return FALSE
        return None
    if c.op == "ite":
        d = implied(known, c.args[0])
        if d is TRUE:
            return implied(known, c.args[1])
        if d is FALSE:
            return implied(known, c.args[2])
        return None
    if c.op in ("lt0", "le0", "eq0"):
        # compare with known facts on the same polynomial up to a constant
        core, pc, nc = _core(c.args[0])
        for k in known:
            if k.op in ("lt0", "le0"):
                kcore, kc, _ = _core(k.args[0])
                if kcore is core:                 # p = q + v,  q < 0 or q <= 0
                    v = pc - kc
                    if c.op == "lt0" and (v < 0 or (v == 0 and k.op == "lt0")):
                        return TRUE
                    if c.op == "le0" and v <= 0:
                        return TRUE
                    if c.op == "eq0" and (v < 0 or (v == 0 and k.op == "lt0")):
                        return FALSE
                if kcore is nc:                   # p = -q + v
                    v = pc + kc
                    if c.op == "lt0" and v >= 0:
                        return FALSE
                    if c.op == "le0" and (v > 0 or (v == 0 and k.op == "lt0")):
                        return FALSE
                    if c.op == "eq0" and (v > 0 or (v == 0 and k.op == "lt0")):
                        return FALSE
    return None


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path


def endless(w):
    """a while loop over plain local values that neither changes one of them nor can be left"""
    if any(isinstance(x, (ast.Call, ast.Attribute, ast.Subscript, ast.NamedExpr, ast.Await)) for x in ast.walk(w.test)):
        return False        # may depend on state changed elsewhere
    names = {x.id for x in ast.walk(w.test) if isinstance(x, ast.Name)}
    inner = [x for s in w.body for x in ast.walk(s)]
    if any(isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in names for x in inner):
        return False
    return not any(isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.FunctionDef)) for x in inner)


def shrink_literals(tree, keep, first=3, least=200):
    """large integer literals within function bodies and module-level assignments, consistently replaced by small ones"""
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.arguments):
            for d in n.defaults + n.kw_defaults:
                skip.update(ast.walk(d) if d is not None else ())
    found = [n for n in ast.walk(tree) if isinstance(n, ast.Constant) and type(n.value) is int and n.value >= least and n.value not in keep and n not in skip]
    small = {v: k + first for k, v in enumerate(sorted({n.value for n in found}))}
    for n in found:
        n.value = small[n.value]


class Interp:
    def __init__(self, roots, maxsteps=2000000):
        self.small_file, self.small_keep, self.small_first = None, (), 3
        self.roots = roots                      # list of (package prefix, directory)
        self.st = State()
        self.modules = {}
        self.modframes = {}
        self.nid = 0
        self.sinks = [[]]
        self.stack = []                         # (module, function name, node)
        self.node = None
        self.mod = None
        self.steps = 0
        self.maxsteps = maxsteps
        self.depth = 0
        self.intercepts = {}                    # (module, qualname) -> handler(interp, func, args, kwargs)
        self.covered = set()                    # (file, function) analysed
        self.covered_lines = {}
        self.exc_n = 0
        self.assume_ok = True
        self.fail_atoms = {}
        from . import npmodel
        from . import pylib
        for n in ("exc_matches", "np_attr", "attr", "arr_attr", "call_value"):
            setattr(npmodel, n, getattr(pylib, n))
        self.np = npmodel
        self.builtins = pylib.make_builtins(self)
        self.ext = pylib.make_modules(self)

    # ------------------------------------------------------------ allocation
    def new(self, cell):
        self.nid += 1
        self.st.heap[self.nid] = cell
        return self.nid

    def arr(self, a, owners=frozenset(), base=None):
        return ArrV(self.new(ArrCell(a, owners, base)))

    def list(self, items):
        return ListV(self.new(ListCell(items)))

    def dict(self, items):
        return DictV(self.new(DictCell(items)))

    def cell(self, v):
        c = self.st.heap[v.cid]
        while isinstance(c, PhiCell):
            c = self._phicell(v, c)
        return c

    def _phicell(self, v, c):
        d = self.decide(c.c)
        if d is None:
            raise NeedFork(c.c)
        return c.a if d else c.b

    def decide(self, c):
        """Python bool or None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        r = implied(self.st.known, c)
        if r is None:
            if propagate(self.st.known, c) is None:
                return False
            if propagate(self.st.known, tm.not_(c)) is None:
                return True
        return True if r is TRUE else False if r is FALSE else None

    def res(self, v):
        """resolve phi values (forks when the selecting condition is not known)"""
        while isinstance(v, PhiV):
            d = self.decide(v.c)
            if d is None:
                raise NeedFork(v.c)
            v = v.a if d else v.b
        return v

    # ------------------------------------------------------------ locations and events
    def loc(self):
        m = self.mod
        return (m.path if m else "?", self.stack[-1][1] if self.stack else "<module>", getattr(self.node, "lineno", 0))

    def event(self, kind, *data):
        self.st.events.append(Event(TRUE, kind, data, self.loc() + (tuple((m.name, f) for m, f, n in self.stack),)))

    # ------------------------------------------------------------ state merge
    def merge_cond(self, a, b):
        i = 0
        while i < len(a.pc) and i < len(b.pc) and a.pc[i] is b.pc[i]:
            i += 1
        ra, rb = a.pc[i:], b.pc[i:]
        c = None
        for x in ra:
            n = tm.not_(x)
            if n in b.known or any(n is y for y in rb):
                c = x
                break
        if c is None:
            c = tm.and_(*ra) if ra else None
            if c is None or c is TRUE:
                c = tm.not_(tm.and_(*rb)) if rb else TRUE
        return c, a.pc[:i], tm.and_(*ra), tm.and_(*rb)

    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        c, common, ra, rb = self.merge_cond(a, b)
        s = State()
        s.setpc(common)
        o = tm.or_(ra, rb)
        if o is not TRUE:
            s.assume(o)
        self._memo = {}
        save = self.st
        self.st = s
        for k in a.frames.keys() | b.frames.keys():
            fa, fb = a.frames.get(k), b.frames.get(k)
            if fa is None or fb is None:
                s.frames[k] = fa if fb is None else fb
                continue
            if fa is fb:
                s.frames[k] = fa
                continue
            fr = {}
            for n in fa.keys() | fb.keys():
                va, vb = fa.get(n, UNDEF), fb.get(n, UNDEF)
                fr[n] = va if va is vb else self.mv(c, va, vb)
            s.frames[k] = fr
        for k in a.heap.keys() | b.heap.keys():
            ca, cb = a.heap.get(k), b.heap.get(k)
            if cb is None or ca is cb:
                s.heap[k] = ca
            elif ca is None:
                s.heap[k] = cb
            else:
                s.heap[k] = self.mcell(c, ca, cb)
        i = 0
        while i < len(a.events) and i < len(b.events) and a.events[i] is b.events[i]:
            i += 1
        s.events = a.events[:i]
        for e in a.events[i:]:
            s.events.append(Event(tm.and_(c, e.guard), e.kind, e.data, e.loc))
        n = tm.not_(c)
        for e in b.events[i:]:
            s.events.append(Event(tm.and_(n, e.guard), e.kind, e.data, e.loc))
        s.ret = a.ret if a.ret is b.ret else self.mv(c, a.ret, b.ret)
        s.exc = a.exc if a.exc is b.exc else PhiV(c, a.exc, b.exc)
        self.st = save
        return s

    def mv(self, c, a, b):
        while isinstance(a, PhiV) and a.c is c:
            a = a.a
        while isinstance(b, PhiV) and b.c is c:
            b = b.b
        if a is b:
            return a
        if a is UNDEF or b is UNDEF:
            return PhiV(c, a, b)
        if isinstance(a, (bool, int, Fraction, str)) and type(a) is type(b) and a == b:
            return a
        if is_scalar(a) and is_scalar(b):
            if isinstance(a, T) and a.op == "str" or isinstance(b, T) and b.op == "str":
                return PhiV(c, a, b)
            ta, tb = num(a), num(b)
            if tm.is_bool(ta) == tm.is_bool(tb):
                # keep concrete int / str distinctions (options) as phi so that they can be resolved by forking
                if isinstance(a, T) or isinstance(b, T):
                    return tm.ite(c, ta, tb)
                return PhiV(c, a, b) if not isinstance(a, bool) else tm.ite(c, ta, tb)
            return PhiV(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.mv(c, x, y) for x, y in zip(a, b))
        if isinstance(a, ArrV) and type(a) is type(b) and a.cid == b.cid:
            return a
        return PhiV(c, a, b)

    def mcell(self, c, a, b):
        if type(a) is type(b):
            if isinstance(a, ArrCell) and a.base is None and b.base is None:
                if a.val is b.val:
                    return a
                if len(a.val.dims) == len(b.val.dims) and all(x is y for x, y in zip(a.val.dims, b.val.dims)):
                    return ArrCell(arr_ite(c, a.val, b.val), a.owners | b.owners)
            if isinstance(a, ListCell) and len(a.items) == len(b.items) and not any(isinstance(x, Seg) for x in a.items + b.items):
                return ListCell([self.mv(c, x, y) for x, y in zip(a.items, b.items)], a.owners | b.owners)
            if isinstance(a, DictCell):
                ka, kb = [k for k, _ in a.items], [k for k, _ in b.items]
                if ka == kb:
                    return DictCell([(k, self.mv(c, x, y)) for (k, x), (_, y) in zip(a.items, b.items)], a.owners | b.owners, a.default)
            if isinstance(a, ObjCell) and a.cls is b.cls:
                out = {}
                for n in list(a.attrs) + [x for x in b.attrs if x not in a.attrs]:
                    va, vb = a.attrs.get(n, UNDEF), b.attrs.get(n, UNDEF)
                    out[n] = va if va is vb else self.mv(c, va, vb)
                return ObjCell(a.cls, out)
        return PhiCell(c, a, b)

    def fork2(self, c, f):
        """run f() in two copies of the state, under c and not c; returns merged outcome dict"""
        s0 = self.st
        outs = []
        for cc in (c, tm.not_(c)):
            s = s0.fork()
            s.assume(cc)
            self.st = s
            outs.append(f())
        return self.merge_out(*outs)

    def merge_out(self, o1, o2):
        out = dict(o1)
        for k, s in o2.items():
            out[k] = self.merge(out.get(k), s)
        return out

    def branch(self, c, f, g):
        """expression-level branch: value of f() under c, g() otherwise"""
        d = self.decide(c)
        if d is not None:
            return f() if d else g()
        s0 = self.st
        res = []
        for cc, h in ((c, f), (tm.not_(c), g)):
            self.st = s0.fork()
            self.st.assume(cc)
            try:
                v = h()
                self.st.ret = v
                res.append(self.st)
            except PyRaise as e:
                self.st.exc = e.exc
                self.sinks[-1].append(self.st)
                res.append(None)
        if res[0] is None and res[1] is None:
            self.st = s0
            raise PyRaise(ExcV("Exception", ("both branches raise",)))
        self.st = self.merge(res[0], res[1])
        v, self.st.ret = self.st.ret, s0.ret
        return v

    def require(self, c, exc, args=()):
        """raise exc unless c"""
        d = self.decide(c)
        if d is True:
            return
        if d is False:
            raise PyRaise(ExcV(exc, args))
        s = self.st.fork()
        s.assume(tm.not_(c))
        s.exc = ExcV(exc, args)
        s.exc.loc = self.loc()
        self.sinks[-1].append(s)
        self.st.assume(c)

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.ext:
            v = self.ext[name]
            if callable(v):
                v = v()
            self.modules[name] = v
            return v
        for prefix, d in self.roots:
            if name == prefix or name.startswith(prefix + "."):
                base = os.path.join(d, *name.split("."))
                for p in (base + ".py", os.path.join(base, "__init__.py")):
                    if os.path.exists(p):
                        return self._load_file(name, p)
                return None
        v = ExtV(name)
        self.modules[name] = v
        return v

    def _load_file(self, name, path):
        src = open(path).read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src)
        if self.small_file == os.path.basename(path):
            shrink_literals(tree, self.small_keep, self.small_first)
        m = Module(name, path)
        self.nid += 1
        fid = ("mod", name)
        self.modframes[fid] = {"__name__": name}
        mv = ModV(name, fid)
        mv.module = m
        mv.tree = tree
        self.modules[name] = mv
        fr = Frame(fid, None, m)
        save = self.mod, self.node
        self.mod = m
        self.stack.append((m, "<module>", None))
        try:
            for s in tree.body:
                try:
                    out = self.exec_stmt(s, fr)
                except PyRaise as e:
                    raise Undecided("module %s raises at import: %s" % (name, e.exc.name))
                if NEXT not in out:
                    raise Undecided("module %s does not complete" % name)
                self.st = out[NEXT]
        finally:
            self.stack.pop()
            self.mod, self.node = save
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            pv = self.load(par)
            if isinstance(pv, ModV):
                self.modframes[pv.frame].setdefault(leaf, mv)
        return mv

    # ------------------------------------------------------------ variables
    def fr_(self, fid):
        return self.modframes[fid] if fid[0] == "mod" else self.st.frames.get(fid)

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            d = self.fr_(f.fid)
            if d is not None and name in d and not (f.is_class and f is not fr):
                v = d[name]
                if v is UNDEF:
                    raise PyRaise(ExcV("UnboundLocalError", (name,)))
                return v
            if name in f.locals and not f.is_class:
                raise PyRaise(ExcV("UnboundLocalError", (name,)))
            f = f.parent
        if name in self.builtins:
            return self.builtins[name]
        raise PyRaise(ExcV("NameError", (name,)))

    def assign_name(self, name, v, fr):
        f = fr
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in self.fr_(f.fid):
                f = f.parent
            if f is None:
                raise Undecided("nonlocal " + name)
        if name in fr.globals:
            while f.parent is not None:
                f = f.parent
        self.fr_(f.fid)[name] = v

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        out = {}
        self_state_alive = True
        for s in stmts:
            o = self.exec_stmt(s, fr)
            nxt = o.pop(NEXT, None)
            for k, st in o.items():
                out[k] = self.merge(out.get(k), st)
            if nxt is None:
                self_state_alive = False
                break
            self.st = nxt
        if self_state_alive:
            out[NEXT] = self.st
        return out

    def exec_stmt(self, s, fr, retry=0):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Undecided("step limit")
        self.node = s
        if self.stack:
            self.covered_lines.setdefault((fr.module.path, self.stack[-1][1]), set()).add(s.lineno)
        h = getattr(self, "s_" + type(s).__name__, None)
        if h is None:
            raise Undecided("statement " + type(s).__name__)
        snap = self.st.fork()
        nsink = len(self.sinks[-1])
        stk, depth, nsk = list(self.stack), self.depth, len(self.sinks)
        try:
            return h(s, fr)
        except NeedFork as e:
            self.stack[:] = stk
            self.depth = depth
            del self.sinks[nsk:]
            del self.sinks[-1][nsink:]
            self.mod, self.node = fr.module, s
            self.st = snap
            if retry > 60:
                raise Undecided("too many case distinctions in one statement at line %d" % s.lineno)
            return self.fork2(e.c, lambda: self.exec_stmt(s, fr, retry + 1))
        except PyRaise as e:
            self.stack[:] = stk
            self.depth = depth
            del self.sinks[nsk:]
            self.mod = fr.module
            self.node = s
            if not hasattr(e.exc, "loc"):
                try:
                    e.exc.loc = self.loc()
                except Exception:
                    pass
            self.st.exc = e.exc
            return {RAISE: self.st}

    def nxt(self):
        return {NEXT: self.st}

    def s_Pass(self, s, fr):
        return self.nxt()

    def s_Break(self, s, fr):
        return {BRK: self.st}

    def s_Continue(self, s, fr):
        return {CONT: self.st}

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return self.nxt()
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            v = self.ev(s.value.value, fr)
            acc = self.st.frames[fr.fid]["__yield__"]
            if isinstance(s.value, ast.Yield):
                c = self.cell(acc)
                self.st.heap[acc.cid] = ListCell(c.items + (v,))
            else:
                self.st.heap[acc.cid] = ListCell(self.cell(acc).items + tuple(self.iter_items(v)))
            return self.nxt()
        self.ev(s.value, fr)
        return self.nxt()

    def s_Import(self, s, fr):
        for a in s.names:
            v = self.load(a.name)
            if v is None:
                raise PyRaise(ExcV("ImportError", (a.name,)))
            if a.asname:
                self.assign_name(a.asname, v, fr)
            else:
                root = a.name.split(".")[0]
                self.assign_name(root, self.load(root), fr)
        return self.nxt()

    def s_ImportFrom(self, s, fr):
        name = s.module or ""
        if s.level:
            base = fr.module.name.split(".")
            if not fr.module.path.endswith("__init__.py"):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = ".".join(base + ([s.module] if s.module else []))
        m = self.load(name)
        if m is None:
            raise PyRaise(ExcV("ImportError", (name,)))
        for a in s.names:
            if a.name == "*":
                if isinstance(m, ModV) and m.frame:
                    for k, v in list(self.modframes[m.frame].items()):
                        if not k.startswith("_"):
                            self.assign_name(k, v, fr)
                elif isinstance(m, ModV):
                    from . import pylib
                    for k, v in pylib.PYMODS.get(m.name, {}).items():
                        self.assign_name(k, v, fr)
                continue
            v = None
            if isinstance(m, ModV) and m.frame is not None and a.name in self.modframes[m.frame]:
                v = self.modframes[m.frame][a.name]
            elif isinstance(m, ModV) and m.frame is not None:
                v = self.load(name + "." + a.name)
                if v is None:
                    raise PyRaise(ExcV("ImportError", (name + "." + a.name,)))
            else:
                v = self.getattr(m, a.name)
            self.assign_name(a.asname or a.name, v, fr)
        return self.nxt()

    def s_FunctionDef(self, s, fr):
        f = self.make_func(s, fr, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr)
            v = self.decorate(dv, v)
        self.assign_name(s.name, v, fr)
        return self.nxt()

    def decorate(self, dv, f):
        if isinstance(dv, BuiltinV) or isinstance(dv, TypeV):
            n = dv.name
            if n in ("staticmethod", "classmethod", "property"):
                g = FuncV(f.node, f.frame, f.module, f.name, f.defaults, f.kwdefaults, f.cls)
                g.kind = n
                return g
            if n in ("abstractmethod",):
                return f
        if isinstance(dv, ExtV):
            return f
        return self.call(dv, [f], {})

    def make_func(self, node, fr, name):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {p.arg: self.ev(d, fr) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f = FuncV(node, fr, fr.module, name, defaults, kwd, is_lambda=isinstance(node, ast.Lambda))
        g = fr
        while g is not None:
            g.captured = True
            g = g.parent
        return f

    def s_ClassDef(self, s, fr):
        bases = [self.res(self.ev(b, fr)) for b in s.bases]
        self.nid += 1
        fid = ("cls", self.nid)
        self.st.frames[fid] = {}
        cf = Frame(fid, fr, fr.module)
        cf.is_class = True
        o = self.exec_block(s.body, cf)
        if NEXT not in o:
            raise Undecided("class body of %s" % s.name)
        self.st = o[NEXT]
        attrs = self.st.frames.pop(fid)
        c = ClassV(s.name, bases, attrs, fr.module, s)
        for v in attrs.values():
            if isinstance(v, FuncV):
                v.cls = c
        for d in s.decorator_list:
            dv = self.ev(d, fr)
            if isinstance(dv, ExtV) and dv.path.startswith("dataclasses"):
                raise Undecided("dataclass")
        self.assign_name(s.name, c, fr)
        return self.nxt()

    def s_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else None
        self.st.ret = v
        return {RET: self.st}

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)
        return self.nxt()

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)
        return self.nxt()

    def s_AugAssign(self, s, fr):
        t = s.target
        load = ast.copy_location(_as_load(t), t)
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr)
            idx = self.ev_index(t.slice, fr)
            old = self.getitem(base, idx)
            rhs = self.ev(s.value, fr)
            new = self.aug(s.op, old, rhs)
            self.setitem(base, idx, new)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, fr)
            old = self.getattr(base, t.attr)
            new = self.aug(s.op, old, self.ev(s.value, fr))
            self.setattr(base, t.attr, new)
        else:
            old = self.ev(load, fr)
            new = self.aug(s.op, old, self.ev(s.value, fr))
            self.assign(t, new, fr)
        return self.nxt()

    def aug(self, op, old, rhs):
        o = self.res(old) if isinstance(old, PhiV) and not is_arrlike(old) else old
        if type(o) is ArrV:
            a = self.np.toarr(self, o)
            if a.dims:
                r = self.np.toarr(self, self.binop(op, o, rhs))
                r = self.np.broadcast_to(self, r, a.dims)
                if a.dtype == "int" and r.dtype in ("float", "float32") and isinstance(op, ast.Div):
                    raise PyRaise(ExcV("TypeError", ("in-place division of an integer array",)))
                if a.dtype == "int" and r.dtype in ("float", "float32"):
                    raise PyRaise(ExcV("UFuncTypeError", ("in-place float operation on an integer array",)))
                self.np.write_all(self, o, r)
                return o
        if type(o) is ListV and isinstance(op, ast.Add):
            self.np.list_extend(self, o, rhs)
            return o
        return self.binop(op, old, rhs)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.frames[fr.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.np.delitem(self, self.res(self.ev(t.value, fr)), self.ev_index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.res(self.ev(t.value, fr))
                c = self.cell(o)
                at = dict(c.attrs)
                at.pop(t.attr, None)
                self.st.heap[o.cid] = ObjCell(c.cls, at)
        return self.nxt()

    def s_Global(self, s, fr):
        fr.globals.update(s.names)
        return self.nxt()

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)
        return self.nxt()

    def s_Assert(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        self.require(c, "AssertionError")
        return self.nxt()

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise PyRaise(self.st.exc or ExcV("RuntimeError"))
        v = self.res(self.ev(s.exc, fr))
        if isinstance(v, TypeV):
            v = ExcV(v.name)
        if isinstance(v, ClassV):
            v = ExcV(v.name)
        if not isinstance(v, ExcV):
            v = ExcV("Exception", (v,))
        raise PyRaise(v)

    def s_If(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        d = self.decide(c)
        if d is not None:
            return self.exec_block(s.body if d else s.orelse, fr)
        s0 = self.st
        outs = []
        for cc, blk in ((c, s.body), (tm.not_(c), s.orelse)):
            self.st = s0.fork()
            self.st.assume(cc)
            outs.append(self.exec_block(blk, fr))
        return self.merge_out(*outs)

    def s_With(self, s, fr):
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        return self.exec_block(s.body, fr)

    def s_While(self, s, fr):
        out = {}
        n = forks = 0
        while True:
            # condition evaluated as an If
            c = self.truth(self.ev(s.test, fr))
            d = self.decide(c)
            if d is None:
                forks += 1
                if forks > 24:
                    raise Undecided("while loop with an unbounded number of iterations")
                s0 = self.st
                self.st = s0.fork()
                self.st.assume(tm.not_(c))
                ex = self.exec_block(s.orelse, fr)
                for k, st in ex.items():
                    kk = "exit" if k == NEXT else k
                    out[kk] = self.merge(out.get(kk), st)
                self.st = s0
                self.st.assume(c)
            elif not d:
                ex = self.exec_block(s.orelse, fr)
                for k, st in ex.items():
                    kk = "exit" if k == NEXT else k
                    out[kk] = self.merge(out.get(kk), st)
                break
            n += 1
            if n == 1 and endless(s):
                self.st.exc = ExcV("NonTermination", ("the loop is never left: nothing in it changes its condition",))
                self.st.exc.loc = self.loc()
                out[RAISE] = self.merge(out.get(RAISE), self.st)
                break
            if n > 130:
                raise Undecided("while loop with an unbounded number of iterations")
            o = self.exec_block(s.body, fr)
            nx = self.merge(o.pop(NEXT, None), o.pop(CONT, None))
            br = o.pop(BRK, None)
            if br is not None:
                out["exit"] = self.merge(out.get("exit"), br)
            for k, st in o.items():
                out[k] = self.merge(out.get(k), st)
            if nx is None:
                break
            self.st = nx
        e = out.pop("exit", None)
        if e is not None:
            out[NEXT] = e
            self.st = e
        return out

    def s_Try(self, s, fr):
        self.sinks.append([])
        try:
            o = self.exec_block(s.body, fr)
        finally:
            side = self.sinks.pop()
        out = {}
        rs = side
        if RAISE in o:
            rs = rs + [o.pop(RAISE)]
        nxt = o.pop(NEXT, None)
        if nxt is not None:
            self.st = nxt
            oo = self.exec_block(s.orelse, fr)
            for k, st in oo.items():
                out[k] = self.merge(out.get(k), st)
        for k, st in o.items():
            out[k] = self.merge(out.get(k), st)
        for st in rs:
            self.st = st
            oo = self.handle(s, st, fr)
            for k, st2 in oo.items():
                out[k] = self.merge(out.get(k), st2)
        if s.finalbody:
            fin = {}
            for k, st in out.items():
                self.st = st
                ret, exc = st.ret, st.exc
                oo = self.exec_block(s.finalbody, fr)
                for k2, st2 in oo.items():
                    kk = k if k2 == NEXT else k2
                    if k2 == NEXT:
                        st2.ret, st2.exc = ret, exc
                    fin[kk] = self.merge(fin.get(kk), st2)
            out = fin
        if NEXT in out:
            self.st = out[NEXT]
        return out

    def handle(self, s, st, fr):
        exc = self.res(st.exc) if isinstance(st.exc, PhiV) else st.exc
        for h in s.handlers:
            if h.type is None:
                ok = True
            else:
                tv = self.ev(h.type, fr)
                ts = tv if isinstance(tv, tuple) else (tv,)
                ok = any(self.np.exc_matches(exc, t) for t in ts)
            if ok:
                if h.name:
                    self.assign_name(h.name, exc, fr)
                return self.exec_block(h.body, fr)
        return {RAISE: st}

    # ------------------------------------------------------------ for loops
    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        seq = self.iterate(it)
        if seq[0] == "items":
            xs = seq[1]
            if len(xs) > 12 and all(isinstance(x, int) and not isinstance(x, bool) for x in xs) and not s.orelse and not _has_break(s.body):
                d = xs[1] - xs[0]
                if all(b - a == d for a, b in zip(xs, xs[1:])):
                    # a long counted loop: one closed form rather than many unrolled copies
                    snap, ns = self.st.fork(), len(self.sinks[-1])
                    try:
                        return self.for_sym(s, fr, tm.num(len(xs)), lambda v: tm.add(xs[0], tm.scale(v, d)))
                    except Undecided:
                        self.st = snap
                        del self.sinks[-1][ns:]
            return self.for_items(s, fr, xs)
        return self.for_sym(s, fr, seq[1], seq[2])

    def for_items(self, s, fr, items):
        out = {}
        alive = True
        for x in items:
            self.node = s
            o0 = self._stmt_guard(lambda: (self.assign(s.target, x, fr), self.nxt())[1], fr, s)
            if NEXT not in o0:
                for k, st in o0.items():
                    out[k] = self.merge(out.get(k), st)
                alive = False
                break
            self.st = o0[NEXT]
            o = self.exec_block(s.body, fr)
            nx = self.merge(o.pop(NEXT, None), o.pop(CONT, None))
            br = o.pop(BRK, None)
            if br is not None:
                out["exit"] = self.merge(out.get("exit"), br)
            for k, st in o.items():
                out[k] = self.merge(out.get(k), st)
            if nx is None:
                alive = False
                break
            self.st = nx
        if alive:
            oo = self.exec_block(s.orelse, fr)
            for k, st in oo.items():
                kk = "exit" if k == NEXT else k
                out[kk] = self.merge(out.get(kk), st)
        e = out.pop("exit", None)
        if e is not None:
            out[NEXT] = e
            self.st = e
        return out

    def _stmt_guard(self, f, fr, s, depth=0):
        snap = self.st.fork()
        try:
            return f()
        except NeedFork as e:
            self.st = snap
            if depth > 60:
                raise Undecided("too many case distinctions in one statement at line %d" % s.lineno)
            return self.fork2(e.c, lambda: self._stmt_guard(f, fr, s, depth + 1))

    def for_sym(self, s, fr, n, elem):
        """summarise `for target in (elem(v) for v in range(n))` with n symbolic"""
        if s.orelse or _has_break(s.body):
            raise Undecided("for loop with break/else over a symbolic range at line %d" % s.lineno)
        v = tm.fresh(n, "loop")
        pre = self.st
        # pass 1: what does one iteration write?
        changed = self._iter_diff(s, fr, v, elem, pre.fork())
        for _ in range(3):
            self.st, mus = self._placeholders(pre.fork(), changed)
            entry = self.st.fork()
            post = self._iter(s, fr, v, elem, self.st)
            new = self._diff(entry, post)
            if new <= changed:
                break
            changed |= new
        else:
            raise Undecided("loop summary does not stabilise")
        # close every changed location
        out = pre.fork()
        out.events = list(pre.events)
        i = len(entry.events)
        for e in post.events[i:]:
            out.events.append(Event(tm.TRUE, "loop", (n, v, e), e.loc))
        muset = frozenset(m for m in mus["syms"])
        extra = [c for c in post.pc[len(entry.pc):]]
        for c in extra:
            if c.op == "not" or muset & c.fv or v in c.fv:
                # facts established in each iteration (assertions) hold for every index
                if muset & c.fv:
                    continue
                out.assume(tm.not_(tm.red_v("any", n, v, TRUE, tm.not_(c))))
            else:
                out.assume(c)
        for k in post.heap:
            if k not in pre.heap:
                out.heap.setdefault(k, post.heap[k])
        for loc in changed:
            self.st = out
            self._close(loc, pre, entry, post, out, n, v, mus, muset)
        for fid, d in post.frames.items():
            if fid not in out.frames:
                out.frames[fid] = d
        self.st = out
        return self.nxt()

    def _iter(self, s, fr, v, elem, st):
        self.st = st
        self.assign(s.target, elem(v), fr)
        o = self.exec_block(s.body, fr)
        st2 = self.merge(o.pop(NEXT, None), o.pop(CONT, None))
        if o:
            if set(o) == {RAISE}:
                self.sinks[-1].append(o[RAISE])
            else:
                raise Undecided("loop body leaves the loop at line %d" % s.lineno)
        if st2 is None:
            raise Undecided("loop body never completes")
        return st2

    def _iter_diff(self, s, fr, v, elem, st):
        e = st.fork()
        n = len(self.sinks[-1])
        post = self._iter(s, fr, v, elem, st)
        del self.sinks[-1][n:]
        return self._diff(e, post)

    def _diff(self, a, b):
        ch = set()
        for fid, d in b.frames.items():
            d0 = a.frames.get(fid)
            if d0 is None:
                continue
            for k, x in d.items():
                if d0.get(k, UNDEF) is not x:
                    ch.add(("var", fid, k))
        for cid, c in b.heap.items():
            c0 = a.heap.get(cid)
            if c0 is None or c0 is c:
                continue
            if isinstance(c, ObjCell) and isinstance(c0, ObjCell):
                for k, x in c.attrs.items():
                    if c0.attrs.get(k, UNDEF) is not x:
                        ch.add(("attr", cid, k))
            elif isinstance(c, DictCell) and isinstance(c0, DictCell) and [k for k, _ in c.items] == [k for k, _ in c0.items]:
                for (k, x), (_, y) in zip(c.items, c0.items):
                    if x is not y:
                        ch.add(("item", cid, k))
            else:
                ch.add(("cell", cid))
        return ch

    def _read(self, st, loc):
        if loc[0] == "var":
            return st.frames.get(loc[1], {}).get(loc[2], UNDEF)
        if loc[0] == "attr":
            return st.heap[loc[1]].attrs.get(loc[2], UNDEF)
        if loc[0] == "item":
            return dict(st.heap[loc[1]].items)[loc[2]]
        return st.heap[loc[1]]

    def _put(self, st, loc, x):
        if loc[0] == "var":
            st.frames[loc[1]][loc[2]] = x
        elif loc[0] == "attr":
            c = st.heap[loc[1]]
            at = dict(c.attrs)
            at[loc[2]] = x
            st.heap[loc[1]] = ObjCell(c.cls, at)
        elif loc[0] == "item":
            c = st.heap[loc[1]]
            st.heap[loc[1]] = DictCell([(k, x if k == loc[2] else y) for k, y in c.items], c.owners, c.default)
        else:
            st.heap[loc[1]] = x

    def _placeholders(self, st, changed):
        mus = {"syms": [], "at": {}}
        for loc in changed:
            old = self._read(st, loc)
            if loc[0] == "cell":
                c = old
                if isinstance(c, ArrCell) and c.base is None:
                    name = "mu%d" % next(tm._fresh)
                    tok = tm.sym(name, "real", True)
                    mus["syms"].append(tok)
                    mus["at"][loc] = tok
                    dims, dt = c.val.dims, c.val.dtype
                    st.heap[loc[1]] = ArrCell(Arr(dims, lambda *i, tok=tok: tm.mk("app", "mu", tok, *i), dt), c.owners)
                elif isinstance(c, ListCell):
                    mus["at"][loc] = len(c.items)
                elif isinstance(c, DictCell):
                    raise Undecided("dict grows in a symbolic loop")
                else:
                    raise Undecided("loop writes an unsupported location")
            elif old is UNDEF:
                continue
            elif is_scalar(old) and not (isinstance(old, T) and old.op == "str"):
                tok = tm.sym("mu%d" % next(tm._fresh), "bool" if tm.is_bool(num(old)) else "real", True)
                mus["syms"].append(tok)
                mus["at"][loc] = tok
                self._put(st, loc, tok)
            elif loc[0] == "var":
                # non-scalar variable (array, list, ...): poison it; reading it is a loop-carried dependence
                mus["at"][loc] = "poison"
                st.frames[loc[1]][loc[2]] = Poison()
            else:
                raise Undecided("loop-carried value at %s" % (loc,))
        return st, mus

    def _close(self, loc, pre, entry, post, out, n, v, mus, muset):
        old = self._read(pre, loc)
        new = self._read(post, loc)
        tok = mus["at"].get(loc)
        nonempty = tm.lt(0, n)
        last = tm.sub(n, 1)
        if loc[0] == "cell":
            if isinstance(new, ListCell):
                k = tok
                if len(new.items) < k or any(x is not y for x, y in zip(new.items[:k], old.items)):
                    raise Undecided("list rewritten in a symbolic loop")
                app = new.items[k:]
                self.st = post
                fz = [self.freeze(x) for x in app]
                self.st = out
                for f in fz:
                    if frozen_fv(f) & muset:
                        raise Undecided("appended value depends on earlier iterations")
                if len(fz) == 1:
                    seg = Seg(n, lambda i, f=fz[0]: frozen_subst(f, {v: num(i)}))
                    out.heap[loc[1]] = ListCell(old.items + (seg,), old.owners)
                    return
                raise Undecided("several appends per iteration")
            if isinstance(new, ArrCell):
                if new.base is not None:
                    raise Undecided("view rebinding")
                a0, a1 = old.val, new.val
                w = [tm.fresh(d, "w") for d in a0.dims]
                t = a1(*w)
                m = tm.mk("app", "mu", tok, *w)
                r = self._close_elem(t, m, a0(*w), n, v, muset, w)
                if r is None:
                    raise Undecided("array update in a symbolic loop is not a scatter")
                out.heap[loc[1]] = ArrCell(Arr(a0.dims, lambda *i: tm.subst(r, dict(zip(w, [num(x) for x in i]))), a1.dtype), old.owners)
                return
            raise Undecided("cell kind in loop")
        if isinstance(new, Poison) or tok == "poison":
            if isinstance(new, Poison):
                return
        if isinstance(tok, T):
            if not is_scalar(new):
                raise Undecided("variable changes type in loop")
            r = self._close_scalar(num(new), tok, num(old), n, v, muset)
            if r is None:
                raise Undecided("no closed form for a loop-carried value")
            self._put(out, loc, r)
            return
        # not loop carried: value of the last iteration
        self.st = post
        f = self.freeze(new)
        self.st = out
        if frozen_fv(f) & muset:
            raise Undecided("loop-carried value")
        x = self.thaw(frozen_subst(f, {v: last}))
        d = implied(out.known, nonempty)
        if d is TRUE or old is UNDEF:
            self._put(out, loc, x)
        else:
            self._put(out, loc, self.mv(nonempty, x, old))

    def _close_scalar(self, t, mu, old, n, v, muset):
        if not (t.fv & muset):
            return tm.ite(tm.lt(0, n), tm.subst(t, {v: tm.sub(n, 1)}), old)
        d = tm.sub(t, mu) if not tm.is_bool(t) else None
        if d is not None and not (d.fv & muset):
            return tm.add(old, tm.sum_v(n, v, TRUE, d))
        if d is not None and d.op == "ite" or t.op == "ite":
            # conditional accumulation: ite(c, mu + e, mu)
            if t.op == "ite" and not (t.args[0].fv & muset):
                x, y = tm.sub(t.args[1], mu), tm.sub(t.args[2], mu)
                if not (x.fv & muset) and not (y.fv & muset):
                    return tm.add(old, tm.sum_v(n, v, TRUE, tm.ite(t.args[0], x, y)))
        if t.op == "or" and mu in t.args:
            e = tm.or_(*[x for x in t.args if x is not mu])
            if not (e.fv & muset):
                return tm.or_(old, tm.red_v("any", n, v, TRUE, e))
        if t.op == "and" and mu in t.args:
            e = tm.and_(*[x for x in t.args if x is not mu])
            if not (e.fv & muset):
                return tm.and_(old, tm.not_(tm.red_v("any", n, v, TRUE, tm.not_(e))))
        if t.op in ("max", "min") and mu in t.args:
            e = [x for x in t.args if x is not mu]
            if len(e) == 1 and not (e[0].fv & muset):
                return tm.minmax(t.op, old, tm.red_v("rmax" if t.op == "max" else "rmin", n, v, TRUE, e[0]))
        return None

    def _close_elem(self, t, m, old, n, v, muset, w):
        if t is m:
            return old
        d = tm.sub(t, m) if not tm.is_bool(t) else None
        if d is not None and not (d.fv & muset):
            return tm.add(old, tm.sum_v(n, v, TRUE, d))
        if t.op == "ite":
            c, a, b = t.args
            if c.fv & muset:
                return None
            if a is m:
                c, a, b = tm.not_(c), b, a
            if b is m:
                # c must pin v to one iteration
                for x in (c.args if c.op == "and" else (c,)):
                    if x.op == "eq0" and v in x.fv:
                        k = tm.solve(x.args[0], v)
                        if k is not None:
                            cc = tm.and_(tm.subst(c, {v: k}), tm.le(0, k), tm.lt(k, n))
                            e = a
                            if e.fv & muset:
                                e = tm.replace(e, m, old)
                            if e.fv & muset:
                                return None
                            return tm.ite(cc, tm.subst(e, {v: k}), old)
                if v not in c.fv and not (a.fv & muset):
                    return tm.ite(tm.and_(c, tm.lt(0, n)), tm.subst(a, {v: tm.sub(n, 1)}), old)
            if v not in c.fv:
                x = self._close_elem(a, m, old, n, v, muset, w)
                y = self._close_elem(b, m, old, n, v, muset, w)
                if x is not None and y is not None:
                    return tm.ite(c, x, y)
            return None
        if not (t.fv & muset):
            return tm.ite(tm.lt(0, n), tm.subst(t, {v: tm.sub(n, 1)}), old)
        return None

    # ------------------------------------------------------------ iteration protocol
    def iterate(self, it):
        """('items', [values]) or ('sym', n, v -> value)"""
        it = self.res(it) if isinstance(it, PhiV) else it
        r = self.np.iter_value(self, it)
        return r

    def iter_items(self, it):
        r = self.iterate(it)
        if r[0] != "items":
            raise Undecided("symbolic length where a concrete one is needed")
        return r[1]

    # ------------------------------------------------------------ freezing
    def freeze(self, v):
        """a value independent of the heap"""
        if v is None or isinstance(v, (bool, int, Fraction, str, T)):
            return v
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        if isinstance(v, PhiV):
            d = self.decide(v.c)
            if d is not None:
                return self.freeze(v.a if d else v.b)
            return PhiV(v.c, self.freeze(v.a), self.freeze(v.b))
        if isinstance(v, Arr):
            return v
        if isinstance(v, ListV):
            c = self.st.heap[v.cid]
            return self._fzcell(c)
        if isinstance(v, DictV):
            return self._fzcell(self.st.heap[v.cid])
        if isinstance(v, ObjV):
            return v
        if isinstance(v, ArrV):
            c = self.st.heap[v.cid]
            if isinstance(c, PhiCell):
                return self._fzcell(c)
            return self.np.cellval(self, c)
        return v

    def _fzcell(self, c):
        if isinstance(c, PhiCell):
            d = self.decide(c.c)
            if d is not None:
                return self._fzcell(c.a if d else c.b)
            return PhiV(c.c, self._fzcell(c.a), self._fzcell(c.b))
        if isinstance(c, ListCell):
            return FList([x if isinstance(x, Seg) else self.freeze(x) for x in c.items])
        if isinstance(c, DictCell):
            return FDict([(k, self.freeze(x)) for k, x in c.items])
        if isinstance(c, ArrCell):
            return self.np.cellval(self, c)
        raise Undecided("freeze " + type(c).__name__)

    def thaw(self, f):
        if isinstance(f, tuple):
            return tuple(self.thaw(x) for x in f)
        if isinstance(f, Arr):
            if not f.dims:
                return f()
            return self.arr(f)
        if isinstance(f, FList):
            return self.list([x if isinstance(x, Seg) else self.thaw(x) for x in f.items])
        if isinstance(f, FDict):
            return self.dict([(k, self.thaw(x)) for k, x in f.items])
        if isinstance(f, PhiV):
            return PhiV(f.c, self.thaw(f.a), self.thaw(f.b))
        return f

    # ------------------------------------------------------------ assignment targets
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr)
            self.setitem(base, self.ev_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iter_items(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                m = len(t.elts) - k - 1
                items = list(items)
                vals = items[:k] + [self.list(items[k:len(items) - m])] + items[len(items) - m:]
                for e, x in zip(t.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(items) != len(t.elts):
                raise PyRaise(ExcV("ValueError", ("unpack",)))
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Undecided("assignment target")

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, PhiV) and is_arrlike_phi(self, o):
            return self.np.arr_attr(self, o, name)
        o = self.res(o)
        if isinstance(o, Poison):
            raise Undecided("loop-carried object")
        if isinstance(o, ObjV):
            c = self.cell(o)
            if name == "__class__":
                return c.cls
            if name == "__dict__":
                return self.dict(list(c.attrs.items()))
            if name in c.attrs:
                v = c.attrs[name]
                if v is UNDEF:
                    raise PyRaise(ExcV("AttributeError", (name,)))
                if isinstance(v, PhiV) and (v.a is UNDEF or v.b is UNDEF):
                    v = self.res(v)
                    if v is UNDEF:
                        raise PyRaise(ExcV("AttributeError", (name,)))
                return v
            return self.class_attr(c.cls, name, o)
        if isinstance(o, ClassV):
            if name == "__name__":
                return o.name
            v, _ = o.lookup(name)
            if v is None:
                if name == "__mro__":
                    return tuple(o.mro())
                raise PyRaise(ExcV("AttributeError", (o.name + "." + name,)))
            if isinstance(v, FuncV) and v.kind == "classmethod":
                return BoundV(o, v)
            return v
        if isinstance(o, SuperV):
            m = self.cell(o.self_).cls.mro() if isinstance(o.self_, ObjV) else o.self_.mro()
            i = m.index(o.cls)
            for c in m[i + 1:]:
                if name in c.attrs:
                    f = c.attrs[name]
                    if isinstance(f, FuncV):
                        if f.kind == "staticmethod":
                            return f
                        if f.kind == "property":
                            return self.call(f, [o.self_], {})
                        return BoundV(o.self_, f)
                    return f
            if name == "__init__":
                return BuiltinV("object.__init__", lambda I, a, k: None)
            raise PyRaise(ExcV("AttributeError", (name,)))
        if isinstance(o, ModV):
            if o.frame is None:
                return self.np.np_attr(self, o, name)
            d = self.modframes[o.frame]
            if name in d:
                return d[name]
            v = self.load(o.name + "." + name) if self._has_mod(o.name + "." + name) else None
            if v is None:
                raise PyRaise(ExcV("AttributeError", (o.name + "." + name,)))
            return v
        return self.np.attr(self, o, name)

    def _has_mod(self, name):
        for prefix, d in self.roots:
            if name.startswith(prefix + "."):
                b = os.path.join(d, *name.split("."))
                return os.path.exists(b + ".py") or os.path.isdir(b)
        return False

    def class_attr(self, cls, name, o):
        v, _ = cls.lookup(name)
        if v is None:
            if name in cls.all_names() if hasattr(cls, "all_names") else False:
                return None
            for b in cls.mro():
                for x in b.bases:
                    if isinstance(x, ExtV):
                        return ExtV(x.path + "." + name)
            raise PyRaise(ExcV("AttributeError", ("'%s' object has no attribute '%s'" % (cls.name, name),)))
        if isinstance(v, FuncV):
            if v.kind == "staticmethod":
                return v
            if v.kind == "classmethod":
                return BoundV(cls, v)
            if v.kind == "property":
                return self.call(v, [o], {})
            return BoundV(o, v)
        return v

    def setattr(self, o, name, v):
        o = self.res(o)
        if isinstance(o, ObjV):
            c = self.cell(o)
            at = dict(c.attrs)
            at[name] = v
            self.st.heap[o.cid] = ObjCell(c.cls, at)
            return
        if isinstance(o, ClassV):
            raise Undecided("class attribute assignment")
        if isinstance(o, (ExtV, FuncV)):
            return
        raise Undecided("setattr on " + type(o).__name__)

    # ------------------------------------------------------------ items
    def getitem(self, o, idx):
        return self.np.getitem(self, o, idx)

    def setitem(self, o, idx, v):
        return self.np.setitem(self, o, idx, v)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, PhiV):
            d = self.decide(v.c)
            if d is not None:
                return self.truth(v.a if d else v.b)
            return tm.ite(v.c, self.truth(v.a), self.truth(v.b))
        if v is None:
            return FALSE
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, (int, Fraction)):
            return TRUE if v != 0 else FALSE
        if isinstance(v, str):
            return TRUE if v else FALSE
        if isinstance(v, T):
            if tm.is_bool(v):
                return v
            if v.op == "unknown":
                raise Undecided("branch on unknown: " + str(v.args[0]))
            if v.op == "str":
                return TRUE
            return tm.not_(tm.eq(v, ZERO))
        if isinstance(v, tuple):
            return TRUE if v else FALSE
        if isinstance(v, (ListV, DictV, RangeV)):
            return tm.lt(0, num(self.np.length(self, v)))
        if isinstance(v, ArrV):
            a = self.np.toarr(self, v)
            if not a.dims:
                return self.truth(a())
            tot = tm.mul(*a.dims)
            if tot is ONE:
                return self.truth(a(*[ZERO for _ in a.dims]))
            if tot.op == "num" or True:
                raise PyRaise(ExcV("ValueError", ("The truth value of an array is ambiguous",)))
        if isinstance(v, SetV):
            return TRUE if v.items else FALSE
        if isinstance(v, ExtV):
            raise Undecided("truth of external value " + v.path)
        return TRUE

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        h = getattr(self, "e_" + type(e).__name__, None)
        if h is None:
            raise Undecided("expression " + type(e).__name__)
        ln = getattr(e, "lineno", None)
        if ln is not None:
            self.node = e
        return h(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            if v != v:
                return NAN
            if v in (float("inf"), float("-inf")):
                return INF
            return Fraction(repr(v))
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, (bytes, complex)):
            raise Undecided("constant")
        return v

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.ev_index(e.slice, fr))

    def ev_index(self, s, fr):
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, fr) for x in s.elts)
        if isinstance(s, ast.Slice):
            return SliceV(*[self.ev(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.ev(s, fr)

    def e_Slice(self, s, fr):
        return self.ev_index(s, fr)

    def e_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_items(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return tuple(out)

    def e_List(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.res(self.ev(x.value, fr))
                if isinstance(v, ListV):
                    out.extend(self.cell(v).items)
                else:
                    r = self.iterate(v)
                    if r[0] == "items":
                        out.extend(r[1])
                    else:
                        out.append(self.seg(r[1], r[2]))
            else:
                out.append(self.ev(x, fr))
        return self.list(out)

    def seg(self, n, elem):
        w = tm.fresh(n, "seg")
        f = self.freeze(elem(w))
        return Seg(n, lambda i: frozen_subst(f, {w: num(i)}))

    def e_Set(self, e, fr):
        return SetV([self.ev(x, fr) for x in e.elts])

    def e_Dict(self, e, fr):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.cell(self.res(self.ev(v, fr)))
                for kk, vv in src.items:
                    items = [(a, b) for a, b in items if a != kk] + [(kk, vv)]
            else:
                kk = self.np.key(self, self.ev(k, fr))
                vv = self.ev(v, fr)
                items = [(a, b) for a, b in items if a != kk] + [(kk, vv)]
        return self.dict(items)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, "<lambda>")

    def e_IfExp(self, e, fr):
        c = self.truth(self.ev(e.test, fr))
        return self.branch(c, lambda: self.ev(e.body, fr), lambda: self.ev(e.orelse, fr))

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i], fr)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            d = self.decide(c)
            if d is not None:
                return go(i + 1) if d == isand else v
            simple = isinstance(v, T) and tm.is_bool(v)
            if isand:
                r = self.branch(c, lambda: self._bt(go(i + 1), simple), lambda: False if simple else v)
            else:
                r = self.branch(c, lambda: True if simple else v, lambda: self._bt(go(i + 1), simple))
            return r
        return go(0)

    def _bt(self, v, simple):
        if simple and isinstance(v, (T, bool)):
            return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            c = self.truth(v)
            return {TRUE: False, FALSE: True}.get(c, None) if c in (TRUE, FALSE) else tm.not_(c)
        return self.np.unary(self, e.op, v)

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        return self.np.binop(self, op, a, b)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            x = self.np.compare(self, op, left, right)
            if acc is None:
                acc = x
            else:
                c1, c2 = self.truth(acc), self.truth(x)
                acc = tm.and_(c1, c2)
                acc = True if acc is TRUE else False if acc is FALSE else acc
            left = right
        return acc

    def e_Call(self, e, fr):
        f = self.ev(e.func, fr)
        if isinstance(f, TypeV) and f.name == "super" :
            if not e.args:
                # zero-argument super: class of the enclosing method
                g = fr
                while g is not None and g.func is None:
                    g = g.parent
                fn = g.func
                first = fn.node.args.args[0].arg
                return SuperV(fn.cls, self.lookup(first, g))
            a = [self.ev(x, fr) for x in e.args]
            return SuperV(a[0], self.res(a[1]))
        args, kw = [], {}
        for x in e.args:
            if isinstance(x, ast.Starred):
                args.extend(self.iter_items(self.ev(x.value, fr)))
            else:
                args.append(self.ev(x, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.res(self.ev(k.value, fr))
                for kk, vv in self.cell(d).items:
                    if not isinstance(kk, str):
                        raise PyRaise(ExcV("TypeError", ("keywords must be strings",)))
                    if kk in kw:
                        raise PyRaise(ExcV("TypeError", ("got multiple values for keyword argument " + kk,)))
                    kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value, fr)
        self.node = e
        return self.call(f, args, kw)

    def e_JoinedStr(self, e, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.ev(p.value, fr)
                spec = None
                if p.format_spec is not None:
                    spec = self.ev(p.format_spec, fr)
                parts.append(self.np.to_str(self, v, spec))
        return self.np.join_str(parts)

    def e_ListComp(self, e, fr):
        return self.comp(e, fr)

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr)

    def e_SetComp(self, e, fr):
        v = self.comp(e, fr)
        items = []
        for x in self.cell(v).items:
            if x not in items:
                items.append(x)
        return SetV(items)

    def e_Starred(self, e, fr):
        raise Undecided("starred")

    def comp(self, e, fr):
        self.nid += 1
        fid = ("comp", self.nid)
        self.st.frames[fid] = {}
        cf = Frame(fid, fr, fr.module)
        out = []

        def go(k):
            if k == len(e.generators):
                v = self.ev(e.elt, cf)
                out.append(v)
                return
            g = e.generators[k]
            r = self.iterate(self.ev(g.iter, fr if k == 0 else cf))
            if r[0] == "items":
                for x in r[1]:
                    self.assign(g.target, x, cf)
                    ok = True
                    for c in g.ifs:
                        t = self.truth(self.ev(c, cf))
                        d = self.decide(t)
                        if d is None:
                            raise NeedFork(t)
                        if not d:
                            ok = False
                            break
                    if ok:
                        go(k + 1)
                return
            n, elem = r[1], r[2]
            if k != len(e.generators) - 1:
                raise Undecided("nested symbolic comprehension")
            v = tm.fresh(n, "comp")
            nsink = len(self.sinks[-1])
            pc0 = self.st.pc
            self.assign(g.target, elem(v), cf)
            mask = TRUE
            for c in g.ifs:
                mask = tm.and_(mask, self.truth(self.ev(c, cf)))
            if mask is FALSE:
                return
            val = self.freeze(self.ev(e.elt, cf))
            # side exits depend on v: keep them (they are conditions for some index)
            if len(self.st.pc) > len(pc0):
                new = self.st.pc[len(pc0):]
                self.st.setpc(pc0)
                for c in new:
                    self.st.assume(tm.not_(tm.red_v("any", n, v, TRUE, tm.not_(c))) if v in c.fv else c)
            if mask is TRUE:
                out.append(Seg(n, lambda i: frozen_subst(val, {v: num(i)})))
            else:
                cnt = tm.sum_v(n, v, mask, ONE)
                out.append(Seg(cnt, lambda i: frozen_subst(val, {v: tm.nth_v(n, v, mask, num(i)) if v in mask.fv else num(i)})))
        go(0)
        if not cf.captured:
            self.st.frames.pop(fid, None)
        return self.list(out)

    def e_DictComp(self, e, fr):
        self.nid += 1
        fid = ("comp", self.nid)
        self.st.frames[fid] = {}
        cf = Frame(fid, fr, fr.module)
        items = []

        def go(k):
            nonlocal items
            if k == len(e.generators):
                kk = self.np.key(self, self.ev(e.key, cf))
                vv = self.ev(e.value, cf)
                items = [(a, b) for a, b in items if a != kk] + [(kk, vv)]
                return
            g = e.generators[k]
            for x in self.iter_items(self.ev(g.iter, fr if k == 0 else cf)):
                self.assign(g.target, x, cf)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.ev(c, cf))
                    d = self.decide(t)
                    if d is None:
                        raise NeedFork(t)
                    ok = ok and d
                    if not ok:
                        break
                if ok:
                    go(k + 1)
        go(0)
        return self.dict(items)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        f = self.res(f)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, BuiltinV):
            return f.fn(self, list(args), dict(kw))
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), dict(kw))
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, ObjV):
            c = self.cell(f)
            v, _ = c.cls.lookup("__call__")
            if v is None:
                raise PyRaise(ExcV("TypeError", ("object is not callable",)))
            return self.call(v, [f] + list(args), kw)
        return self.np.call_value(self, f, list(args), dict(kw))

    def instantiate(self, cls, args, kw):
        h = self.intercepts.get((cls.module.name, cls.name))
        if h is not None:
            return h(self, cls, args, kw)
        o = ObjV(self.new(ObjCell(cls, {})))
        for b in cls.mro():
            for x in b.bases:
                if isinstance(x, (TypeV,)) and x.name.endswith(("Exception", "Error")):
                    return ExcV(cls.name, tuple(args))
        init, _ = cls.lookup("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kw)
        elif args or kw:
            if not any(isinstance(x, ExtV) for b in cls.mro() for x in b.bases):
                raise PyRaise(ExcV("TypeError", (cls.name + "() takes no arguments",)))
        return o

    def bind(self, f, args, kw):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        fr = {}
        if len(args) > len(params) and a.vararg is None:
            raise PyRaise(ExcV("TypeError", ("%s() takes %d positional arguments but %d were given" % (f.name, len(params), len(args)),)))
        for p, v in zip(params, args):
            fr[p] = v
        if a.vararg is not None:
            fr[a.vararg.arg] = tuple(args[len(params):])
        names = set(params) | {p.arg for p in a.kwonlyargs}
        extra = []
        for k, v in kw.items():
            if k in names:
                if k in fr:
                    raise PyRaise(ExcV("TypeError", ("%s() got multiple values for argument '%s'" % (f.name, k),)))
                fr[k] = v
            elif a.kwarg is not None:
                extra.append((k, v))
            else:
                raise PyRaise(ExcV("TypeError", ("%s() got an unexpected keyword argument '%s'" % (f.name, k),)))
        nd = len(f.defaults)
        for p, d in zip(params[len(params) - nd:], f.defaults):
            fr.setdefault(p, d)
        for p in a.kwonlyargs:
            if p.arg not in fr and p.arg in f.kwdefaults:
                fr[p.arg] = f.kwdefaults[p.arg]
        for p in params + [p.arg for p in a.kwonlyargs]:
            if p not in fr:
                raise PyRaise(ExcV("TypeError", ("%s() missing required argument '%s'" % (f.name, p),)))
        if a.kwarg is not None:
            fr[a.kwarg.arg] = self.dict(extra)
        return fr

    def call_func(self, f, args, kw):
        q = (f.module.name, (f.cls.name + "." if f.cls else "") + f.name)
        h = self.intercepts.get(q)
        if h is not None:
            r = h(self, f, args, kw)
            if r is not NotImplemented:
                return r
        vars_ = self.bind(f, args, kw)
        if self.depth > 60:
            raise Undecided("recursion depth")
        self.nid += 1
        fid = ("fn", self.nid)
        self.st.frames[fid] = vars_
        fr = Frame(fid, f.frame, f.module, f)
        if f.is_lambda:
            save = self.mod, self.node
            self.mod = f.module
            self.stack.append((f.module, f.name, f.node))
            self.depth += 1
            try:
                return self.ev(f.node.body, fr)
            finally:
                self.stack.pop()
                self.depth -= 1
                self.mod, self.node = save
        self.covered.add((f.module.path, q[1]))
        fr.locals = f.node.__dict__.get("_locals") or _collect_locals(f.node)
        gen = f.node.__dict__.get("_isgen")
        if gen is None:
            gen = _is_gen(f.node)
            f.node._isgen = gen
        if gen:
            acc = self.list([])
            self.st.frames[fid]["__yield__"] = acc
        save = self.mod, self.node, self.depth
        self.mod = f.module
        self.stack.append((f.module, q[1], f.node))
        self.depth += 1
        # NeedFork/Undecided unwind through here: the statement that catches restores the stack
        callers_ret = self.st.ret
        out = self.exec_block(f.node.body, fr)
        self.stack.pop()
        self.mod, self.node, self.depth = save
        rs = out.pop(RAISE, None)
        nx = out.pop(NEXT, None)
        if nx is not None:
            nx.ret = None
        st = self.merge(out.pop(RET, None), nx)
        if rs is not None:
            if st is None:
                self.st = rs
                raise PyRaise(rs.exc if not isinstance(rs.exc, PhiV) else self.res(rs.exc))
            self.sinks[-1].append(rs)
        if st is None:
            raise Undecided("function without outcome")
        self.st = st
        v = st.ret
        st.ret = callers_ret
        if not fr.captured:
            st.frames.pop(fid, None)
        if gen:
            return acc
        return v


class Frame:
    __slots__ = ("fid", "parent", "module", "func", "is_class", "locals", "globals", "nonlocals", "captured")

    def __init__(self, fid, parent, module, func=None):
        self.fid, self.parent, self.module, self.func = fid, parent, module, func
        self.is_class = self.captured = False
        self.locals = ()
        self.globals = set()
        self.nonlocals = set()


class Poison:
    pass


class FList:
    def __init__(self, items):
        self.items = list(items)


class FDict:
    def __init__(self, items):
        self.items = list(items)


def frozen_subst(f, m):
    if isinstance(f, T):
        return tm.subst(f, m)
    if isinstance(f, tuple):
        return tuple(frozen_subst(x, m) for x in f)
    if isinstance(f, Arr):
        return Arr([tm.subst(d, m) for d in f.dims], lambda *i: tm.subst(f(*i), m), f.dtype)
    if isinstance(f, FList):
        return FList([Seg(tm.subst(x.n, m), lambda i, x=x: frozen_subst(x.fn(i), m)) if isinstance(x, Seg) else frozen_subst(x, m) for x in f.items])
    if isinstance(f, FDict):
        return FDict([(k, frozen_subst(x, m)) for k, x in f.items])
    if isinstance(f, PhiV):
        c = tm.subst(f.c, m)
        if c is TRUE:
            return frozen_subst(f.a, m)
        if c is FALSE:
            return frozen_subst(f.b, m)
        return PhiV(c, frozen_subst(f.a, m), frozen_subst(f.b, m))
    return f


def frozen_fv(f):
    if isinstance(f, T):
        return f.fv
    if isinstance(f, tuple):
        out = frozenset()
        for x in f:
            out |= frozen_fv(x)
        return out
    if isinstance(f, Arr):
        w = [tm.fresh(d, "p") for d in f.dims]
        out = f(*w).fv - frozenset(w)
        for d in f.dims:
            out |= d.fv
        return out
    if isinstance(f, FList):
        out = frozenset()
        for x in f.items:
            out |= frozen_fv(x.fn(tm.fresh(x.n))) if isinstance(x, Seg) else frozen_fv(x)
        return out
    if isinstance(f, FDict):
        out = frozenset()
        for _, x in f.items:
            out |= frozen_fv(x)
        return out
    if isinstance(f, PhiV):
        return f.c.fv | frozen_fv(f.a) | frozen_fv(f.b)
    if isinstance(f, ExtV) and f.term is not None:
        return f.term.fv
    return frozenset()


def arr_ite(c, a, b):
    return Arr(a.dims, lambda *i: tm.ite(c, a(*i), b(*i)), a.dtype if a.dtype == b.dtype else "float")


def is_arrlike(v):
    return isinstance(v, PhiV) and (type(v.a) is ArrV or is_arrlike(v.a)) and (type(v.b) is ArrV or is_arrlike(v.b))


def is_arrlike_phi(I, v):
    return False


def _as_load(t):
    return ast.Name(id=t.id, ctx=ast.Load()) if isinstance(t, ast.Name) else t


def _has_break(body):
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, (ast.Break, ast.Return)):
                return True
    return False


def _is_gen(node):
    for s in node.body:
        for x in _walk_own(s):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return True
    return False


def _walk_own(n):
    yield n
    for c in ast.iter_child_nodes(n):
        if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield from _walk_own(c)


def _collect_locals(node):
    names = set()
    skip = set()
    for s in node.body:
        for x in _walk_own(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.add(x.id)
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                skip.update(x.names)
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in x.generators:
                    for y in ast.walk(g.target):
                        if isinstance(y, ast.Name):
                            skip.add(y.id)
    # a name assigned by a comprehension only is not local; keep it simple and only trust plain targets
    plain = set()
    for s in node.body:
        for x in _walk_own(s):
            tg = []
            if isinstance(x, ast.Assign):
                tg = x.targets
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                tg = [x.target]
            elif isinstance(x, ast.For):
                tg = [x.target]
            for t in tg:
                for y in ast.walk(t):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        plain.add(y.id)
            if isinstance(x, ast.FunctionDef):
                plain.add(x.name)
    g = set()
    for s in node.body:
        for x in _walk_own(s):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                g.update(x.names)
    plain -= g
    node._locals = plain
    return plain
