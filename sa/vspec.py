"""The `vspec` module available to the scenario files under /verif/spec (interpreted, never executed)."""
import os
import re
from fractions import Fraction
from . import terms as tm
from . import evalt
from .terms import T, num, TRUE, FALSE, ZERO, ONE
from .values import *
from .interp import Undecided, NeedFork, PyRaise, FList, FDict, Event
from . import npmodel as M
from . import npfuncs as NF
from . import pylib as P
from .npmodel import toarr, scal

B = BuiltinV


def v_dim(I, a, k):
    mn = a[1] if len(a) > 1 else k.get("min", 1)
    if I.concrete is not None:
        # the second attempt at a scenario out of reach with arbitrary sizes: sizes are numbers
        if a[0] not in I.concrete_dims:
            I.concrete_dims[a[0]] = int(mn) + (I.concrete[len(I.concrete_dims) % len(I.concrete)])
        return I.concrete_dims[a[0]]
    t = tm.sym(a[0], "size")
    tm.SIZE_MIN[t] = Fraction(mn)
    I.size_max[a[0]] = int(k.get("max", mn + 3))
    return t


def v_sym(kind):
    return lambda I, a, k: tm.sym(a[0], kind)


def v_index(I, a, k):
    t = tm.sym(a[0], "index")
    tm.BOUNDS[t] = num(a[1])
    return t


def v_array(I, a, k):
    name, shape = a[0], a[1]
    kind = k.get("kind", "real")
    owner = k.get("owner")
    dt = "int" if kind in ("int", "size") else "bool" if kind == "bool" else "float"
    if k.get("dtype"):
        dt = k["dtype"]
    evalt.FINITE[name] = kind
    tm.NANFREE.add(name)
    if dt == "int":
        tm.INT_APPS.add(name)
    if kind == "bool":
        tm.BOOL_APPS.add(name)
    if kind in ("pos", "size"):
        tm.POSITIVE_APPS.add(name)
    dims = [num(x) for x in (shape if isinstance(shape, tuple) else (shape,))]
    return I.arr(Arr(dims, lambda *i: tm.mk("app", name, *[num(x) for x in i]), dt), frozenset([owner]) if owner else frozenset())


def v_own(I, a, k):
    v, owner = a[0], a[1]
    c = I.cell(v)
    if isinstance(c, ArrCell):
        I.st.heap[v.cid] = ArrCell(c.val, c.owners | {owner}, c.base)
    elif isinstance(c, ListCell):
        I.st.heap[v.cid] = ListCell(c.items, c.owners | {owner})
    elif isinstance(c, DictCell):
        I.st.heap[v.cid] = DictCell(c.items, c.owners | {owner}, c.default)
    return v


def batch(I, x, D):
    a = toarr(I, x)
    if len(a.dims) != 2:
        raise PyRaise(ExcV("ValueError", ("model called with an array of %d dimensions" % len(a.dims),)))
    d = a.dims[1]
    if d.op != "num":
        raise Undecided("model called with a symbolic number of features")
    if int(tm.nval(d)) != D:
        raise PyRaise(ExcV("ValueError", ("model called with the wrong number of features",)))
    return a


def v_model(I, a, k):
    """a black-box row-wise function (n, D) -> (n,)"""
    name, D = a[0], a[1]
    shape = k.get("out", None)
    tm.NANFREE.add(name)
    evalt.COARSE.add(name)

    def call(I, aa, kk):
        if kk or len(aa) != 1:
            raise PyRaise(ExcV("TypeError", ("model takes one argument",)))
        x = batch(I, aa[0], D)
        I.event("model", name, I.freeze(aa[0]))
        return I.arr(Arr((x.dims[0],), lambda i: tm.app(name, *[num(x(i, num(c))) for c in range(D)]), "float"))
    return B("model " + name, call)


def v_jac(I, a, k):
    """a black-box row-wise function (n, D) -> (n, D)"""
    name, D = a[0], a[1]
    tm.NANFREE.add(name)
    evalt.COARSE.add(name)

    def call(I, aa, kk):
        if kk or len(aa) != 1:
            raise PyRaise(ExcV("TypeError", ("jacobian takes one argument",)))
        x = batch(I, aa[0], D)
        I.event("model", name, I.freeze(aa[0]))
        return I.arr(Arr((x.dims[0], num(D)), lambda i, j: tm.app(name, num(j), *[num(x(i, num(c))) for c in range(D)]), "float"))
    return B("jacobian " + name, call)


def v_func(I, a, k):
    """an uninterpreted scalar function of frozen arguments"""
    name = a[0]
    kind = k.get("kind", "real")
    tm.NANFREE.add(name)
    evalt.COARSE.add(name)
    if kind == "pos":
        tm.POSITIVE_APPS.add(name)
    if kind == "bool":
        tm.BOOL_APPS.add(name)

    def call(I, aa, kk):
        xs = []
        for x in aa + [kk[q] for q in sorted(kk)]:
            xs += asterms(I, x)
        return tm.mk("app", name, *xs)
    return B("function " + name, call)


def asterms(I, x):
    x = I.res(x) if isinstance(x, PhiV) and not M.is_arr(x) else x
    if x is None:
        return [num(-77)]
    if isinstance(x, str):
        return [tm.strcat(x)]
    if isinstance(x, T) or isinstance(x, (int, Fraction, bool)):
        return [num(x)]
    if isinstance(x, tuple):
        return [y for z in x for y in asterms(I, z)]
    if isinstance(x, ListV):
        return asterms(I, I.arr(toarr(I, x)))
    if M.is_arr(x) or isinstance(x, Arr):
        a = toarr(I, x)
        if len(a.dims) == 0:
            return [num(a())]
        if len(a.dims) == 1:
            return [tm.lam(a.dims[0], lambda i: num(a(i)))]
        if len(a.dims) == 2 and a.dims[1].op == "num":
            return [tm.lam(a.dims[0], lambda i: tm.mk("app", "row", *[num(a(i, num(c))) for c in range(int(tm.nval(a.dims[1])))]))]
        raise Undecided("array argument of an uninterpreted function")
    if isinstance(x, DictV):
        return [y for kk, v in I.cell(x).items for y in asterms(I, kk) + asterms(I, v)]
    raise Undecided("argument of an uninterpreted function: " + type(x).__name__)


# ------------------------------------------------------------------ obligations
def oblige(I, kind, label, *data):
    I.st.events.append(Event(TRUE, "oblig", (kind, label, tuple(I.st.pc)) + data, I.loc()))


def v_same(I, a, k):
    oblige(I, "same", a[0], I.freeze(a[1]), I.freeze(a[2]))


def v_holds(I, a, k):
    v = a[1]
    if M.is_arr(v):
        arr = toarr(I, v)
        v = tm.not_(M.any_over(I, Arr(arr.dims, lambda *i: tm.not_(I.truth(arr(*i))), "bool"))) if arr.dims else arr()
    oblige(I, "holds", a[0], I.truth(v))


class Contradiction(Undecided):
    """no path is left on which the assumption holds (the others may have ended in an exception)"""


def v_assume(I, a, k):
    c = I.truth(a[0])
    if c is FALSE:
        raise Contradiction("contradictory assumption")
    I.st.assume(c)
    I.assumed.append(c)


def v_catch(I, a, k):
    """call thunk(); ('ok', value) or ('raises', name): a branch on whether it raises"""
    I.sinks.append([])
    try:
        v = I.call(a[0], [], {})
        side = I.sinks.pop()
        if side:
            sat = [s for s in side if True]
            c = tm.or_(*[tm.and_(*s.pc[len(I.base_pc):]) if hasattr(I, "base_pc") else tm.and_(*s.pc) for s in sat])
            d = I.decide(c)
            if d is not False:
                # keep the normal path; record the raising paths as side exits
                I.sinks[-1].extend(side)
        return ("ok", v)
    except PyRaise as e:
        I.sinks.pop()
        if os.environ.get("VERIF_TB"):
            print("caught", getattr(e.exc, "name", "?"), getattr(e.exc, "args", None))
        return ("raises", e.exc.name if isinstance(e.exc, ExcV) else "?")
    except NeedFork:
        I.sinks.pop()
        raise


def all_events(evs, kind):
    for e in evs:
        if e.kind == "loop":
            for x in all_events([e.data[2]], kind):
                yield Event(tm.and_(e.guard, x.guard), x.kind, x.data, x.loc)
        elif e.kind == kind:
            yield e


def v_mark(I, a, k):
    return len(I.st.events)


def v_nowrite(I, a, k):
    """no write to memory owned by `owner` since mark"""
    label, owner = a[0], a[1]
    start = a[2] if len(a) > 2 else 0
    hits = [e for e in all_events(I.st.events[start:], "write") if e.data[0] == owner]
    oblige(I, "nowrite", label, owner, tuple((e.loc, e.guard) for e in hits))


def v_draws(I, a, k):
    """the draw calls since mark as a list of (path, args, kwargs)"""
    start = a[0] if a else 0
    out = []
    for e in all_events(I.st.events[start:], "draw"):
        if e.guard is not TRUE and I.decide(e.guard) is None:
            raise NeedFork(e.guard)
        if e.guard is not TRUE and I.decide(e.guard) is False:
            continue
        path, args, kw = e.data
        out.append((path, tuple(I.thaw(x) for x in args), I.dict([(x, I.thaw(y)) for x, y in kw])))
    return I.list(out)


def v_events(I, a, k):
    """events of one kind since mark, as a list of frozen data tuples"""
    kind = a[0]
    start = a[1] if len(a) > 1 else 0
    out = []
    for e in all_events(I.st.events[start:], kind):
        if e.guard is not TRUE:
            d = I.decide(e.guard)
            if d is None:
                raise NeedFork(e.guard)
            if not d:
                continue
        out.append(tuple(I.thaw(x) if isinstance(x, (Arr, FList, FDict, tuple)) else x for x in e.data))
    return I.list(out)


def v_printed(I, a, k):
    """the printed texts since mark"""
    start = a[0] if a else 0
    out = []
    for e in all_events(I.st.events[start:], "print"):
        if e.guard is not TRUE and I.decide(e.guard) is None:
            raise NeedFork(e.guard)
        if e.guard is not TRUE and I.decide(e.guard) is False:
            continue
        out.append(e.data[0])
    return I.list(out)


def v_fields(I, a, k):
    """the numbers shown in a text, in order (formatting undone)"""
    s = a[0]
    out = []
    for p in ([s] if isinstance(s, str) else tm.strcat(s).args[0]):
        if isinstance(p, str):
            out += [Fraction(x) if "." in x else int(x) for x in re.findall(r"(?<![\w.])-?\d+(?:\.\d+)?", p)]
            continue
        while isinstance(p, T) and (p.op == "tostr" or p.op == "app" and str(p.args[0]).startswith("fmt:")):
            p = p.args[0] if p.op == "tostr" else p.args[1]
        out.append(p)
    return I.list(out)


def v_intercept(I, a, k):
    """replace function module.qualname (or class) by a summary written in the scenario file"""
    mod, qn, f = a
    m = I.load(mod)
    found = isinstance(m, ModV)
    if found:
        d = I.modframes[m.frame]
        parts = qn.split(".")
        v = d.get(parts[0])
        found = v is not None and (len(parts) == 1 or isinstance(v, ClassV) and v.lookup(parts[1])[0] is not None)
        if found:
            owner = v.lookup(parts[1])[1] if len(parts) > 1 else v
            if len(parts) > 1:
                mod, qn = owner.module.name, owner.name + "." + parts[1]
            elif isinstance(v, ClassV):
                mod = v.module.name
            elif isinstance(v, FuncV):
                mod = v.module.name
    if not found:
        raise Undecided("summary anchor %s.%s not found" % (mod, qn))
    I.intercepts[(mod, qn)] = lambda I, ff, args, kw: I.call(f, args, kw)
    return None


def v_unintercept(I, a, k):
    I.intercepts.clear()


def v_unknown(I, a, k):
    return tm.unknown(a[0] if a else "unknown")


def v_entries(I, a, k):
    raise Undecided("entries")


def v_arr(I, a, k):
    """array from a shape and an element function"""
    dims = [num(x) for x in (a[0] if isinstance(a[0], tuple) else (a[0],))]
    w = [tm.fresh(d, "va") for d in dims]
    t = num(scal(I, I.call(a[1], list(w), {})))
    dt = k.get("dtype", "int" if tm.is_int(t) else "bool" if tm.is_bool(t) else "float")
    return I.arr(Arr(dims, lambda *i: tm.subst(t, dict(zip(w, [num(x) for x in i]))), dt))


def v_concrete(I, a, k):
    return all(x.op == "num" for x in toarr(I, a[0]).dims)


def v_undecided(I, a, k):
    raise Undecided(str(a[0]))


def v_isclass(I, a, k):
    v = I.res(a[0])
    return isinstance(v, ObjV) and any(c.name == a[1] for c in I.cell(v).cls.mro())


def v_ite(I, a, k):
    return tm.ite(I.truth(a[0]), num(scal(I, a[1])), num(scal(I, a[2])))


def v_implies(I, a, k):
    return tm.or_(tm.not_(I.truth(a[0])), I.truth(a[1]))


def v_and(I, a, k):
    return tm.and_(*[I.truth(x) for x in a])


def v_or(I, a, k):
    return tm.or_(*[I.truth(x) for x in a])


def v_not(I, a, k):
    return tm.not_(I.truth(a[0]))


def v_sampled(I, a, k):
    """row numbers of the k-th draw without replacement: sampled(k, population, how many)"""
    tok, n = num(a[0]), num(scal(I, a[1]))
    return I.arr(Arr((num(scal(I, a[2])),), lambda i: tm.app("perm", tok, n, num(i)), "int"))


def v_spline(I, a, k):
    return P.py_spline(I, a, k)


def module():
    t = {
        "dim": v_dim, "real": v_sym("real"), "pos": v_sym("pos"), "nonneg": v_sym("nonneg"), "integer": v_sym("int"), "boolean": v_sym("bool"),
        "index": v_index, "array": v_array, "own": v_own, "model": v_model, "jac": v_jac, "func": v_func, "same": v_same, "holds": v_holds,
        "assume": v_assume, "catch": v_catch, "mark": v_mark, "nowrite": v_nowrite, "draws": v_draws, "events": v_events, "printed": v_printed, "fields": v_fields,
        "intercept": v_intercept, "unintercept": v_unintercept, "unknown": v_unknown, "arr": v_arr, "undecided": v_undecided,
        "isclass": v_isclass, "ite": v_ite, "implies": v_implies, "and_": v_and, "or_": v_or, "not_": v_not, "spline": v_spline, "sampled": v_sampled,
    }
    return {n: B("vspec." + n, f) for n, f in t.items()}
