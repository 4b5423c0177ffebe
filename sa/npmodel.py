"""Model of Python's and numpy's operators on abstract values: coercions, broadcasting, indexing, writes."""
import ast
from fractions import Fraction
from . import terms as tm
from .terms import T, num, TRUE, FALSE, ZERO, ONE, INF, NAN
from .values import *
from . import interp as ip
from .interp import Undecided, NeedFork, PyRaise, FList, FDict, Poison, frozen_subst


class SymIter:
    """an iterable of n elements, the v-th being elem(v)"""

    def __init__(self, n, elem):
        self.n, self.elem = n, elem


class OpaqueV:
    """an opaque callable/object of a library, denoted by a term"""

    def __init__(self, name, args):
        self.name, self.args = name, args


def scalar_arr(v):
    t = num(v)
    return Arr((), lambda: t, dt(v))


def dt(v):
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, T):
        if tm.is_bool(v):
            return "bool"
        if v.op == "num":
            return "float"
        return "int" if v.op == "sym" and v.args[1] in ("size", "int", "index") or tm.is_int(v) and v.op in ("nuniq", "argmin", "argmax", "nth", "bv", "argsort") else "float"
    return "float"


def join_dt(*ds):
    if "float" in ds:
        return "float"
    if "float32" in ds:
        return "float" if "int" in ds else "float32"
    if "int" in ds:
        return "int"
    return ds[0] if ds else "float"


# ------------------------------------------------------------------ coercions
def cellval(I, c):
    if isinstance(c, PhiCell):
        d = I.decide(c.c)
        if d is not None:
            return cellval(I, c.a if d else c.b)
        a, b = cellval(I, c.a), cellval(I, c.b)
        return phi_arr(c.c, a, b)
    if c.base is not None:
        cid, v = c.base
        b = cellval(I, I.st.heap[cid])
        return Arr(v.dims, lambda *i: b(*v.fwd(*i)), b.dtype)
    return c.val


def phi_arr(c, a, b):
    if len(a.dims) != len(b.dims) or any(x is not y for x, y in zip(a.dims, b.dims)):
        raise NeedFork(c)
    return ip.arr_ite(c, a, b)


def toarr(I, v):
    if isinstance(v, Arr):
        return v
    if is_scalar(v):
        return scalar_arr(v)
    if isinstance(v, PhiV):
        d = I.decide(v.c)
        if d is not None:
            return toarr(I, v.a if d else v.b)
        if v.a is None or v.b is None or isinstance(v.a, (str, Undef)) or isinstance(v.b, (str, Undef)):
            raise NeedFork(v.c)
        if is_scalar(v.a) and is_scalar(v.b):
            return scalar_arr(tm.ite(v.c, num(v.a), num(v.b)))
        return phi_arr(v.c, toarr(I, v.a), toarr(I, v.b))
    if type(v) is ArrV:
        return cellval(I, I.st.heap[v.cid])
    if isinstance(v, ListV):
        return list_arr(I, I.cell(v).items)
    if isinstance(v, tuple):
        return list_arr(I, v)
    if isinstance(v, FList):
        return list_arr(I, v.items)
    if isinstance(v, RangeV):
        n = range_len(v)
        return Arr((num(n),), lambda i: tm.add(num(v.start), tm.mul(i, num(v.step))), "int")
    if isinstance(v, SymIter):
        return list_arr(I, [I.seg(v.n, v.elem)])
    if isinstance(v, Poison):
        raise Undecided("loop-carried value used")
    if v is None:
        raise PyRaise(ExcV("TypeError", ("unsupported operand type NoneType",)))
    raise Undecided("array from " + type(v).__name__ + " " + str(getattr(v, "path", getattr(v, "name", ""))))


def list_arr(I, items):
    if not items:
        return Arr((ZERO,), lambda i: ZERO, "float")
    parts = []          # (count, i -> Arr)
    for x in items:
        if isinstance(x, Seg):
            parts.append((num(x.n), lambda i, x=x: _as_arr(I, x.fn(i))))
        else:
            a = toarr(I, x)
            parts.append((ONE, lambda i, a=a: a))
    probe = [p[1](tm.fresh(p[0], "pr")) for p in parts]
    nd = {len(p.dims) for p in probe}
    if len(nd) != 1:
        raise PyRaise(ExcV("ValueError", ("inhomogeneous shape",)))
    dims = probe[0].dims
    for p in probe[1:]:
        for x, y in zip(dims, p.dims):
            same_dim(I, x, y)
    total = tm.add(*[p[0] for p in parts])
    d = join_dt(*[p.dtype for p in probe])
    if all(p.dtype == "bool" for p in probe):
        d = "bool"

    def fn(i, *r):
        i = num(i)
        off = ZERO
        if i.op == "num":
            k = tm.nval(i)
            for n, f in parts:
                rel = tm.sub(i, off)
                if tm.lt(rel, n) is TRUE:
                    return f(rel)(*r)
                if tm.le(n, rel) is not TRUE:
                    break
                off = tm.add(off, n)
        off = ZERO
        out = None
        chain = []
        for n, f in parts:
            rel = tm.sub(i, off)
            c = tm.lt(rel, n)
            if n is ONE:
                chain.append((tm.eq(i, off), f(ZERO)(*r)))
            else:
                chain.append((c, f(rel)(*r)))
            off = tm.add(off, n)
        out = chain[-1][1]
        for c, x in reversed(chain[:-1]):
            out = tm.ite(c, x, out)
        return out
    return Arr((total,) + tuple(dims), fn, d)


def _as_arr(I, f):
    if isinstance(f, Arr):
        return f
    if is_scalar(f):
        return scalar_arr(f)
    if isinstance(f, (tuple, FList)):
        return list_arr(I, f if isinstance(f, tuple) else f.items)
    if isinstance(f, PhiV):
        return toarr(I, f)
    raise Undecided("array element " + type(f).__name__)


def is_arr(v):
    """array-like that triggers elementwise operators"""
    if type(v) is ArrV or isinstance(v, Arr):
        return True
    if isinstance(v, PhiV):
        return is_arr(v.a) and (is_arr(v.b) or is_scalar(v.b)) or is_arr(v.b) and is_scalar(v.a)
    return False


def out(I, a):
    """wrap an Arr as a value (0-d arrays become scalars)"""
    if not a.dims:
        t = a()
        if t.op == "bool":
            return t.args[0]
        return t
    return I.arr(a)


def scal(I, v):
    a = toarr(I, v)
    if a.dims:
        if all(d is ONE for d in a.dims):
            return a(*[ZERO for _ in a.dims])
        raise PyRaise(ExcV("TypeError", ("only size-1 arrays can be converted to scalars",)))
    return a()


def conc_int(I, v):
    """concrete python int or None"""
    if isinstance(v, PhiV):
        v = I.res(v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    if isinstance(v, T) and v.op == "num" and tm.nval(v).denominator == 1:
        return int(tm.nval(v))
    if type(v) is ArrV:
        a = toarr(I, v)
        if not a.dims or all(d is ONE for d in a.dims):
            return conc_int(I, a(*[ZERO for _ in a.dims]))
    return None


def need_int(I, v):
    k = conc_int(I, v)
    if k is None and isinstance(v, PhiV):
        return need_int(I, I.res(v))
    if k is None and isinstance(v, T) and v.op == "ite" and tm._const_ite(v):
        d = I.decide(v.args[0])
        if d is None:
            raise NeedFork(v.args[0])
        return need_int(I, v.args[1] if d else v.args[2])
    if k is None and isinstance(v, T) and v.op == "poly":
        for c, m in v.args[0]:
            for a, e in m:
                if a.op == "ite" and tm._const_ite(a):
                    d = I.decide(a.args[0])
                    if d is None:
                        raise NeedFork(a.args[0])
                    return need_int(I, tm.replace(v, a, a.args[1] if d else a.args[2]))
    if k is None:
        raise Undecided("symbolic integer where a concrete one is needed")
    return k


# ------------------------------------------------------------------ shapes
def same_dim(I, a, b):
    if a is b:
        return a
    e = tm.eq(a, b)
    if e is TRUE:
        return a
    if e is FALSE:
        raise PyRaise(ExcV("ValueError", ("operands could not be broadcast together",)))
    if I.decide(e) is True:
        return a
    I.event("shape", e)
    return a if a.size <= b.size else b


def bdim(I, a, b):
    if a is b or b is ONE:
        return a
    if a is ONE:
        return b
    return same_dim(I, a, b)


def broadcast_dims(I, *ds):
    n = max(len(d) for d in ds)
    out = []
    for k in range(n):
        cur = ONE
        for d in ds:
            j = len(d) - n + k
            if j >= 0:
                cur = bdim(I, cur, d[j])
        out.append(cur)
    return tuple(out)


def bidx(a, dims, idx):
    off = len(dims) - len(a.dims)
    return [ZERO if a.dims[j] is ONE else idx[off + j] for j in range(len(a.dims))]


def broadcast_to(I, a, dims):
    d = broadcast_dims(I, a.dims, dims)
    if len(d) != len(dims) or any(x is ONE and y is not ONE for x, y in zip(dims, d)):
        raise PyRaise(ExcV("ValueError", ("could not broadcast",)))
    return Arr(dims, lambda *i: a(*bidx(a, dims, i)), a.dtype)


def ew(I, f, *vs, dtype=None):
    as_ = [toarr(I, v) for v in vs]
    dims = broadcast_dims(I, *[a.dims for a in as_])
    d = dtype or join_dt(*[a.dtype for a in as_])
    return Arr(dims, lambda *i: f(*[a(*bidx(a, dims, i)) for a in as_]), d)


# ------------------------------------------------------------------ operators
def is_conc(v):
    return isinstance(v, (bool, int, Fraction))


CMP = {ast.Lt: tm.lt, ast.LtE: tm.le, ast.Gt: lambda a, b: tm.lt(b, a), ast.GtE: lambda a, b: tm.le(b, a)}


def _and(a, b):
    if tm.is_bool(a) and tm.is_bool(b):
        return tm.and_(a, b)
    raise Undecided("bitwise and")


def _or(a, b):
    if tm.is_bool(a) and tm.is_bool(b):
        return tm.or_(a, b)
    raise Undecided("bitwise or")


def _xor(a, b):
    return tm.or_(tm.and_(a, tm.not_(b)), tm.and_(tm.not_(a), b))


def t_pow(a, b):
    a, b = num(a), num(b)
    if b.op == "num":
        v = tm.nval(b)
        if v.denominator in (1, 2) and abs(v) <= 8:
            return tm.pow_(a, v)
    return tm.app("pow", a, b)


def t_div(a, b):
    b = num(b)
    if b.op == "ite":
        return tm.ite(b.args[0], t_div(a, b.args[1]), t_div(a, b.args[2]))
    return tm.div(num(a), b)


BIN = {ast.Add: tm.add, ast.Sub: tm.sub, ast.Mult: tm.mul, ast.Div: t_div, ast.Pow: t_pow,
       ast.FloorDiv: tm.floordiv, ast.Mod: tm.mod, ast.BitAnd: _and, ast.BitOr: _or, ast.BitXor: _xor}


def is_text(v):
    return isinstance(v, T) and v.op == "str"


def lift_phi(I, v):
    """resolve phis that are not purely numeric"""
    if isinstance(v, PhiV):
        d = I.decide(v.c)
        if d is not None:
            return lift_phi(I, v.a if d else v.b)
        if is_scalar(v.a) and is_scalar(v.b) and not is_text(v.a) and not is_text(v.b):
            return tm.ite(v.c, num(v.a), num(v.b))
        if is_arr(v):
            return v
        return I.res(v)
    if isinstance(v, Poison):
        raise Undecided("loop-carried value used")
    return v


def binop(I, op, a, b):
    a, b = lift_phi(I, a), lift_phi(I, b)
    if is_conc(a) and is_conc(b):
        return conc_binop(I, op, a, b)
    if isinstance(a, str) or isinstance(a, T) and a.op == "str" or isinstance(b, str) or isinstance(b, T) and b.op == "str":
        return str_binop(I, op, a, b)
    if is_arr(a) or is_arr(b):
        if type(op) is ast.MatMult:
            return I.npf["dot"](I, [a, b], {})
        f = BIN[type(op)]
        dtp = None
        if type(op) is ast.Div:
            dtp = "float"
        r = ew(I, f, a, b, dtype=dtp)
        if r.dtype == "bool" and type(op) in (ast.Add, ast.Sub, ast.Mult, ast.Pow):
            aa, bb = toarr(I, a), toarr(I, b)
            if aa.dtype == "bool" and bb.dtype == "bool" and type(op) is ast.Sub:
                raise PyRaise(ExcV("TypeError", ("numpy boolean subtract",)))
            if type(op) is ast.Mult and aa.dtype == bb.dtype == "bool":
                r = ew(I, tm.and_, a, b, dtype="bool")
            elif type(op) is ast.Add and aa.dtype == bb.dtype == "bool":
                r = ew(I, tm.or_, a, b, dtype="bool")
            else:
                r.dtype = "int"
        return out(I, r)
    if isinstance(a, ListV) or isinstance(b, ListV):
        if isinstance(op, ast.Add) and isinstance(a, ListV) and isinstance(b, ListV):
            return I.list(I.cell(a).items + I.cell(b).items)
        if isinstance(op, ast.Mult):
            l, k = (a, b) if isinstance(a, ListV) else (b, a)
            kk = conc_int(I, k)
            items = I.cell(l).items
            if kk is not None:
                return I.list(items * kk)
            if len(items) == 1 and not isinstance(items[0], Seg):
                f = I.freeze(items[0])
                return I.list([Seg(num(k), lambda i: f)])
            raise Undecided("list repetition")
        if is_scalar(a) or is_scalar(b):
            raise PyRaise(ExcV("TypeError", ("list and number",)))
    if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
        return a + b
    if isinstance(a, tuple) and isinstance(op, ast.Mult):
        return a * need_int(I, b)
    if isinstance(a, SetV) and isinstance(b, SetV):
        if isinstance(op, ast.Sub):
            return SetV([x for x in a.items if x not in b.items])
        if isinstance(op, ast.BitOr):
            return SetV(a.items + [x for x in b.items if x not in a.items])
        if isinstance(op, ast.BitAnd):
            return SetV([x for x in a.items if x in b.items])
    if is_scalar(a) and is_scalar(b):
        if type(op) in (ast.Div, ast.FloorDiv, ast.Mod) and num(b).op == "num" and tm.nval(num(b)) == 0:
            return tm.app("div0", num(a))
        if type(op) in (ast.BitAnd, ast.BitOr) and is_scalar(a):
            r = BIN[type(op)](num(a), num(b))
            return r
        r = BIN[type(op)](num(a), num(b))
        return r
    if a is None or b is None:
        raise PyRaise(ExcV("TypeError", ("unsupported operand type NoneType",)))
    if isinstance(a, ExtV) or isinstance(b, ExtV):
        return ExtV("op")
    raise Undecided("operator on %s and %s" % (type(a).__name__, type(b).__name__))


def conc_binop(I, op, a, b):
    t = type(op)
    fl = isinstance(a, Fraction) or isinstance(b, Fraction)
    if isinstance(a, bool) and isinstance(b, bool) and t in (ast.BitAnd, ast.BitOr, ast.BitXor):
        return {ast.BitAnd: a and b, ast.BitOr: a or b, ast.BitXor: a != b}[t]
    if t is ast.Add:
        r = a + b
    elif t is ast.Sub:
        r = a - b
    elif t is ast.Mult:
        r = a * b
    elif t in (ast.Div, ast.FloorDiv, ast.Mod):
        if b == 0:
            raise PyRaise(ExcV("ZeroDivisionError"))
        r = Fraction(a) / Fraction(b) if t is ast.Div else (a // b if t is ast.FloorDiv else a % b)
        fl = fl or t is ast.Div
    elif t is ast.Pow:
        if isinstance(b, Fraction) and b.denominator != 1 or abs(b) > 64:
            return t_pow(num(a), num(b))
        if b < 0:
            r, fl = Fraction(a) ** int(b), True
        else:
            r = a ** int(b)
    elif t in (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift):
        r = {ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b, ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b}[t]()
    else:
        raise Undecided("operator")
    return Fraction(r) if fl else int(r)


def str_binop(I, op, a, b):
    a, b = (I.res(x) if isinstance(x, PhiV) else x for x in (a, b))
    if isinstance(op, ast.Add):
        ok = lambda x: isinstance(x, str) or isinstance(x, T) and x.op == "str"
        if not ok(a) or not ok(b):

            raise PyRaise(ExcV("TypeError", ("can only concatenate str",)))
        return join_str([a, b])
    if isinstance(op, ast.Mult):
        return a * need_int(I, b) if isinstance(a, str) else b * need_int(I, a)
    if isinstance(op, ast.Mod) and isinstance(a, str):
        args = list(b) if isinstance(b, tuple) else [b]
        parts = []
        i = 0
        while i < len(a):
            if a[i] == "%":
                j = i + 1
                while j < len(a) and a[j] not in "dsrfgeixX%":
                    j += 1
                c = a[j]
                if c == "%":
                    parts.append("%")
                else:
                    if not args:
                        raise PyRaise(ExcV("TypeError", ("not enough arguments for format string",)))
                    v = args.pop(0)
                    if c in "sr" and j == i + 1:
                        parts.append(to_str(I, v))
                    elif c in "di" and j == i + 1:
                        parts.append(to_str(I, conc_int(I, v) if conc_int(I, v) is not None else v))
                    else:
                        parts.append(to_str(I, v, a[i + 1:j + 1]))
                i = j + 1
            else:
                parts.append(a[i])
                i += 1
        return join_str(parts)
    raise PyRaise(ExcV("TypeError", ("str operator",)))


def to_str(I, v, spec=None):
    v = lift_phi(I, v) if isinstance(v, PhiV) else v
    if isinstance(v, str):
        return v
    if isinstance(v, T) and v.op == "str":
        return v
    if spec:
        t = num(v) if is_scalar(v) else None
        if t is None:
            return "<?>"
        return tm.strcat(tm.mk("tostr", tm.mk("app", "fmt:" + str(spec), t)))
    if isinstance(v, (bool, type(None))):
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Fraction):
        return repr(float(v))
    if isinstance(v, T):
        if v.op == "num" and tm.nval(v).denominator == 1:
            return str(int(tm.nval(v)))
        return tm.strcat(tm.tostr(v))
    if isinstance(v, TypeV):
        return "<class '%s'>" % v.name
    if type(v) is ArrV:
        a = toarr(I, v)
        if not a.dims:
            return to_str(I, a())
    if isinstance(v, ExcV):
        return join_str([to_str(I, x) for x in v.args]) if v.args else ""
    if isinstance(v, (ListV, tuple)):
        xs = v if isinstance(v, tuple) else I.cell(v).items
        if isinstance(xs, (list, tuple)) and len(xs) < 64:
            parts = []
            for j, x in enumerate(xs):
                x = lift_phi(I, x) if isinstance(x, PhiV) else x
                q = isinstance(x, str) or isinstance(x, T) and x.op == "str"
                parts += ([", "] if j else []) + (["'", x, "'"] if q else [to_str(I, x)])
            o, c = "()" if isinstance(v, tuple) else "[]"
            return join_str([o] + parts + ([",", c] if isinstance(v, tuple) and len(xs) == 1 else [c]))
    return "<%s>" % type(v).__name__


def join_str(parts):
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    r = tm.strcat(*parts)
    if len(r.args[0]) == 1 and isinstance(r.args[0][0], str):
        return r.args[0][0]
    return r


def str_slice(s, idx):
    """slices that cut inside the literal ends of a partly symbolic string"""
    parts = list(s.args[0])
    if isinstance(idx, SliceV) and idx.step is None:
        a, b = idx.lo, idx.hi
        a = 0 if a is None else a
        if isinstance(a, int) and (b is None or isinstance(b, int) and b < 0):
            first = parts[0] if isinstance(parts[0], str) else ""
            last = parts[-1] if isinstance(parts[-1], str) else ""
            if 0 <= a <= len(first) and (b is None or -b <= len(last)) and len(parts) > 1:
                if a:
                    parts[0] = first[a:]
                if b is not None:
                    parts[-1] = last[:b]
                return join_str(parts)
    raise Undecided("index of symbolic string")


def str_method(s, name, args):
    """methods of a partly symbolic string that its literal ends decide, else None"""
    parts = list(s.args[0])
    first = parts[0] if isinstance(parts[0], str) else ""
    last = parts[-1] if isinstance(parts[-1], str) else ""
    if not all(isinstance(x, str) for x in args) or len(parts) < 2:
        return None
    if name in ("strip", "lstrip", "rstrip"):
        if name != "rstrip":
            n = first.lstrip(*args)
            if not n:
                return None
            parts[0] = n
        if name != "lstrip":
            n = last.rstrip(*args)
            if not n:
                return None
            parts[-1] = n
        return join_str(parts)
    if len(args) != 1:
        return None
    x = args[0]
    if name == "startswith" and len(x) <= len(first):
        return first.startswith(x)
    if name == "endswith" and len(x) <= len(last):
        return last.endswith(x)
    if name == "removeprefix" and len(x) <= len(first):
        return join_str([first.removeprefix(x)] + parts[1:])
    if name == "removesuffix" and len(x) <= len(last):
        return join_str(parts[:-1] + [last.removesuffix(x)])
    return None


def str_parts(s):
    return [s] if isinstance(s, str) else list(s.args[0])


def str_starts(s, x, back=False):
    """whether the string s starts (ends) with x, where literal text and equal values decide it, else None"""
    a, b = str_parts(s), str_parts(x)
    if back:
        a, b = a[::-1], b[::-1]
    while b:
        y = b.pop(0)
        if y == "":
            continue
        x = a.pop(0) if a else None
        if x == "":
            b.insert(0, y)
            continue
        if x is None:
            return False
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if (x[-n:] != y[-n:]) if back else (x[:n] != y[:n]):
                return False
            if len(x) > n:
                a.insert(0, x[:-n] if back else x[n:])
            if len(y) > n:
                b.insert(0, y[:-n] if back else y[n:])
        elif x is not y:
            return None
    return True


def unary(I, op, v):
    v = lift_phi(I, v)
    if isinstance(op, ast.UAdd):
        return v
    if isinstance(op, ast.USub):
        if isinstance(v, bool):
            return -int(v)
        if is_conc(v):
            return -v
        if is_arr(v):
            return out(I, ew(I, tm.neg, v))
        if isinstance(v, T):
            return tm.neg(v)
    if isinstance(op, ast.Invert):
        if is_arr(v):
            a = toarr(I, v)
            if a.dtype != "bool":
                raise Undecided("bitwise invert")
            return out(I, ew(I, tm.not_, v))
        if isinstance(v, T) and tm.is_bool(v):
            return tm.not_(v)
        if isinstance(v, bool):
            return -2 if v else -1
        if isinstance(v, int):
            return ~v
    if v is None:
        raise PyRaise(ExcV("TypeError", ("bad operand type",)))
    raise Undecided("unary operator on " + type(v).__name__)


def b2v(c):
    return True if c is TRUE else False if c is FALSE else c


def compare(I, op, a, b):
    t = type(op)
    if t in (ast.Is, ast.IsNot):
        c = is_(I, a, b)
        return b2v(c if t is ast.Is else tm.not_(c))
    if t in (ast.In, ast.NotIn):
        c = contains(I, b, a)
        return b2v(c if t is ast.In else tm.not_(c))
    if t in (ast.Eq, ast.NotEq):
        if is_arr(a) or is_arr(b):
            if any(isinstance(x, (str, tuple)) or x is None or isinstance(x, (ObjV, DictV)) for x in (a, b)):
                if any(isinstance(x, str) or x is None or isinstance(x, ObjV) for x in (a, b)):
                    return t is ast.NotEq
            r = ew(I, (lambda x, y: eqt(x, y)) if t is ast.Eq else (lambda x, y: tm.not_(eqt(x, y))), a, b, dtype="bool")
            return out(I, r)
        c = eqv(I, a, b)
        return b2v(c if t is ast.Eq else tm.not_(c))
    a, b = lift_phi(I, a), lift_phi(I, b)
    f = CMP[t]
    if is_arr(a) or is_arr(b):
        return out(I, ew(I, f, a, b, dtype="bool"))
    if is_conc(a) and is_conc(b):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
    if is_scalar(a) and is_scalar(b):
        if isinstance(a, T) and a.op == "str" or isinstance(b, T) and b.op == "str":
            raise Undecided("string order")
        return b2v(f(num(a), num(b)))
    if isinstance(a, str) and isinstance(b, str):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
    if isinstance(a, tuple) and isinstance(b, tuple) and all(is_conc(x) for x in a + b):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
    if isinstance(a, SetV) and isinstance(b, SetV):
        if t in (ast.LtE, ast.GtE):
            x, y = (a, b) if t is ast.LtE else (b, a)
            return all(i in y.items for i in x.items)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        raise PyRaise(ExcV("TypeError", ("'<' not supported",)))
    raise Undecided("comparison of %s and %s" % (type(a).__name__, type(b).__name__))


def eqt(x, y):
    x, y = num(x), num(y)
    if tm.is_bool(x) and tm.is_bool(y):
        if y.op == "bool":
            return x if y is TRUE else tm.not_(x)
        if x.op == "bool":
            return y if x is TRUE else tm.not_(y)
        return tm.or_(tm.and_(x, y), tm.and_(tm.not_(x), tm.not_(y)))
    return tm.eq(x, y)


def eqv(I, a, b):
    """== as a boolean term"""
    if isinstance(a, PhiV):
        d = I.decide(a.c)
        if d is not None:
            return eqv(I, a.a if d else a.b, b)
        return tm.ite(a.c, eqv(I, a.a, b), eqv(I, a.b, b))
    if isinstance(b, PhiV):
        return eqv(I, b, a)
    sa, sb = isinstance(a, str), isinstance(b, str)
    if sa and sb:
        return TRUE if a == b else FALSE
    ta, tb = isinstance(a, T) and a.op == "str", isinstance(b, T) and b.op == "str"
    if (sa or ta) and (sb or tb):
        return tm.streq(tm.strcat(a), tm.strcat(b)) if hasattr(tm, "streq") else tm.mk("eq", tm.strcat(a), tm.strcat(b))
    if sa or sb or ta or tb:
        return FALSE
    if is_scalar(a) and is_scalar(b):
        if is_conc(a) and is_conc(b):
            return TRUE if a == b else FALSE
        return eqt(num(a), num(b))
    if a is None or b is None:
        return TRUE if a is b else FALSE
    if isinstance(a, TypeV) and isinstance(b, TypeV):
        return TRUE if a.name == b.name else FALSE
    if isinstance(a, ClassV) or isinstance(b, ClassV):
        return TRUE if a is b else FALSE
    if isinstance(a, (ListV, tuple)) and isinstance(b, (ListV, tuple)):
        if isinstance(a, ListV) != isinstance(b, ListV):
            return FALSE
        xa = I.cell(a).items if isinstance(a, ListV) else a
        xb = I.cell(b).items if isinstance(b, ListV) else b
        if any(isinstance(x, Seg) for x in tuple(xa) + tuple(xb)):
            raise Undecided("list equality")
        if len(xa) != len(xb):
            return FALSE
        return tm.and_(*[I.truth(compare(I, ast.Eq(), x, y)) for x, y in zip(xa, xb)])
    if isinstance(a, DictV) and isinstance(b, DictV):
        ca, cb = dict(I.cell(a).items), dict(I.cell(b).items)
        if set(ca) != set(cb):
            return FALSE
        return tm.and_(*[I.truth(compare(I, ast.Eq(), ca[k], cb[k])) for k in ca])
    if isinstance(a, ArrV) and isinstance(b, ArrV):
        return TRUE if a.cid == b.cid else FALSE
    if isinstance(a, SetV) and isinstance(b, SetV):
        return TRUE if len(a.items) == len(b.items) and all(x in b.items for x in a.items) else FALSE
    if isinstance(a, ExtV) and isinstance(b, ExtV):
        return TRUE if a.path == b.path else FALSE
    if isinstance(a, RangeV) and isinstance(b, RangeV):
        return tm.and_(tm.eq(a.start, b.start), tm.eq(a.stop, b.stop))
    return TRUE if a is b else FALSE


def is_(I, a, b):
    if isinstance(a, PhiV):
        d = I.decide(a.c)
        if d is not None:
            return is_(I, a.a if d else a.b, b)
        return tm.ite(a.c, is_(I, a.a, b), is_(I, a.b, b))
    if isinstance(b, PhiV):
        return is_(I, b, a)
    if a is None or b is None:
        return TRUE if a is b else FALSE
    if isinstance(a, bool) or isinstance(b, bool):
        # numpy booleans are not the singletons
        return TRUE if isinstance(a, bool) and isinstance(b, bool) and a == b else FALSE
    if isinstance(a, (int, str)) and type(a) is type(b):
        return TRUE if a == b else FALSE
    if isinstance(a, TypeV) and isinstance(b, TypeV):
        return TRUE if a.name == b.name else FALSE
    if isinstance(a, ArrV) and isinstance(b, ArrV):
        return TRUE if a.cid == b.cid else FALSE
    return TRUE if a is b else FALSE


def contains(I, c, x):
    c = I.res(c) if isinstance(c, PhiV) else c
    if isinstance(c, str):
        x = I.res(x) if isinstance(x, PhiV) else x
        if isinstance(x, str):
            return TRUE if x in c else FALSE
        raise PyRaise(ExcV("TypeError", ("in <string>",)))
    if isinstance(c, DictV):
        k = key(I, x, c)
        return TRUE if any(kk == k and type(kk) == type(k) for kk, _ in I.cell(c).items) else FALSE
    if isinstance(c, DictView):
        if c.kind == "keys":
            return contains(I, c.d, x)
        return tm.or_(*[eqv(I, v, x) for v in I.iter_items(c)])
    if isinstance(c, SetV):
        return tm.or_(*[eqv(I, v, x) for v in c.items])
    if isinstance(c, (ListV, tuple)):
        items = I.cell(c).items if isinstance(c, ListV) else c
        cs = []
        for v in items:
            if isinstance(v, Seg):
                w = tm.fresh(v.n)
                cs.append(tm.red_v("any", num(v.n), w, TRUE, eqv(I, v.fn(w), x)))
            else:
                if is_arr(v) or is_arr(x):
                    cs.append(I.truth(compare(I, ast.Eq(), v, x)))
                else:
                    cs.append(eqv(I, v, x))
        return tm.or_(*cs) if cs else FALSE
    if isinstance(c, RangeV):
        n = range_len(c)
        if is_scalar(x) and is_scalar(n):
            d = tm.sub(num(x), num(c.start))
            if c.step == 1:
                return tm.and_(tm.le(0, d), tm.lt(d, num(n)))
    if is_arr(c):
        a = toarr(I, c)
        xs = scal(I, x)
        return any_over(I, Arr(a.dims, lambda *i: eqt(a(*i), xs), "bool"))
    if isinstance(c, ExtV):
        raise Undecided("containment in external value")
    if isinstance(c, TypeV):
        raise Undecided("in type")
    raise Undecided("containment in " + type(c).__name__)


def any_over(I, a):
    if not a.dims:
        return a()
    n = a.dims[0]
    if n.op == "num" and tm.nval(n) <= 12:
        return tm.or_(*[any_over(I, Arr(a.dims[1:], lambda *r, k=k: a(num(k), *r), "bool")) for k in range(int(tm.nval(n)))]) if tm.nval(n) > 0 else FALSE
    v = tm.fresh(n)
    return tm.red_v("any", n, v, TRUE, any_over(I, Arr(a.dims[1:], lambda *r: a(v, *r), "bool")))


# ------------------------------------------------------------------ dicts
class DictView:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind


def symkey(k):
    return isinstance(k, T) and k.op != "str" or isinstance(k, tuple) and any(symkey(x) for x in k)


def same_key(a, b):
    """condition under which two keys are equal (concrete keys of different types are taken as different)"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return tm.and_(*[same_key(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else FALSE
    if symkey(a) or symkey(b):
        if not all(isinstance(x, (T, int, Fraction)) and not (isinstance(x, T) and x.op == "str") for x in (a, b)):
            return FALSE
        return tm.eq(num(a), num(b))
    return TRUE if a == b and type(a) == type(b) else FALSE


def key(I, k, d=None):
    """hashable form of a dictionary key; with the dictionary given, symbolic keys are matched with those already in it"""
    if d is None:
        return key_(I, k, False)
    k = key_(I, k, True)
    for kk, _ in I.cell(d).items:
        if not symkey(kk) and not symkey(k):
            continue
        c = same_key(kk, k)
        r = I.decide(c)
        if r is None:
            raise NeedFork(c)
        if r:
            return kk
    return k


def key_(I, k, symbolic):
    k = I.res(k) if isinstance(k, PhiV) else k
    if isinstance(k, (str, bool, int)) or k is None:
        return k
    if isinstance(k, Fraction):
        return int(k) if k.denominator == 1 else k
    if isinstance(k, T):
        if k.op == "num":
            v = tm.nval(k)
            return int(v) if v.denominator == 1 else v
        if k.op == "str":
            return k
        if symbolic and not k.fv and not k.unk and not tm.is_bool(k):
            return k
        raise Undecided("symbolic dictionary key")
    if isinstance(k, tuple):
        return tuple(key_(I, x, symbolic) for x in k)
    if isinstance(k, (ClassV, TypeV, FuncV)):
        return k
    raise PyRaise(ExcV("TypeError", ("unhashable type",)))


def owner_write(I, c):
    for o in sorted(c.owners):
        I.event("write", o)


def dict_set(I, d, k, v):
    c = I.cell(d)
    owner_write(I, c)
    items = list(c.items)
    for j, (kk, vv) in enumerate(items):
        if kk == k and type(kk) == type(k):
            items[j] = (k, v)
            break
    else:
        items.append((k, v))
    I.st.heap[d.cid] = DictCell(items, c.owners, c.default)


def dict_get(I, d, k):
    c = I.cell(d)
    for kk, vv in c.items:
        if kk == k and type(kk) == type(k):
            if vv is UNDEF:
                raise PyRaise(ExcV("KeyError", (k,)))
            return vv
    if c.default is not None:
        v = I.call(c.default, [], {})
        dict_set(I, d, k, v)
        return v
    raise PyRaise(ExcV("KeyError", (k,)))


def list_extend(I, l, v):
    c = I.cell(l)
    owner_write(I, c)
    v = I.res(v) if isinstance(v, PhiV) else v
    if isinstance(v, ListV):
        items = I.cell(v).items
    else:
        r = I.iterate(v)
        items = tuple(r[1]) if r[0] == "items" else (I.seg(r[1], r[2]),)
    c = I.cell(l)
    I.st.heap[l.cid] = ListCell(c.items + tuple(items), c.owners)


# ------------------------------------------------------------------ lengths and iteration
def range_len(r):
    if all(is_conc(x) for x in (r.start, r.stop, r.step)):
        return len(range(int(r.start), int(r.stop), int(r.step)))
    if r.step == 1:
        d = tm.sub(num(r.stop), num(r.start))
        return d if tm.le(0, d) is TRUE else tm.minmax("max", d, ZERO)
    if r.step == -1:
        d = tm.sub(num(r.start), num(r.stop))
        return d if tm.le(0, d) is TRUE else tm.minmax("max", d, ZERO)
    raise Undecided("range step")


def length(I, v):
    if isinstance(v, PhiV):
        d = I.decide(v.c)
        if d is not None:
            return length(I, v.a if d else v.b)
        try:
            return tnum(tm.ite(v.c, num(length(I, v.a)), num(length(I, v.b))))
        except PyRaise:
            raise NeedFork(v.c)
    if isinstance(v, ListV):
        c = I.st.heap[v.cid]
        return tnum(_cell_len(I, c))
    if type(v) is ArrV:
        a = toarr(I, v)
        if not a.dims:
            raise PyRaise(ExcV("TypeError", ("len() of unsized object",)))
        return tnum(a.dims[0])
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, DictV):
        return len(I.cell(v).items)
    if isinstance(v, DictView):
        return len(I.cell(v.d).items)
    if isinstance(v, SetV):
        return len(v.items)
    if isinstance(v, RangeV):
        return range_len(v)
    if isinstance(v, SymIter):
        return tnum(v.n)
    if isinstance(v, ObjV):
        return I.call(I.getattr(v, "__len__"), [], {})
    if isinstance(v, Poison):
        raise Undecided("loop-carried value")
    if isinstance(v, T) and v.op == "str":
        raise Undecided("len of symbolic string")
    if is_scalar(v) or v is None:
        raise PyRaise(ExcV("TypeError", ("object has no len()",)))
    raise Undecided("len of " + type(v).__name__)


def _cell_len(I, c):
    if isinstance(c, PhiCell):
        return tm.ite(c.c, _cell_len(I, c.a), _cell_len(I, c.b))
    return tm.add(ZERO, *[num(x.n) if isinstance(x, Seg) else ONE for x in c.items])


def tnum(t):
    t = num(t)
    if t.op == "num" and tm.nval(t).denominator == 1:
        return int(tm.nval(t))
    return t


LIMIT = 160


def iter_value(I, it):
    if isinstance(it, tuple):
        return ("items", list(it))
    if isinstance(it, ListV):
        items = I.cell(it).items
        if not any(isinstance(x, Seg) for x in items):
            return ("items", list(items))
        if len(items) == 1:
            s = items[0]
            n = num(s.n)
            if n.op == "num":
                return ("items", [I.thaw(s.fn(num(k))) for k in range(int(tm.nval(n)))])
            return ("sym", n, lambda v: I.thaw(s.fn(v)))
        tot = tm.add(*[num(x.n) if isinstance(x, Seg) else ONE for x in items])
        if tot.op == "num":
            return ("items", [list_get(I, items, num(k)) for k in range(int(tm.nval(tot)))])
        return ("sym", tot, lambda v: list_get(I, items, v))
    if isinstance(it, RangeV):
        n = range_len(it)
        if is_conc(n):
            if n > LIMIT * 10:
                raise Undecided("long range")
            return ("items", list(range(int(it.start), int(it.stop), int(it.step))))
        return ("sym", num(n), lambda v: tm.add(num(it.start), tm.mul(v, num(it.step))))
    if isinstance(it, SymIter):
        n = num(it.n)
        if n.op == "num":
            return ("items", [it.elem(num(k)) for k in range(int(tm.nval(n)))])
        return ("sym", n, it.elem)
    if is_arr(it) or type(it) is ArrV:
        a = toarr(I, it)
        if not a.dims:
            raise PyRaise(ExcV("TypeError", ("iteration over a 0-d array",)))
        n = a.dims[0]
        if n.op == "num":
            if tm.nval(n) > LIMIT:
                raise Undecided("long array iteration")
            return ("items", [getitem(I, it, k) for k in range(int(tm.nval(n)))])
        return ("sym", n, lambda v: getitem(I, it, v))
    if isinstance(it, DictV):
        return ("items", [k for k, _ in I.cell(it).items])
    if isinstance(it, DictView):
        its = I.cell(it.d).items
        return ("items", [k if it.kind == "keys" else v if it.kind == "values" else (k, v) for k, v in its])
    if isinstance(it, SetV):
        return ("items", list(it.items))
    if isinstance(it, str):
        return ("items", list(it))
    if isinstance(it, ObjV):
        f, _ = I.cell(it).cls.lookup("__iter__")
        if f is not None:
            return iter_value(I, I.call(f, [it], {}))
    if isinstance(it, ExtV):
        raise Undecided("iteration over external value " + it.path)
    if it is None or is_scalar(it):
        raise PyRaise(ExcV("TypeError", ("object is not iterable",)))
    raise Undecided("iteration over " + type(it).__name__)


def list_get(I, items, i):
    i = num(i)
    off = ZERO
    for x in items:
        n = num(x.n) if isinstance(x, Seg) else ONE
        rel = tm.sub(i, off)
        if tm.lt(rel, n) is TRUE:
            if isinstance(x, Seg):
                return I.thaw(x.fn(rel))
            return x
        if tm.le(n, rel) is not TRUE:
            break
        off = tm.add(off, n)
    else:
        raise PyRaise(ExcV("IndexError", ("list index out of range",)))
    # undecided position: scalars only
    vals = []
    off = ZERO
    for x in items:
        n = num(x.n) if isinstance(x, Seg) else ONE
        rel = tm.sub(i, off)
        f = x.fn(rel) if isinstance(x, Seg) else x
        vals.append((tm.lt(rel, n), f))
        off = tm.add(off, n)
    r = vals[-1][1]
    for c, f in reversed(vals[:-1]):
        r = I.mv(c, f if not isinstance(f, Arr) else I.arr(f), r if not isinstance(r, Arr) else I.arr(r))
    return I.thaw(r)


# ------------------------------------------------------------------ indexing
def wrap(i, n):
    """python index semantics on an axis of size n"""
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, int):
        return num(i) if i >= 0 else tm.add(n, i)
    i = num(i)
    if i.op == "num":
        v = tm.nval(i)
        return i if v >= 0 else tm.add(n, i)
    if tm.le(ZERO, i) is TRUE:
        return i
    if tm.lt(i, ZERO) is TRUE:
        return tm.add(n, i)
    c = tm.lt(i, ZERO)
    if c is TRUE:
        return tm.add(n, i)
    if c is FALSE:
        return i
    return tm.ite(c, tm.add(n, i), i)


def check_bound(I, i, n):
    """IndexError when i is definitely outside [0, n); an obligation when it may be"""
    lo, hi = tm.le(ZERO, i), tm.lt(i, n)
    if lo is FALSE or hi is FALSE:
        raise PyRaise(ExcV("IndexError", ("index out of bounds",)))


def slice_range(I, s, n):
    """(start, count, step) of a slice on an axis of size n"""
    step = 1 if s.step is None else need_int(I, s.step)
    lo = None if s.lo is None else lift_phi(I, s.lo)
    hi = None if s.hi is None else lift_phi(I, s.hi)
    if lo is not None:
        lo = I.np.scal(I, lo)
    if hi is not None:
        hi = I.np.scal(I, hi)
    clip = lambda x: _clip(I, x, n)
    if step == 1:
        a = ZERO if lo is None else clip(wrap(lo, n))
        b = n if hi is None else clip(wrap(hi, n))
        d = tm.sub(b, a)
        if tm.le(ZERO, d) is not TRUE and I.decide(tm.le(ZERO, d)) is not True:
            d = tm.minmax("max", d, ZERO)
        return a, d, 1
    if step == -1:
        if lo is None and hi is None:
            return tm.sub(n, 1), n, -1
        a = tm.sub(n, 1) if lo is None else clip(wrap(lo, n))
        b = num(-1) if hi is None else clip(wrap(hi, n))
        d = tm.sub(a, b)
        return a, d if tm.le(ZERO, d) is TRUE else tm.minmax("max", d, ZERO), -1
    if n.op == "num" and (lo is None or lo.op == "num") and (hi is None or hi.op == "num"):
        r = range(*slice(None if lo is None else int(tm.nval(lo)), None if hi is None else int(tm.nval(hi)), step).indices(int(tm.nval(n))))
        return num(r.start), num(len(r)), step
    if step > 1 and hi is None:
        a = ZERO if lo is None else wrap(lo, n)
        return a, tm.floordiv(tm.add(tm.sub(n, a), step - 1), num(step)), step
    raise Undecided("slice step")


def _clip(I, x, n):
    if tm.le(x, n) is TRUE or I.decide(tm.le(x, n)) is True:
        return x
    if x.op == "num" and n.op != "num":
        # small constant bounds on symbolic sizes (x[:1], x[1:]) are taken to be inside the array
        return x
    return tm.minmax("min", x, n)


def norm_index(I, idx, nd):
    idx = list(idx) if isinstance(idx, tuple) else [idx]
    out_ = []
    for x in idx:
        if isinstance(x, PhiV):
            x = lift_phi(I, x)
            if isinstance(x, PhiV):
                x = toarr(I, x)
        if isinstance(x, (ListV, tuple, RangeV, SymIter)):
            x = toarr(I, x)
            if x.dims == (ZERO,):
                x = Arr(x.dims, x.fn, "int")
        elif type(x) is ArrV or isinstance(x, Arr):
            a = toarr(I, x)
            x = a if a.dims else a()
        if isinstance(x, bool) or isinstance(x, T) and tm.is_bool(x):
            raise Undecided("boolean scalar index")
        if isinstance(x, Fraction):
            if x.denominator == 1:
                raise PyRaise(ExcV("IndexError", ("only integers, slices are valid indices",)))
        if isinstance(x, str):
            raise PyRaise(ExcV("IndexError", ("only integers, slices are valid indices",)))
        out_.append(x)
    used = sum(0 if x is None else (len(x.dims) if isinstance(x, Arr) and x.dtype == "bool" else 0 if x is ELLIPSIS else 1) for x in out_)
    if used > nd:
        raise PyRaise(ExcV("IndexError", ("too many indices for array",)))
    if any(x is ELLIPSIS for x in out_):
        k = next(j for j, x in enumerate(out_) if x is ELLIPSIS)
        out_[k:k + 1] = [SliceV(None, None, None)] * (nd - used)
    else:
        out_ += [SliceV(None, None, None)] * (nd - used)
    return out_


def basic_view(I, dims, items):
    """View for ints, slices and newaxis"""
    vd, axes = [], []           # axes: per base axis ('k', term) or ('s', view axis, start, count, step)
    ax = 0
    newax = set()
    for x in items:
        if x is None:
            newax.add(len(vd))
            vd.append(ONE)
            continue
        n = dims[ax]
        if isinstance(x, SliceV):
            a, c, st = slice_range(I, x, n)
            axes.append(("s", len(vd), a, c, st))
            vd.append(c)
        else:
            k = wrap(x if isinstance(x, (int, T)) else num(x), n)
            check_bound(I, k, n)
            axes.append(("k", k))
        ax += 1

    def fwd(*i):
        return [a[1] if a[0] == "k" else tm.add(a[2], num(i[a[1]]) if a[4] == 1 else tm.scale(num(i[a[1]]), a[4])) for a in axes]

    nv = len(vd)

    def inv(*b):
        cs, vi = [], [ZERO] * nv
        for a, x, n in zip(axes, b, dims):
            x = num(x)
            if a[0] == "k":
                cs.append(tm.eq(x, a[1]))
            else:
                _, va, st, cnt, step = a
                if step == 1:
                    r = tm.sub(x, st)
                    if not (st is ZERO and cnt is n):
                        cs += [tm.le(ZERO, r), tm.lt(r, cnt)]
                    vi[va] = r
                elif step == -1:
                    r = tm.sub(st, x)
                    cs += [tm.le(ZERO, r), tm.lt(r, cnt)]
                    vi[va] = r
                else:
                    r = tm.sub(x, st)
                    q = tm.floordiv(r, num(step))
                    cs += [tm.le(ZERO, r), tm.eq(tm.mod(r, num(step)), ZERO), tm.lt(q, cnt)]
                    vi[va] = q
        return tm.and_(*cs), vi
    return View(vd, fwd, inv)


def getitem(I, o, idx):
    if isinstance(o, PhiV):
        d = I.decide(o.c)
        if d is not None:
            return getitem(I, o.a if d else o.b, idx)
        if is_arr(o) and type(o.a) is ArrV and type(o.b) is ArrV:
            try:
                a = toarr(I, o)
                return getitem(I, I.arr(a), idx)
            except NeedFork:
                pass
        if isinstance(o.a, tuple) and isinstance(o.b, tuple):
            return I.mv(o.c, getitem(I, o.a, idx), getitem(I, o.b, idx))
        if isinstance(o.a, ListV) and isinstance(o.b, ListV) and not isinstance(idx, SliceV):
            return I.mv(o.c, getitem(I, o.a, idx), getitem(I, o.b, idx))
        raise NeedFork(o.c)
    if isinstance(o, DictV):
        return dict_get(I, o, key(I, idx, o))
    if isinstance(o, (ListV, tuple)):
        items = I.cell(o).items if isinstance(o, ListV) else o
        idx = lift_phi(I, idx) if isinstance(idx, PhiV) else idx
        if isinstance(idx, SliceV):
            return list_slice(I, o, items, idx)
        if type(idx) is ArrV:
            idx = scal(I, idx)
        if isinstance(idx, (str, tuple)) or idx is None or isinstance(idx, Fraction):
            raise PyRaise(ExcV("TypeError", ("list indices must be integers",)))
        n = num(length(I, o))
        i = wrap(idx, n)
        k = conc_int(I, i)
        if k is not None and not any(isinstance(x, Seg) for x in items):
            if not 0 <= k < len(items):
                raise PyRaise(ExcV("IndexError", ("list index out of range",)))
            return items[k]
        return list_get(I, items, i)
    if isinstance(o, str):
        if isinstance(idx, SliceV):
            g = lambda x: None if x is None else need_int(I, x)
            return o[g(idx.lo):g(idx.hi):g(idx.step)]
        return o[need_int(I, idx)]
    if type(o) is ArrV or isinstance(o, Arr):
        return arr_getitem(I, o, idx)
    if isinstance(o, RangeV):
        if isinstance(idx, SliceV):
            return arr_getitem(I, I.arr(toarr(I, o)), idx)
        return tnum(tm.add(num(o.start), tm.mul(wrap(idx, num(range_len(o))), num(o.step))))
    if isinstance(o, SymIter):
        return o.elem(wrap(idx, num(o.n)))
    if isinstance(o, ObjV):
        return I.call(I.getattr(o, "__getitem__"), [idx], {})
    if isinstance(o, (TypeV, ClassV)):
        return o                      # typing subscripts
    if isinstance(o, ExtV):
        return ExtV(o.path + "[]")
    if isinstance(o, BuiltinV):
        return o
    if isinstance(o, T) and o.op == "str":
        return str_slice(o, idx)
    if is_scalar(o):
        if idx == () or idx is ELLIPSIS:
            return o
        if idx is None or isinstance(idx, tuple) and all(x is None for x in idx):
            k = 1 if idx is None else len(idx)
            t = num(o)
            return I.arr(Arr((ONE,) * k, lambda *i: t, dt(o)))
        raise PyRaise(ExcV("IndexError" if isinstance(o, T) else "TypeError", ("scalar is not subscriptable",)))
    if o is None:
        raise PyRaise(ExcV("TypeError", ("'NoneType' object is not subscriptable",)))
    if isinstance(o, Poison):
        raise Undecided("loop-carried value")
    raise PyRaise(ExcV("TypeError", ("object is not subscriptable: " + type(o).__name__,)))


def list_slice(I, o, items, s):
    n = num(length(I, o))
    if n.op == "num" and not any(isinstance(x, Seg) for x in items):
        g = lambda x: None if x is None else need_int(I, x)
        r = items[g(s.lo):g(s.hi):g(s.step)]
        return I.list(r) if isinstance(o, ListV) else tuple(r)
    if s.lo is None and s.hi is None and s.step is None:
        return I.list(items)
    # list of scalars / arrays with symbolic length
    a, cnt, step = slice_range(I, s, n)
    w = tm.fresh(cnt, "ls")
    f = I.freeze(list_get(I, items, tm.add(a, tm.scale(w, step))))
    return I.list([Seg(cnt, lambda i: frozen_subst(f, {w: num(i)}))])


def arr_getitem(I, o, idx):
    a = toarr(I, o)
    items = norm_index(I, idx, len(a.dims))
    if not any(isinstance(x, Arr) for x in items):
        v = basic_view(I, a.dims, items)
        if not v.dims:
            t = a(*v.fwd())
            return t.args[0] if t.op == "bool" else t
        if type(o) is ArrV and not isinstance(I.st.heap[o.cid], PhiCell):
            c = I.st.heap[o.cid]
            return I.arr(None, c.owners, (o.cid, v))
        return I.arr(Arr(v.dims, lambda *i: a(*v.fwd(*i)), a.dtype))
    return out(I, adv_get(I, a, items))


def adv_plan(I, dims, items):
    """Split an index with arrays into: adv = [(base axis, Arr int)], rest basic.
    Returns (out_dims, maps) with maps: base axis -> function(out idx) -> index term"""
    # expand boolean masks into nonzero index arrays
    ax = 0
    ent = []
    for x in items:
        if x is None:
            ent.append(("new",))
        elif isinstance(x, Arr) and x.dtype == "bool":
            if len(x.dims) == 1:
                same_dim(I, x.dims[0], dims[ax])
                n = dims[ax] if x.dims[0].size >= dims[ax].size else x.dims[0]
                v = tm.fresh(n, "mask")
                m = x(v)
                cnt = tm.sum_v(n, v, m, ONE)
                ent.append(("adv", ax, Arr((cnt,), lambda i, n=n, v=v, m=m: tm.nth_v(n, v, m, num(i)) if v in m.fv else num(i), "int")))
                ax += 1
            else:
                raise Undecided("multi-dimensional boolean selection")
        elif isinstance(x, Arr):
            n = dims[ax]
            if x.dtype in ("float", "float32") and x.dims != (ZERO,) and any(d is not ZERO for d in x.dims):
                if not tm.is_int(x(*[tm.fresh(d) for d in x.dims])):
                    raise PyRaise(ExcV("IndexError", ("arrays used as indices must be of integer type",)))
            ent.append(("adv", ax, Arr(x.dims, lambda *i, x=x, n=n: wrap(x(*i), n), "int")))
            ax += 1
        elif isinstance(x, SliceV):
            ent.append(("slice", ax) + slice_range(I, x, dims[ax]))
            ax += 1
        else:
            k = wrap(x if isinstance(x, (int, T)) else num(x), dims[ax])
            check_bound(I, k, dims[ax])
            ent.append(("adv", ax, Arr((), lambda k=k: k, "int")))
            ax += 1
    advs = [j for j, e in enumerate(ent) if e[0] == "adv"]
    bd = broadcast_dims(I, *[ent[j][2].dims for j in advs])
    adjacent = advs == list(range(advs[0], advs[-1] + 1))
    od, maps = [], {}
    pos = None

    def put_adv():
        nonlocal pos
        pos = len(od)
        od.extend(bd)
    if not adjacent:
        put_adv()
    for j, e in enumerate(ent):
        if e[0] == "adv":
            if pos is None:
                put_adv()
        elif e[0] == "new":
            od.append(ONE)
        else:
            _, axx, st, cnt, step = e
            p = len(od)
            od.append(cnt)
            maps[axx] = ("s", p, st, cnt, step)
    for j in advs:
        maps[ent[j][1]] = ("a", pos, ent[j][2])
    return od, bd, pos, maps


def adv_get(I, a, items):
    od, bd, pos, maps = adv_plan(I, a.dims, items)

    def fn(*i):
        bi = []
        for ax in range(len(a.dims)):
            m = maps[ax]
            if m[0] == "s":
                bi.append(tm.add(m[2], num(i[m[1]]) if m[4] == 1 else tm.scale(num(i[m[1]]), m[4])))
            else:
                sub = i[pos:pos + len(bd)]
                bi.append(m[2](*bidx(m[2], bd, sub)))
        return a(*bi)
    return Arr(od, fn, a.dtype)


# ------------------------------------------------------------------ writes
def root(I, cid):
    c = I.st.heap[cid]
    while not isinstance(c, PhiCell) and c.base is not None:
        cid = c.base[0]
        c = I.st.heap[cid]
    return cid, c


def cast(t, dtype, vdtype):
    if dtype == "int" and vdtype in ("float", "float32"):
        return toint(t)
    if dtype == "bool" and vdtype != "bool":
        return tm.not_(tm.eq(t, ZERO))
    if dtype in ("float", "float32", "int") and vdtype == "bool":
        return tm.ite(t, ONE, ZERO) if t.op != "bool" else (ONE if t is TRUE else ZERO)
    if dtype == "float32" and vdtype != "float32":
        return narrow(t)
    return t


def narrow(t):
    """a value stored with fewer digits"""
    t = num(t)
    if tm.is_bool(t) or t.op in ("nan", "inf") or t.op == "app" and t.args[0] == "f32":
        return t
    if t.op == "num" and abs(tm.nval(t)) < 2048 and (tm.nval(t) * 1024).denominator == 1:
        return t
    if t.op == "ite":
        return tm.ite(t.args[0], narrow(t.args[1]), narrow(t.args[2]))
    return tm.app("f32", t)


def toint(t):
    t = num(t)
    if tm.is_bool(t):
        return tm.ite(t, ONE, ZERO)
    if tm.is_int(t):
        return t
    if t.op == "num":
        return num(int(tm.nval(t)))
    if t.op == "ite":
        return tm.ite(t.args[0], toint(t.args[1]), toint(t.args[2]))
    return tm.app("trunc", t)


def write_all(I, o, new):
    """replace every element of the array object o (in place) by new (an Arr of the same dims)"""
    I_ = I
    c = I.st.heap[o.cid]
    if isinstance(c, PhiCell):
        I.cell(o)
    if c.base is None:
        owner_write(I, c)
        d = c.val.dtype
        a = Arr(c.val.dims, lambda *i: cast(new(*i), d, new.dtype), d)
        I.st.heap[o.cid] = ArrCell(a, c.owners)
        return
    bid, v = c.base
    old = cellval(I, I.st.heap[bid])
    b = Arr(old.dims, lambda *i: _wv(v, new, old, i), join_dt(old.dtype, new.dtype) if old.dtype not in ("int", "float32") else old.dtype)
    if old.dtype == "int" and new.dtype in ("float", "float32") or old.dtype == "float32" and new.dtype != "float32":
        newc = Arr(new.dims, lambda *i: cast(new(*i), old.dtype, new.dtype), old.dtype)
        b = Arr(old.dims, lambda *i: _wv(v, newc, old, i), old.dtype)
    write_all(I, ArrV(bid), b)


def _wv(v, new, old, i):
    c, vi = v.inv(*i)
    if c is TRUE:
        return new(*vi)
    if c is FALSE:
        return old(*i)
    return tm.ite(c, new(*vi), old(*i))


def setitem(I, o, idx, val):
    if isinstance(o, PhiV):
        o = I.res(o)
    if isinstance(o, DictV):
        return dict_set(I, o, key(I, idx, o), val)
    if isinstance(o, ListV):
        c = I.cell(o)
        owner_write(I, c)
        if isinstance(idx, SliceV):
            g = lambda x: None if x is None else need_int(I, x)
            if any(isinstance(x, Seg) for x in c.items):
                raise Undecided("slice assignment")
            l = list(c.items)
            l[g(idx.lo):g(idx.hi):g(idx.step)] = I.iter_items(val)
            I.st.heap[o.cid] = ListCell(l, c.owners)
            return
        k = conc_int(I, idx)
        if any(isinstance(x, Seg) for x in c.items):
            raise Undecided("list element assignment")
        l = list(c.items)
        if k is None:
            i = wrap(scal(I, idx), num(len(l)))
            l = [I.mv(tm.eq(i, num(j)), val, x) for j, x in enumerate(l)]
        else:
            if not -len(l) <= k < len(l):
                raise PyRaise(ExcV("IndexError", ("list assignment index out of range",)))
            l[k] = val
        I.st.heap[o.cid] = ListCell(l, c.owners)
        return
    if type(o) is ArrV:
        return arr_setitem(I, o, idx, val)
    if isinstance(o, ObjV):
        return I.call(I.getattr(o, "__setitem__"), [idx, val], {})
    if isinstance(o, tuple):
        raise PyRaise(ExcV("TypeError", ("tuple does not support item assignment",)))
    if isinstance(o, Poison):
        raise Undecided("loop-carried value")
    raise Undecided("item assignment on " + type(o).__name__)


def arr_setitem(I, o, idx, val):
    I.cell(o)
    a = toarr(I, o)
    v = toarr(I, val)
    items = norm_index(I, idx, len(a.dims))
    dtp = a.dtype
    cst = lambda t: cast(t, dtp, v.dtype)
    if not any(isinstance(x, Arr) for x in items):
        w = basic_view(I, a.dims, items)
        vv = _fit(I, v, w.dims)

        def fn(*i):
            c, vi = w.inv(*i)
            if c is FALSE:
                return a(*i)
            x = cst(vv(*vi))
            return x if c is TRUE else tm.ite(c, x, a(*i))
        return write_all(I, o, Arr(a.dims, fn, dtp))
    # boolean mask covering the whole array
    if len(items) == 1 and isinstance(items[0], Arr) and items[0].dtype == "bool" and len(items[0].dims) == len(a.dims) > 1:
        m = items[0]
        for x, y in zip(m.dims, a.dims):
            same_dim(I, x, y)
        if v.dims and not all(d is ONE for d in v.dims):
            raise Undecided("assignment of an array through a multi-dimensional mask")
        x = cst(v(*[ZERO for _ in v.dims]))
        return write_all(I, o, Arr(a.dims, lambda *i: tm.ite(m(*i), x, a(*i)), dtp))
    masks = [x for x in items if isinstance(x, Arr) and x.dtype == "bool"]
    od, bd, pos, maps = None, None, None, None
    if masks:
        if len(masks) > 1 or any(isinstance(x, Arr) and x.dtype != "bool" for x in items):
            raise Undecided("mixed advanced assignment")
        m = masks[0]
        ax = sum(1 for x in items[:next(j for j, y in enumerate(items) if y is m)] if x is not None)
        same_dim(I, m.dims[0], a.dims[ax])
        od, bd, pos, maps = adv_plan(I, a.dims, items)
        vv = _fit(I, v, tuple(od))
        n = a.dims[ax]

        def fn(*i):
            c = [m(i[ax])]
            vi = [ZERO] * len(od)
            for axx in range(len(a.dims)):
                mp = maps[axx]
                if mp[0] == "s":
                    r = tm.sub(num(i[axx]), mp[2])
                    if not (mp[2] is ZERO and mp[3] is a.dims[axx]):
                        c += [tm.le(ZERO, r), tm.lt(r, mp[3])]
                    vi[mp[1]] = r
                elif axx != ax:
                    c.append(tm.eq(num(i[axx]), mp[2]()))
            # rank of i[ax] among the selected positions
            rank = tm.sum_(num(i[ax]), lambda k: ONE, cond=lambda k: m(k))
            vi[pos] = rank
            cc = tm.and_(*c)
            if cc is FALSE:
                return a(*i)
            k = tm.fresh(n, "rk")
            mk_ = m(k)
            x = vv(*vi)
            if k in mk_.fv:
                x = tm.replace(x, tm.nth_v(n, k, mk_, rank), num(i[ax]))
            x = cst(x)
            return tm.ite(cc, x, a(*i))
        return write_all(I, o, Arr(a.dims, fn, dtp))
    od, bd, pos, maps = adv_plan(I, a.dims, items)
    vv = _fit(I, v, tuple(od))
    cnt = tm.mul(ONE, *bd) if bd else ONE

    def fn(*i):
        base_c, vi = [], [ZERO] * len(od)
        for axx in range(len(a.dims)):
            mp = maps[axx]
            if mp[0] == "s":
                r = tm.sub(num(i[axx]), mp[2])
                if not (mp[2] is ZERO and mp[3] is a.dims[axx]):
                    base_c += [tm.le(ZERO, r), tm.lt(r, mp[3])]
                vi[mp[1]] = r

        def hit(sub):
            cs = list(base_c)
            for axx in range(len(a.dims)):
                mp = maps[axx]
                if mp[0] == "a":
                    cs.append(tm.eq(num(i[axx]), mp[2](*bidx(mp[2], bd, sub))))
            vi2 = list(vi)
            vi2[pos:pos + len(bd)] = list(sub)
            return tm.and_(*cs), vi2
        if cnt.op == "num" and tm.nval(cnt) <= 32:
            import itertools
            r = a(*i)
            for sub in itertools.product(*[range(int(tm.nval(d))) for d in bd]):
                c, vi2 = hit([num(s) for s in sub])
                if c is FALSE:
                    continue
                r = tm.ite(c, cst(vv(*vi2)), r)
            return r
        if len(bd) != 1:
            raise Undecided("symbolic scatter")
        k = tm.fresh(bd[0], "sc")
        c, vi2 = hit([k])
        # unique position when the index is linear in k
        for x in (c.args if c.op == "and" else (c,)):
            if x.op == "eq0" and k in x.fv:
                s = tm.solve(x.args[0], k)
                if s is not None:
                    c2 = tm.and_(tm.subst(c, {k: s}), tm.le(ZERO, s), tm.lt(s, bd[0]))
                    return tm.ite(c2, tm.subst(cst(vv(*vi2)), {k: s}), a(*i))
        last = tm.red_v("rmax", bd[0], k, c, k)
        return tm.ite(tm.red_v("any", bd[0], k, TRUE, c), tm.subst(cst(vv(*vi2)), {k: last}), a(*i))
    write_all(I, o, Arr(a.dims, fn, dtp))


def _fit(I, v, dims):
    """broadcast the assigned value to dims (leading ones of v are dropped)"""
    while len(v.dims) > len(dims) and v.dims[0] is ONE:
        vv = v
        v = Arr(vv.dims[1:], lambda *i, vv=vv: vv(ZERO, *i), vv.dtype)
    if len(v.dims) > len(dims):
        raise PyRaise(ExcV("ValueError", ("could not broadcast input array",)))
    off = len(dims) - len(v.dims)
    for j, d in enumerate(v.dims):
        if d is not ONE:
            same_dim(I, d, dims[off + j])
    return Arr(dims, lambda *i: v(*bidx(v, dims, i)), v.dtype)


def delitem(I, o, idx):
    if isinstance(o, DictV):
        c = I.cell(o)
        k = key(I, idx, o)
        if all(kk != k for kk, _ in c.items):
            raise PyRaise(ExcV("KeyError", (k,)))
        owner_write(I, c)
        I.st.heap[o.cid] = DictCell([(a, b) for a, b in c.items if a != k], c.owners, c.default)
        return
    if isinstance(o, ListV):
        c = I.cell(o)
        l = list(c.items)
        if isinstance(idx, SliceV):
            g = lambda x: None if x is None else need_int(I, x)
            del l[g(idx.lo):g(idx.hi):g(idx.step)]
        else:
            del l[need_int(I, idx)]
        owner_write(I, c)
        I.st.heap[o.cid] = ListCell(l, c.owners)
        return
    raise Undecided("del")


def reshape_view(dims, nd):
    """fwd/inv of a C-order reshape"""
    def lin(ds, i):
        r = ZERO
        for d, x in zip(ds, i):
            r = tm.add(tm.mul(r, d), num(x))
        return r

    def unlin(ds, l):
        out_ = []
        for d in reversed(ds[1:]):
            out_.append(tm.mod(l, d))
            l = tm.floordiv(l, d)
        out_.append(l)
        return list(reversed(out_)) if ds else []
    # drop/insert unit axes without arithmetic
    d1 = [d for d in dims if d is not ONE]
    d2 = [d for d in nd if d is not ONE]
    if len(d1) == len(d2) and all(a is b for a, b in zip(d1, d2)):
        def mv(src, dst):
            def f(*i):
                vals = [num(x) for x, d in zip(i, src) if d is not ONE]
                o, k = [], 0
                for d in dst:
                    if d is ONE:
                        o.append(ZERO)
                    else:
                        o.append(vals[k])
                        k += 1
                return o
            return f
        f, g = mv(nd, dims), mv(dims, nd)
        return View(nd, f, lambda *b: (TRUE, g(*b)))
    return View(nd, lambda *i: unlin(list(dims), lin(nd, i)), lambda *b: (TRUE, unlin(list(nd), lin(dims, b))))


def as_view(I, v, view):
    """a view object over v (an ArrV) or a plain array when v is not an object"""
    if type(v) is ArrV and not isinstance(I.st.heap[v.cid], PhiCell):
        return I.arr(None, I.st.heap[v.cid].owners, (v.cid, view))
    a = toarr(I, v)
    return I.arr(Arr(view.dims, lambda *i: a(*view.fwd(*i)), a.dtype))
