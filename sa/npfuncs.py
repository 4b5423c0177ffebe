"""Table of numpy functions / array methods on abstract arrays."""
import ast
from fractions import Fraction
from . import terms as tm
from .terms import T, num, TRUE, FALSE, ZERO, ONE, INF, NAN
from .values import *
from .interp import Undecided, NeedFork, PyRaise
from . import npmodel as M
from .npmodel import toarr, out, ew, scal, need_int, conc_int, same_dim, broadcast_dims, bidx, tnum

F = {}


def fn(*names):
    def d(f):
        for n in names:
            F[n] = f
        return f
    return d


def bindargs(names, args, kw, defaults=None):
    """positional/keyword binding of a numpy function"""
    r = dict(defaults or {})
    for n, v in zip(names, args):
        r[n] = v
    if len(args) > len(names):
        raise Undecided("too many numpy arguments")
    for k, v in kw.items():
        if k not in names:
            raise Undecided("numpy keyword %s" % k)
        r[k] = v
    return [r.get(n) for n in names]


def dtype_of(I, d):
    if d is None:
        return None
    d = I.res(d) if isinstance(d, PhiV) else d
    n = d if isinstance(d, str) else getattr(d, "name", None) or getattr(d, "path", "")
    n = str(n)
    if any(x in n for x in ("float32", "float16", "half", "single")):
        return "float32"
    for k in ("float", "bool", "int", "object", "str"):
        if k in n:
            return k
    if n == "double":
        return "float"
    return "float"


def castarr(a, d):
    if d is None or d == a.dtype or d in ("object", "str"):
        return a
    return Arr(a.dims, lambda *i: M.cast(a(*i), d, a.dtype), d)


def shape_of(I, s):
    if is_scalar(s) or isinstance(s, PhiV):
        s = (s,)
    if isinstance(s, (ListV,)) or type(s) is ArrV:
        s = tuple(I.iter_items(s))
    return [num(scal(I, x)) for x in s]


def axis_of(I, ax, nd):
    if ax is None:
        return None
    if isinstance(ax, tuple):
        return tuple(axis_of(I, x, nd) for x in ax)
    k = need_int(I, ax)
    if not -nd <= k < nd:
        raise PyRaise(ExcV("AxisError", ("axis out of bounds",)))
    return k % nd


# ------------------------------------------------------------------ construction
@fn("array")
def f_array(I, args, kw):
    x, d, copy = bindargs(["object", "dtype", "copy"], args, kw)
    a = toarr(I, x)
    return I.arr(castarr(a, dtype_of(I, d)))


@fn("asarray", "asanyarray", "ascontiguousarray", "atleast_1d")
def f_asarray(I, args, kw):
    x, d = bindargs(["a", "dtype"], args, kw)
    if type(x) is ArrV:
        a = toarr(I, x)
        dd = dtype_of(I, d)
        if dd is None or dd == a.dtype:
            return x
        return I.arr(castarr(a, dd))
    a = toarr(I, x)
    return I.arr(castarr(a, dtype_of(I, d)))


@fn("atleast_2d")
def f_atleast2(I, args, kw):
    a = toarr(I, args[0])
    if len(a.dims) >= 2:
        return args[0]
    return I.arr(Arr((ONE,) + (a.dims or (ONE,)), lambda z, *i: a(*i[:len(a.dims)]), a.dtype))


@fn("squeeze")
def f_squeeze(I, args, kw):
    x, ax = bindargs(["a", "axis"], args, kw)
    a = toarr(I, x)
    if ax is None:
        nd = tuple(d for d in a.dims if d is not ONE)
    else:
        k = axis_of(I, ax, len(a.dims))
        nd = a.dims[:k] + a.dims[k + 1:]
    if not nd:
        return out(I, Arr((), lambda: a(*[ZERO for _ in a.dims]), a.dtype))
    return M.as_view(I, x, M.reshape_view(a.dims, nd))


@fn("expand_dims")
def f_expand(I, args, kw):
    x, ax = bindargs(["a", "axis"], args, kw)
    a = toarr(I, x)
    axs = list(ax) if isinstance(ax, tuple) else [ax]
    nd = list(a.dims)
    tot = len(nd) + len(axs)
    ks = sorted(axis_of(I, k, tot) for k in axs)
    for k in ks:
        nd.insert(k, ONE)
    return M.as_view(I, x, M.reshape_view(a.dims, tuple(nd)))


@fn("reshape")
def f_reshape(I, args, kw):
    x, s, order = bindargs(["a", "newshape", "order"], args, kw)
    if order not in (None, "C"):
        raise Undecided("reshape order")
    a = toarr(I, x)
    return do_reshape(I, x, a, shape_of(I, s))


def do_reshape(I, x, a, nd):
    tot = tm.mul(ONE, *a.dims)
    neg = [k for k, d in enumerate(nd) if d.op == "num" and tm.nval(d) == -1]
    if neg:
        rest = tm.mul(ONE, *[d for k, d in enumerate(nd) if k != neg[0]])
        nd[neg[0]] = tm.floordiv(tot, rest)
    else:
        e = tm.eq(tot, tm.mul(ONE, *nd))
        if e is FALSE:
            raise PyRaise(ExcV("ValueError", ("cannot reshape array",)))
        if e is not TRUE and I.decide(e) is not True:
            I.event("shape", e)
    nd = tuple(nd)
    if not nd:
        return out(I, Arr((), lambda: a(*[ZERO for _ in a.dims]), a.dtype))
    return M.as_view(I, x, M.reshape_view(a.dims, nd))


@fn("ravel")
def f_ravel(I, args, kw):
    a = toarr(I, args[0])
    return do_reshape(I, args[0], a, [tm.mul(ONE, *a.dims)])


@fn("flatten")
def f_flatten(I, args, kw):
    a = toarr(I, args[0])
    return do_reshape(I, I.arr(a), a, [tm.mul(ONE, *a.dims)])


@fn("transpose")
def f_transpose(I, args, kw):
    x = args[0]
    a = toarr(I, x)
    n = len(a.dims)
    ax = args[1:] if len(args) > 1 else None
    if ax and isinstance(ax[0], (tuple, ListV)):
        ax = I.iter_items(ax[0])
    if "axes" in kw:
        ax = I.iter_items(kw["axes"])
    p = [axis_of(I, k, n) for k in ax] if ax else list(reversed(range(n)))
    inv = [p.index(k) for k in range(n)]
    return M.as_view(I, x, View(tuple(a.dims[k] for k in p), lambda *i: [i[inv[k]] for k in range(n)], lambda *b: (TRUE, [b[k] for k in p])))


@fn("swapaxes")
def f_swap(I, args, kw):
    a = toarr(I, args[0])
    n = len(a.dims)
    p = list(range(n))
    i, j = axis_of(I, args[1], n), axis_of(I, args[2], n)
    p[i], p[j] = p[j], p[i]
    return f_transpose(I, [args[0], tuple(p)], {})


@fn("moveaxis")
def f_move(I, args, kw):
    a = toarr(I, args[0])
    n = len(a.dims)
    s, d = axis_of(I, args[1], n), axis_of(I, args[2], n)
    p = [k for k in range(n) if k != s]
    p.insert(d, s)
    return f_transpose(I, [args[0], tuple(p)], {})


def filled(I, dims, v, d):
    t = num(v)
    return I.arr(Arr(dims, lambda *i: t, d))


@fn("zeros")
def f_zeros(I, args, kw):
    s, d = bindargs(["shape", "dtype"], args, kw)
    dd = dtype_of(I, d) or "float"
    return filled(I, shape_of(I, s), FALSE if dd == "bool" else 0, dd)


@fn("ones")
def f_ones(I, args, kw):
    s, d = bindargs(["shape", "dtype"], args, kw)
    dd = dtype_of(I, d) or "float"
    return filled(I, shape_of(I, s), TRUE if dd == "bool" else 1, dd)


@fn("empty")
def f_empty(I, args, kw):
    s, d = bindargs(["shape", "dtype"], args, kw)
    tok = tm.app("uninit", num(next(tm._fresh)))
    return filled(I, shape_of(I, s), tok, dtype_of(I, d) or "float")


@fn("full")
def f_full(I, args, kw):
    s, v, d = bindargs(["shape", "fill_value", "dtype"], args, kw)
    a = toarr(I, v)
    dims = tuple(shape_of(I, s))
    return I.arr(castarr(M.broadcast_to(I, a, dims), dtype_of(I, d)))


@fn("zeros_like")
def f_zl(I, args, kw):
    x, d = bindargs(["a", "dtype"], args, kw)
    a = toarr(I, x)
    dd = dtype_of(I, d) or a.dtype
    return filled(I, a.dims, FALSE if dd == "bool" else 0, dd)


@fn("ones_like")
def f_ol(I, args, kw):
    x, d = bindargs(["a", "dtype"], args, kw)
    a = toarr(I, x)
    dd = dtype_of(I, d) or a.dtype
    return filled(I, a.dims, TRUE if dd == "bool" else 1, dd)


@fn("empty_like")
def f_el(I, args, kw):
    x, d = bindargs(["a", "dtype"], args, kw)
    a = toarr(I, x)
    return filled(I, a.dims, tm.app("uninit", num(next(tm._fresh))), dtype_of(I, d) or a.dtype)


@fn("full_like")
def f_fl(I, args, kw):
    x, v, d = bindargs(["a", "fill_value", "dtype"], args, kw)
    a = toarr(I, x)
    dd = dtype_of(I, d) or a.dtype
    va = M.broadcast_to(I, toarr(I, v), a.dims)
    return I.arr(Arr(a.dims, lambda *i: M.cast(va(*i), dd, va.dtype), dd))


@fn("eye", "identity")
def f_eye(I, args, kw):
    n = num(scal(I, args[0]))
    return I.arr(Arr((n, n), lambda i, j: tm.ite(tm.eq(num(i), num(j)), ONE, ZERO), "float"))


@fn("arange")
def f_arange(I, args, kw):
    a = [kw.get(k) for k in ("start", "stop", "step")]
    d = kw.get("dtype")
    if len(args) == 1 and kw.get("stop") is None:
        start, stop, step = 0, args[0], 1
    else:
        v = list(args) + [None] * (3 - len(args))
        start, stop, step = [x if x is not None else y for x, y in zip(v, a)]
        start = 0 if start is None else start
        step = 1 if step is None else step
    s0, s1, st = num(scal(I, start)), num(scal(I, stop)), num(scal(I, step))
    isint = all(tm.is_int(x) for x in (s0, s1, st)) and not any(isinstance(x, Fraction) for x in (start, stop, step))
    if st.op == "num" and s0.op == "num" and s1.op == "num":
        import math
        n = num(max(0, math.ceil((tm.nval(s1) - tm.nval(s0)) / tm.nval(st))))
    elif st is ONE and tm.is_int(tm.sub(s1, s0)):
        n = tm.sub(s1, s0)
    else:
        raise Undecided("arange with a symbolic step")
    return I.arr(Arr((n,), lambda i: tm.add(s0, tm.mul(st, num(i))), dtype_of(I, d) or ("int" if isint else "float")))


@fn("linspace")
def f_linspace(I, args, kw):
    a, b, n, endpoint, retstep, d, ax = bindargs(["start", "stop", "num", "endpoint", "retstep", "dtype", "axis"], args, kw,
                                               {"num": 50, "endpoint": True, "retstep": False})
    if any(isinstance(v, (str, dict)) for v in (a, b, n)) or n is None:
        raise PyRaise(ExcV("TypeError", ("'%s' object cannot be interpreted as an integer" % type(n).__name__,)))
    aa, bb = toarr(I, a), toarr(I, b)
    if aa.dims or bb.dims:
        raise Undecided("linspace of arrays")
    a, b = aa(), bb()
    n = num(scal(I, n))
    dn = tm.sub(n, 1) if I.decide(I.truth(endpoint)) else n
    step = ZERO if dn is ZERO else tm.div(tm.sub(b, a), dn)
    r = I.arr(castarr(Arr((n,), lambda i: tm.add(a, tm.mul(step, num(i))), "float"), dtype_of(I, d)))
    if I.decide(I.truth(retstep)):
        return (r, step)
    return r


@fn("copy")
def f_copy(I, args, kw):
    return I.arr(toarr(I, args[0]))


@fn("astype")
def f_astype(I, args, kw):
    a = toarr(I, args[0])
    d = args[1] if len(args) > 1 else kw.get("dtype")
    if "copy" in kw and I.decide(I.truth(kw["copy"])) is False and dtype_of(I, d) == a.dtype:
        return args[0]
    return I.arr(castarr(a, dtype_of(I, d)))


# ------------------------------------------------------------------ elementwise
def unary(name, f, dtype=None):
    def g(I, args, kw):
        kw = dict(kw)
        where, o = kw.pop("where", None), kw.pop("out", None)
        dd = dtype_of(I, kw.pop("dtype", None))
        if kw:
            raise Undecided("ufunc keyword")
        if len(args) > 1:
            o = args[1]
        return deliver(I, as_dtype(I, ew(I, f, as_dtype(I, args[0], dd), dtype=dtype), dd), where, o)
    F[name] = g


def as_dtype(I, x, d):
    """the argument or result of an operation carried out in the given type"""
    if d not in ("int", "float32"):
        return x
    return out(I, castarr(toarr(I, x), d))


def deliver(I, r, where, o):
    """result of a ufunc called with where= / out="""
    if isinstance(o, tuple):
        o = o[0]
    if where is not None and where is not True:
        w = toarr(I, where)
        old = toarr(I, o) if o is not None else Arr(r.dims, lambda *i: tm.app("uninit", ZERO, *i), r.dtype)
        dims = broadcast_dims(I, r.dims, w.dims)
        rr, ww = r, w
        r = Arr(dims, lambda *i: tm.ite(b_(ww(*bidx(ww, dims, i))), rr(*bidx(rr, dims, i)), old(*bidx(old, dims, i))), rr.dtype)
    if o is not None:
        M.write_all(I, o, r)
        return o
    return out(I, r)


def t_exp(a):
    return tm.app("exp", num(a))


unary("sqrt", lambda a: tm.sqrt(num(a)), "float")
unary("square", lambda a: tm.mul(a, a))
unary("abs", tm.abs_)
unary("absolute", tm.abs_)
unary("fabs", tm.abs_, "float")
unary("negative", tm.neg)
unary("isnan", lambda a: tm.isnan(num(a)), "bool")
unary("isfinite", lambda a: tm.not_(tm.or_(tm.isnan(num(a)), tm.eq(tm.abs_(num(a)), INF))), "bool")
unary("isinf", lambda a: tm.eq(tm.abs_(num(a)), INF), "bool")
unary("logical_not", lambda a: tm.not_(a) if tm.is_bool(a) else tm.eq(a, ZERO), "bool")
unary("invert", lambda a: tm.not_(a))
unary("floor", lambda a: a if tm.is_int(num(a)) else tm.mk("floor", num(a)), "float")
unary("ceil", lambda a: a if tm.is_int(num(a)) else tm.neg(tm.mk("floor", tm.neg(num(a)))), "float")
unary("rint", lambda a: tm.app("round", num(a), ZERO), "float")
unary("sign", lambda a: tm.ite(tm.lt(a, ZERO), num(-1), tm.ite(tm.eq(a, ZERO), ZERO, ONE)))
for _n in ("exp", "log", "log2", "log10", "sin", "cos", "tan", "tanh", "log1p", "expm1", "arctan"):
    unary(_n, lambda a, _n=_n: tm.app(_n, num(a)), "float")


def b_(a):
    return a if tm.is_bool(a) else tm.not_(tm.eq(a, ZERO))


def binary(name, f, dtype=None):
    def g(I, args, kw):
        kw = dict(kw)
        where, o = kw.pop("where", None), kw.pop("out", None)
        dd = dtype_of(I, kw.pop("dtype", None))
        if kw:
            raise Undecided("ufunc keyword")
        a, b = args[:2]
        if len(args) > 2:
            o = args[2]
        return deliver(I, as_dtype(I, ew(I, f, as_dtype(I, a, dd), as_dtype(I, b, dd), dtype=dtype), dd), where, o)
    F[name] = g


binary("add", tm.add)
binary("subtract", tm.sub)
binary("multiply", tm.mul)
binary("divide", M.t_div, "float")
binary("true_divide", M.t_div, "float")
binary("power", M.t_pow)
binary("floor_divide", tm.floordiv)
binary("mod", tm.mod)
binary("remainder", tm.mod)
binary("maximum", lambda a, b: tm.minmax("max", a, b))
binary("minimum", lambda a, b: tm.minmax("min", a, b))
binary("fmax", lambda a, b: tm.minmax("max", a, b))
binary("fmin", lambda a, b: tm.minmax("min", a, b))
binary("logical_and", lambda a, b: tm.and_(b_(a), b_(b)), "bool")
binary("logical_or", lambda a, b: tm.or_(b_(a), b_(b)), "bool")
binary("logical_xor", lambda a, b: M._xor(b_(a), b_(b)), "bool")
binary("bitwise_and", M._and, "bool")
binary("bitwise_or", M._or, "bool")
binary("greater", lambda a, b: tm.lt(b, a), "bool")
binary("greater_equal", lambda a, b: tm.le(b, a), "bool")
binary("less", tm.lt, "bool")
binary("less_equal", tm.le, "bool")
binary("equal", M.eqt, "bool")
binary("not_equal", lambda a, b: tm.not_(M.eqt(a, b)), "bool")


@fn("isclose")
def f_isclose(I, args, kw):
    a, b, rtol, atol, en = bindargs(["a", "b", "rtol", "atol", "equal_nan"], args, kw, {"rtol": Fraction("1e-5"), "atol": Fraction("1e-8")})
    r, t = num(scal(I, rtol)), num(scal(I, atol))
    return out(I, ew(I, lambda x, y: tm.le(tm.abs_(tm.sub(x, y)), tm.add(t, tm.mul(r, tm.abs_(num(y))))), a, b, dtype="bool"))


@fn("allclose")
def f_allclose(I, args, kw):
    r = toarr(I, f_isclose(I, args, kw))
    return M.b2v(tm.not_(M.any_over(I, Arr(r.dims, lambda *i: tm.not_(r(*i)), "bool"))))


@fn("array_equal")
def f_array_equal(I, args, kw):
    a, b = toarr(I, args[0]), toarr(I, args[1])
    if len(a.dims) != len(b.dims):
        return False
    dc = tm.and_(*[tm.eq(x, y) for x, y in zip(a.dims, b.dims)])
    if dc is FALSE:
        return False
    return M.b2v(tm.and_(dc, tm.not_(M.any_over(I, Arr(a.dims, lambda *i: tm.not_(M.eqt(a(*i), b(*i))), "bool")))))


@fn("clip")
def f_clip(I, args, kw):
    x, lo, hi, o = bindargs(["a", "a_min", "a_max", "out"], args, {("a_min" if k == "min" else "a_max" if k == "max" else k): v for k, v in kw.items()})
    r = toarr(I, x)
    if lo is not None:
        r = ew(I, lambda a, b: tm.minmax("max", a, b), r, lo)
    if hi is not None:
        r = ew(I, lambda a, b: tm.minmax("min", a, b), r, hi)
    if o is not None:
        M.write_all(I, o, r)
        return o
    return out(I, r)


@fn("round", "around", "round_")
def f_round(I, args, kw):
    x, d, o = bindargs(["a", "decimals", "out"], args, kw, {"decimals": 0})
    dd = num(scal(I, d))
    return out(I, ew(I, lambda a: a if tm.is_int(num(a)) and a.op != "num" else t_round(a, dd), x))


def t_round(a, d):
    a = num(a)
    if a.op == "num" and d.op == "num":
        return num(round(tm.nval(a), int(tm.nval(d))))
    return tm.app("round", a, d)


@fn("where")
def f_where(I, args, kw):
    if len(args) == 1:
        return f_nonzero(I, args, kw)
    c, a, b = args
    return out(I, ew2(I, lambda c, x, y: tm.ite(b_(c), x, y), c, a, b))


def ew2(I, f, c, a, b):
    r = ew(I, f, c, a, b)
    r.dtype = M.join_dt(toarr(I, a).dtype, toarr(I, b).dtype)
    return r


@fn("select")
def f_select(I, args, kw):
    cs, xs = I.iter_items(args[0]), I.iter_items(args[1])
    r = args[2] if len(args) > 2 else kw.get("default", 0)
    for c, x in reversed(list(zip(cs, xs))):
        r = f_where(I, [c, x, r], {})
    return r


@fn("nan_to_num")
def f_nan_to_num(I, args, kw):
    v = num(scal(I, kw.get("nan", 0)))
    return out(I, ew(I, lambda a: tm.ite(tm.isnan(num(a)), v, a), args[0]))


# ------------------------------------------------------------------ reductions
SMALL = 8


def reduce_axis(I, a, k, f):
    """f(n, g) with g(i) -> T, reducing axis k"""
    nd = a.dims[:k] + a.dims[k + 1:]
    return Arr(nd, lambda *i: f(a.dims[k], lambda v: a(*i[:k], v, *i[k:])), a.dtype)


def r_sum(n, g):
    return tm.sum_(n, lambda v: num(g(v)))


def small(n):
    return int(tm.nval(n)) if n.op == "num" and tm.nval(n) <= SMALL else None


def r_min(n, g, op="min"):
    k = small(n)
    if k is not None:
        if k == 0:
            raise PyRaise(ExcV("ValueError", ("zero-size array to reduction operation",)))
        return tm.minmax(op, *[num(g(num(j))) for j in range(k)]) if k > 1 else num(g(ZERO))
    return tm.red("r" + op, n, g)


def r_max(n, g):
    return r_min(n, g, "max")


def r_any(n, g):
    k = small(n)
    if k is not None:
        return tm.or_(*[b_(g(num(j))) for j in range(k)]) if k else FALSE
    return tm.red("any", n, lambda v: b_(g(v)))


def r_all(n, g):
    return tm.not_(r_any(n, lambda v: tm.not_(b_(g(v)))))


def r_argmax(n, g, op="argmax"):
    k = small(n)
    if k is not None:
        best, val = ZERO, num(g(ZERO))
        for j in range(1, k):
            x = num(g(num(j)))
            c = tm.lt(val, x) if op == "argmax" else tm.lt(x, val)
            best = tm.ite(c, num(j), best)
            val = tm.minmax("max" if op == "argmax" else "min", val, x)
        return best
    return tm.red(op, n, g)


def r_prod(n, g):
    k = small(n)
    if k is None:
        return tm.red("prod", n, lambda v: num(g(v)))
    return tm.mul(ONE, *[num(g(num(j))) for j in range(k)])


def r_mean(n, g):
    return tm.div(r_sum(n, g), n)


def r_var(n, g, ddof=ZERO):
    m = r_mean(n, g)
    s = tm.sum_(n, lambda v: tm.pow_(tm.sub(num(g(v)), m), 2))
    return tm.div(s, tm.sub(n, ddof))


def r_nan(f, base):
    def h(n, g):
        ok = lambda v: tm.not_(tm.isnan(num(g(v))))
        s = tm.sum_(n, lambda v: tm.ite(ok(v), num(g(v)), ZERO))
        if base == "sum":
            return s
        return tm.div(s, tm.sum_(n, lambda v: tm.ite(ok(v), ONE, ZERO)))
    return h


def reduction(names, f, dtype=None, extra=()):
    def g(I, args, kw):
        kw = dict(kw)
        dd = kw.pop("dtype", None)
        where = kw.pop("where", None)
        ns = ["a", "axis"] + list(extra) + ["out", "keepdims"]
        pos = ["a", "axis"]
        r = dict(zip(pos if len(args) <= 2 else ["a", "axis", "dtype", "out"], args))
        dd = dtype_of(I, r.pop("dtype", dd))
        for k, v in kw.items():
            if k == "initial":
                raise Undecided("reduction initial")
            r[k] = v
        x, ax = r.get("a"), r.get("axis")
        keep = r.get("keepdims")
        keep = keep is not None and bool(I.decide(I.truth(keep)))
        a = toarr(I, x)
        if dd in ("int", "float32"):
            a = castarr(a, dd)
        if where is not None:
            raise Undecided("reduction where")
        ff = f
        if "ddof" in extra and r.get("ddof") is not None:
            dd = num(scal(I, r["ddof"]))
            ff = lambda n, h: f(n, h, dd)
        res = do_reduce(I, a, ax, ff, keep)
        res.dtype = dtype or ("int" if a.dtype == "bool" else a.dtype)
        if dd in ("int", "float32") and dd != res.dtype and not (dtype in ("int", "bool")):
            res = castarr(res, dd)
        if r.get("out") is not None:
            M.write_all(I, r["out"], res)
            return r["out"]
        return out(I, res)
    for n in names:
        F[n] = g
        if n in ("sum", "mean"):
            g.flat = True


def do_reduce(I, a, ax, ff, keep=False):
    nd = len(a.dims)
    axes = list(range(nd)) if ax is None else axis_of(I, ax, nd)
    axes = list(axes) if isinstance(axes, (tuple, list)) else [axes]
    if len(axes) == nd and nd == 0:
        return Arr((), lambda: ff(ONE, lambda v: a()), a.dtype)
    if len(axes) == 1:
        r = reduce_axis(I, a, axes[0], ff)
    elif ff in (r_sum, r_min, r_max, r_any, r_all, r_prod):
        r = a
        for k in sorted(axes, reverse=True):
            r = reduce_axis(I, r, k, ff)
    else:
        # flatten the reduced axes; expressed through sums for mean/var
        if ff is r_mean:
            r = a
            for k in sorted(axes, reverse=True):
                r = reduce_axis(I, r, k, r_mean)
        elif len(axes) == nd:
            f = toarr(I, do_reshape(I, I.arr(a), a, [tm.mul(ONE, *a.dims)]))
            if ff is r_var or getattr(ff, "__name__", "") == "r_std":
                s1 = tm.div(do_reduce(I, a, None, r_sum)(), tm.mul(*a.dims))
                v = tm.div(do_reduce(I, Arr(a.dims, lambda *i: tm.pow_(tm.sub(a(*i), s1), 2)), None, r_sum)(), tm.mul(*a.dims))
                r = Arr((), lambda: v if ff is r_var else tm.sqrt(v), "float")
            else:
                r = reduce_axis(I, f, 0, ff)
        else:
            raise Undecided("reduction over several axes")
    if keep:
        nd2 = [ONE if k in axes else d for k, d in enumerate(a.dims)]
        rest = [k for k in range(nd) if k not in axes]
        r0 = r
        r = Arr(nd2, lambda *i: r0(*[i[k] for k in rest]), r0.dtype)
    return r


def r_std(n, g, ddof=ZERO):
    return tm.sqrt(r_var(n, g, ddof))


reduction(["sum"], r_sum)
reduction(["mean"], r_mean, "float")
reduction(["average_"], r_mean, "float")
reduction(["min", "amin"], r_min)
reduction(["max", "amax"], r_max)
reduction(["any"], r_any, "bool")
reduction(["all", "alltrue"], r_all, "bool")
reduction(["prod"], r_prod)
reduction(["var"], r_var, "float", ("ddof",))
reduction(["std"], r_std, "float", ("ddof",))
reduction(["argmax"], r_argmax, "int")
reduction(["argmin"], lambda n, g: r_argmax(n, g, "argmin"), "int")
reduction(["nansum"], r_nan(None, "sum"), "float")
reduction(["nanmean"], r_nan(None, "mean"), "float")
reduction(["median"], lambda n, g: tm.app("median", tm.lam(n, lambda v: num(g(v)))), "float")
reduction(["ptp"], lambda n, g: tm.sub(r_max(n, g), r_min(n, g)))
reduction(["count_nonzero"], lambda n, g: tm.sum_(n, lambda v: tm.ite(b_(g(v)), ONE, ZERO)), "int")


@fn("average")
def f_average(I, args, kw):
    x, ax, w = bindargs(["a", "axis", "weights"], args, kw)
    if w is None:
        return F["mean"](I, [x], {"axis": ax})
    a, ww = toarr(I, x), toarr(I, w)
    if len(a.dims) == 1:
        n = same_dim(I, a.dims[0], ww.dims[0])
        return out(I, Arr((), lambda: tm.div(r_sum(n, lambda v: tm.mul(a(v), ww(v))), r_sum(n, ww)), "float"))
    k = axis_of(I, ax, len(a.dims))
    n = a.dims[k]
    if len(ww.dims) != 1:
        raise Undecided("average weights")
    r = reduce_axis(I, Arr(a.dims, lambda *i: tm.mul(a(*i), ww(i[k])), "float"), k, r_sum)
    tot = r_sum(n, ww)
    return out(I, Arr(r.dims, lambda *i: tm.div(r(*i), tot), "float"))


for _n in ("percentile", "quantile"):
    def _q(I, args, kw, _n=_n):
        a = toarr(I, args[0])
        if len(a.dims) != 1:
            raise Undecided("quantile axis")
        q = toarr(I, args[1])
        L = tm.lam(a.dims[0], a)
        return out(I, Arr(q.dims, lambda *i: tm.app(_n, L, q(*i)), "float"))
    F[_n] = _q


@fn("dot", "matmul", "inner")
def f_dot(I, args, kw):
    a, b = toarr(I, args[0]), toarr(I, args[1])
    if not a.dims or not b.dims:
        return out(I, ew(I, tm.mul, a, b))
    kb = max(len(b.dims) - 2, 0)
    n = same_dim(I, a.dims[-1], b.dims[kb])
    if len(a.dims) > 2 or len(b.dims) > 2:
        raise Undecided("dot of high-dimensional arrays")
    nd = a.dims[:-1] + b.dims[:kb] + b.dims[kb + 1:]
    na = len(a.dims) - 1
    return out(I, Arr(nd, lambda *i: r_sum(n, lambda v: tm.mul(a(*i[:na], v), b(*((v,) if kb == 0 and len(b.dims) == 1 else (v,) + tuple(i[na:]))))), M.join_dt(a.dtype, b.dtype)))


# ------------------------------------------------------------------ scans, sorting, searching
@fn("cumsum")
def f_cumsum(I, args, kw):
    x, ax = bindargs(["a", "axis"], args, {k: v for k, v in kw.items() if k != "dtype"})
    a = toarr(I, x)
    if ax is None:
        if len(a.dims) != 1:
            a = toarr(I, f_ravel(I, [x], {}))
        k = 0
    else:
        k = axis_of(I, ax, len(a.dims))

    def g(*i):
        return tm.sum_(tm.add(num(i[k]), 1), lambda v: num(a(*i[:k], v, *i[k + 1:])))
    return I.arr(Arr(a.dims, g, "int" if a.dtype == "bool" else a.dtype))


@fn("diff")
def f_diff(I, args, kw):
    x, n, ax = bindargs(["a", "n", "axis"], args, kw, {"n": 1, "axis": -1})
    a = toarr(I, x)
    k = axis_of(I, ax, len(a.dims))
    for _ in range(need_int(I, n)):
        b = a
        a = Arr(b.dims[:k] + (tm.sub(b.dims[k], 1),) + b.dims[k + 1:], lambda *i, b=b: tm.sub(b(*i[:k], tm.add(num(i[k]), 1), *i[k + 1:]), b(*i)), b.dtype)
    return I.arr(a)


def small_sort(vals):
    """sorting network on terms (min/max)"""
    v = list(vals)
    n = len(v)
    for i in range(n):
        for j in range(0, n - 1 - i):
            a, b = v[j], v[j + 1]
            v[j], v[j + 1] = tm.minmax("min", a, b), tm.minmax("max", a, b)
    return v


@fn("sort")
def f_sort(I, args, kw):
    x, ax = bindargs(["a", "axis"], args, {k: v for k, v in kw.items() if k != "kind"}, {"axis": -1})
    a = toarr(I, x)
    if len(a.dims) != 1:
        raise Undecided("sort of a matrix")
    n = a.dims[0]
    w = tm.fresh(n)
    b = a(w)
    if b.op == "uniq" or b.op == "sorted":
        return I.arr(a)
    if n.op == "num" and tm.nval(n) <= 4:
        v = small_sort([num(a(num(k))) for k in range(int(tm.nval(n)))])
        return I.list_arr_const(v) if hasattr(I, "list_arr_const") else I.arr(M.list_arr(I, v))
    return I.arr(Arr((n,), lambda i: tm.close("sorted", n, w, TRUE, b, num(i)), a.dtype))


@fn("argsort")
def f_argsort(I, args, kw):
    x, ax = bindargs(["a", "axis"], args, {k: v for k, v in kw.items() if k != "kind"}, {"axis": -1})
    a = toarr(I, x)
    if len(a.dims) != 1:
        raise Undecided("argsort of a matrix")
    n = a.dims[0]
    w = tm.fresh(n)
    b = num(a(w))
    return I.arr(Arr((n,), lambda i: tm.close("argsort", n, w, TRUE, b, num(i)), "int"))


@fn("unique")
def f_unique(I, args, kw):
    x, ridx, rinv, rcnt, axis = bindargs(["ar", "return_index", "return_inverse", "return_counts", "axis"], args, kw, {"return_index": False, "return_inverse": False, "return_counts": False})
    if axis is not None:
        raise Undecided("unique options")
    a = toarr(I, x)
    args = [x]
    if len(a.dims) != 1:
        a = toarr(I, f_ravel(I, [args[0]], {}))
    n = a.dims[0]
    w = tm.fresh(n)
    b = num(a(w))
    n2, w2, c2, b2 = tm._denth(n, w, TRUE, b)
    cnt = tm.close("nuniq", n2, w2, c2, b2)
    r = I.arr(Arr((cnt,), lambda i: tm.close("uniq", n2, w2, c2, b2, num(i)), a.dtype))
    u = lambda i: tm.close("uniq", n2, w2, c2, b2, num(i))
    res = [r]
    if I.decide(I.truth(ridx)):
        # position of the first occurrence of each value
        if len(toarr(I, x).dims) != 1:
            raise Undecided("unique options")
        a1 = toarr(I, x)
        res.append(I.arr(Arr((cnt,), lambda i: r_argmax(n, lambda k: tm.ite(tm.eq(num(a1(k)), u(i)), ONE, ZERO)), "int")))
    if I.decide(I.truth(rinv)):
        if len(toarr(I, x).dims) != 1:
            raise Undecided("unique options")
        a1 = toarr(I, x)
        res.append(I.arr(Arr((n,), lambda k: tm.sum_(cnt, lambda i: tm.ite(tm.lt(u(i), num(a1(k))), ONE, ZERO)), "int")))
    if I.decide(I.truth(rcnt)):
        res.append(I.arr(Arr((cnt,), lambda i: tm.sum_v(n2, w2, tm.and_(c2, tm.eq(b2, u(i))), ONE), "int")))
    return res[0] if len(res) == 1 else tuple(res)


@fn("searchsorted")
def f_search(I, args, kw):
    a, v, side, srt = bindargs(["a", "v", "side", "sorter"], args, kw, {"side": "left"})
    aa = toarr(I, a)
    n = aa.dims[0]
    left = side == "left"
    return out(I, with_dt(ew(I, lambda x: tm.sum_(n, lambda k: tm.ite(tm.lt(aa(k), x) if left else tm.le(aa(k), x), ONE, ZERO)), v), "int"))


def with_dt(a, d):
    a.dtype = d
    return a


@fn("digitize")
def f_digitize(I, args, kw):
    x, b, right = bindargs(["x", "bins", "right"], args, kw, {"right": False})
    r = I.decide(I.truth(right))
    return f_search(I, [b, x], {"side": "left" if r else "right"})


@fn("bincount")
def f_bincount(I, args, kw):
    x, w, ml = bindargs(["x", "weights", "minlength"], args, kw, {"minlength": 0})
    a = toarr(I, x)
    n = a.dims[0]
    m = num(scal(I, ml))
    if m is ZERO:
        dim = tm.add(r_max(n, a), 1)
    else:
        dim = m
        v = tm.fresh(n)
        I.event("shape", tm.not_(tm.red_v("any", n, v, TRUE, tm.le(m, num(a(v))))))
    if w is None:
        return I.arr(Arr((dim,), lambda i: tm.sum_(n, lambda v: tm.ite(tm.eq(num(a(v)), num(i)), ONE, ZERO)), "int"))
    ww = toarr(I, w)
    same_dim(I, n, ww.dims[0])
    return I.arr(Arr((dim,), lambda i: tm.sum_(n, lambda v: tm.ite(tm.eq(num(a(v)), num(i)), num(ww(v)), ZERO)), "float"))


@fn("nonzero")
def f_nonzero(I, args, kw):
    a = toarr(I, args[0])
    if len(a.dims) != 1:
        raise Undecided("nonzero of a matrix")
    n = a.dims[0]
    v = tm.fresh(n)
    m = b_(a(v))
    cnt = tm.sum_v(n, v, m, ONE)
    return (I.arr(Arr((cnt,), lambda i: tm.nth_v(n, v, m, num(i)) if v in m.fv else num(i), "int")),)


@fn("flatnonzero")
def f_flatnonzero(I, args, kw):
    return f_nonzero(I, args, kw)[0]


@fn("argwhere")
def f_argwhere(I, args, kw):
    a = toarr(I, f_nonzero(I, args, kw)[0])
    return I.arr(Arr((a.dims[0], ONE), lambda i, j: a(i), "int"))


@fn("unravel_index")
def f_unravel(I, args, kw):
    l, s = args[:2]
    dims = shape_of(I, s)
    i = num(scal(I, l))
    res = []
    for d in reversed(dims[1:]):
        res.append(tm.mod(i, d))
        i = tm.floordiv(i, d)
    res.append(i)
    return tuple(tnum(x) for x in reversed(res))


@fn("isin", "in1d")
def f_isin(I, args, kw):
    a, b = toarr(I, args[0]), toarr(I, args[1])
    return out(I, with_dt(ew(I, lambda x: M.any_over(I, Arr(b.dims, lambda *j: M.eqt(x, b(*j)), "bool")), a), "bool"))


@fn("interp")
def f_interp(I, args, kw):
    x, xp, fp, l, r, p = bindargs(["x", "xp", "fp", "left", "right", "period"], args, kw)
    if not (l is None and r is None and p is None):
        raise Undecided("interp options")
    a, b = toarr(I, xp), toarr(I, fp)
    la, lb = tm.lam(a.dims[0], lambda v: num(a(v))), tm.lam(b.dims[0], lambda v: num(b(v)))
    return out(I, with_dt(ew(I, lambda t: tm.app("interp", t, la, lb), x), "float"))


@fn("trapz", "trapezoid")
def f_trapz(I, args, kw):
    y, x, dx, ax = bindargs(["y", "x", "dx", "axis"], args, kw, {"dx": 1, "axis": -1})
    a = toarr(I, y)
    if len(a.dims) != 1:
        raise Undecided("trapz axis")
    n = a.dims[0]
    if x is None:
        d = num(scal(I, dx))
        w = lambda i: d
    else:
        xx = toarr(I, x)
        same_dim(I, n, xx.dims[0])
        w = lambda i: tm.sub(xx(tm.add(i, 1)), xx(i))
    return M.out(I, Arr((), lambda: tm.sum_(tm.sub(n, 1), lambda i: tm.scale(tm.mul(w(i), tm.add(a(i), a(tm.add(i, 1)))), Fraction(1, 2))), "float"))


# ------------------------------------------------------------------ joining
def seq_arrs(I, s):
    return [toarr(I, x) for x in I.iter_items(s)]


def concat(I, arrs, k):
    nd = len(arrs[0].dims)
    if any(len(a.dims) != nd for a in arrs):
        raise PyRaise(ExcV("ValueError", ("all the input arrays must have same number of dimensions",)))
    for a in arrs[1:]:
        for j in range(nd):
            if j != k:
                same_dim(I, arrs[0].dims[j], a.dims[j])
    tot = tm.add(*[a.dims[k] for a in arrs])

    def g(*i):
        x = num(i[k])
        off = ZERO
        if x.op == "num":
            for a in arrs:
                rel = tm.sub(x, off)
                if tm.lt(rel, a.dims[k]) is TRUE:
                    return num(a(*i[:k], rel, *i[k + 1:]))
                if tm.le(a.dims[k], rel) is not TRUE:
                    break
                off = tm.add(off, a.dims[k])
        off = ZERO
        ch = []
        for a in arrs:
            rel = tm.sub(x, off)
            c = tm.eq(x, 0) if off is ZERO and a.dims[k] is tm.ONE else None
            off = tm.add(off, a.dims[k])
            c = tm.lt(x, off) if c is None else c
            if c is FALSE:
                continue
            ch.append((c, num(a(*i[:k], rel, *i[k + 1:]))))
            if c is TRUE:
                break
        r = ch[-1][1]
        for c, t in reversed(ch[:-1]):
            r = tm.ite(c, t, r)
        return r
    dims = list(arrs[0].dims)
    dims[k] = tot
    ds = [a.dtype for a in arrs if a.dims[k] is not ZERO] or ["float"]
    d = "bool" if all(x == "bool" for x in ds) else M.join_dt(*ds)
    return Arr(dims, g, d)


@fn("concatenate")
def f_concat(I, args, kw):
    s, ax = bindargs(["arrays", "axis"], args, kw, {"axis": 0})
    arrs = seq_arrs(I, s)
    if ax is None:
        arrs = [toarr(I, f_ravel(I, [I.arr(a)], {})) for a in arrs]
        return I.arr(concat(I, arrs, 0))
    if not arrs[0].dims:
        raise PyRaise(ExcV("ValueError", ("zero-dimensional arrays cannot be concatenated",)))
    return I.arr(concat(I, arrs, axis_of(I, ax, len(arrs[0].dims))))


def at_least(a, n):
    return a if len(a.dims) >= n else Arr((ONE,) * (n - len(a.dims)) + a.dims, lambda *i: a(*i[n - len(a.dims):]), a.dtype)


@fn("vstack", "row_stack")
def f_vstack(I, args, kw):
    return I.arr(concat(I, [at_least(a, 2) for a in seq_arrs(I, args[0])], 0))


@fn("hstack")
def f_hstack(I, args, kw):
    arrs = [at_least(a, 1) for a in seq_arrs(I, args[0])]
    return I.arr(concat(I, arrs, 0 if len(arrs[0].dims) == 1 else 1))


@fn("column_stack")
def f_colstack(I, args, kw):
    arrs = seq_arrs(I, args[0])
    arrs = [Arr((a.dims[0], ONE), lambda i, j, a=a: a(i), a.dtype) if len(a.dims) == 1 else a for a in arrs]
    return I.arr(concat(I, arrs, 1))


@fn("stack")
def f_stack(I, args, kw):
    s, ax = bindargs(["arrays", "axis"], args, kw, {"axis": 0})
    a = toarr(I, s)      # stacked along 0
    nd = len(a.dims)
    k = axis_of(I, ax, nd)
    if k == 0:
        return I.arr(a)
    dims = list(a.dims[1:])
    dims.insert(k, a.dims[0])
    return I.arr(Arr(dims, lambda *i: a(i[k], *i[:k], *i[k + 1:]), a.dtype))


@fn("append")
def f_append(I, args, kw):
    a, v, ax = bindargs(["arr", "values", "axis"], args, kw)
    x, y = toarr(I, a), toarr(I, v)
    if ax is None:
        x = toarr(I, f_ravel(I, [I.arr(x)], {})) if len(x.dims) != 1 else x
        y = toarr(I, f_ravel(I, [I.arr(y)], {})) if len(y.dims) != 1 else y
        return I.arr(concat(I, [x, y], 0))
    return I.arr(concat(I, [x, y], axis_of(I, ax, len(x.dims))))


@fn("insert")
def f_insert(I, args, kw):
    a, k, v, ax = bindargs(["arr", "obj", "values", "axis"], args, kw)
    x = toarr(I, a)
    if len(x.dims) != 1:
        raise Undecided("insert into a matrix")
    kk = num(scal(I, k))
    y = at_least(toarr(I, v), 1)
    p = M.wrap(kk, x.dims[0])
    l = Arr((p,), x.fn, x.dtype)
    r = Arr((tm.sub(x.dims[0], p),), lambda i: x(tm.add(num(i), p)), x.dtype)
    return I.arr(concat(I, [b for b in (l, y, r) if b.dims[0] is not ZERO], 0))


@fn("delete")
def f_delete(I, args, kw):
    a, k, ax = bindargs(["arr", "obj", "axis"], args, kw)
    x = toarr(I, a)
    if ax is None and len(x.dims) != 1:
        raise Undecided("delete")
    j = 0 if ax is None else axis_of(I, ax, len(x.dims))
    if M.is_arr(k) or isinstance(k, (ListV, tuple)):
        ks = [M.wrap(num(scal(I, y)), x.dims[j]) for y in I.iter_items(k)]
        if len(ks) != 1:
            raise Undecided("delete several")
        p = ks[0]
    else:
        p = M.wrap(num(scal(I, k)), x.dims[j])
    dims = list(x.dims)
    dims[j] = tm.sub(dims[j], 1)
    return I.arr(Arr(dims, lambda *i: x(*i[:j], _skip(num(i[j]), p), *i[j + 1:]), x.dtype))


def _skip(i, p):
    c = tm.lt(i, p)
    return tm.ite(c, i, tm.add(i, 1)) if c.op != "bool" else (i if c is TRUE else tm.add(i, 1))


@fn("repeat")
def f_repeat(I, args, kw):
    x, r, ax = bindargs(["a", "repeats", "axis"], args, kw)
    a = toarr(I, x)
    n = num(scal(I, r)) if not M.is_arr(r) else None
    if n is None:
        raise Undecided("repeat with counts")
    if ax is None:
        if len(a.dims) > 1:
            a = toarr(I, f_ravel(I, [x], {}))
        if not a.dims:
            return I.arr(Arr((n,), lambda i: a(), a.dtype))
        k = 0
    else:
        k = axis_of(I, ax, len(a.dims))
    dims = list(a.dims)
    dims[k] = tm.mul(dims[k], n)
    one = a.dims[k] is ONE
    return I.arr(Arr(dims, lambda *i: a(*i[:k], ZERO if one else tm.floordiv(num(i[k]), n), *i[k + 1:]), a.dtype))


@fn("tile")
def f_tile(I, args, kw):
    x, r = bindargs(["A", "reps"], args, kw)
    a = toarr(I, x)
    reps = shape_of(I, r)
    nd = max(len(reps), len(a.dims))
    reps = [ONE] * (nd - len(reps)) + reps
    a = at_least(a, nd)
    dims = [tm.mul(d, q) for d, q in zip(a.dims, reps)]
    return I.arr(Arr(dims, lambda *i: a(*[ZERO if d is ONE else (num(j) if q is ONE else tm.mod(num(j), d)) for j, d, q in zip(i, a.dims, reps)]), a.dtype))


@fn("broadcast_to")
def f_bto(I, args, kw):
    return I.arr(M.broadcast_to(I, toarr(I, args[0]), tuple(shape_of(I, args[1]))))


@fn("flip", "flipud")
def f_flip(I, args, kw):
    a = toarr(I, args[0])
    if len(a.dims) != 1:
        raise Undecided("flip")
    return I.arr(Arr(a.dims, lambda i: a(tm.sub(tm.sub(a.dims[0], 1), num(i))), a.dtype))


@fn("roll")
def f_roll(I, args, kw):
    a = toarr(I, args[0])
    if len(a.dims) != 1:
        raise Undecided("roll")
    k = num(scal(I, args[1]))
    return I.arr(Arr(a.dims, lambda i: a(tm.mod(tm.sub(num(i), k), a.dims[0])), a.dtype))


@fn("take")
def f_take(I, args, kw):
    x, ind, ax = bindargs(["a", "indices", "axis"], args, kw)
    a = toarr(I, x)
    if ax is None:
        if len(a.dims) != 1:
            x = f_ravel(I, [x], {})
        return M.getitem(I, x, ind)
    k = axis_of(I, ax, len(a.dims))
    return M.getitem(I, x, tuple([SliceV(None, None, None)] * k + [ind]))


@fn("compress")
def f_compress(I, args, kw):
    c, x, ax = bindargs(["condition", "a", "axis"], args, kw)
    a = toarr(I, x)
    k = 0 if ax is None else axis_of(I, ax, len(a.dims))
    return M.getitem(I, x, tuple([SliceV(None, None, None)] * k + [c]))


@fn("fill_diagonal")
def f_filldiag(I, args, kw):
    a = toarr(I, args[0])
    v = num(scal(I, args[1]))
    M.write_all(I, args[0], Arr(a.dims, lambda i, j: tm.ite(tm.eq(num(i), num(j)), v, a(i, j)), a.dtype))
    return None


@fn("diag", "diagonal")
def f_diag(I, args, kw):
    a = toarr(I, args[0])
    if len(a.dims) == 2:
        return I.arr(Arr((a.dims[0],), lambda i: a(i, i), a.dtype))
    return I.arr(Arr((a.dims[0], a.dims[0]), lambda i, j: tm.ite(tm.eq(num(i), num(j)), a(i), ZERO), a.dtype))


@fn("meshgrid")
def f_mesh(I, args, kw):
    if len(args) != 2:
        raise Undecided("meshgrid")
    a, b = toarr(I, args[0]), toarr(I, args[1])
    ij = kw.get("indexing") == "ij"
    if ij:
        return I.list([I.arr(Arr((a.dims[0], b.dims[0]), lambda i, j: a(i), a.dtype)), I.arr(Arr((a.dims[0], b.dims[0]), lambda i, j: b(j), b.dtype))])
    return I.list([I.arr(Arr((b.dims[0], a.dims[0]), lambda i, j: a(j), a.dtype)), I.arr(Arr((b.dims[0], a.dims[0]), lambda i, j: b(i), b.dtype))])


@fn("outer")
def f_outer(I, args, kw):
    a, b = toarr(I, args[0]), toarr(I, args[1])
    return I.arr(Arr((a.dims[0], b.dims[0]), lambda i, j: tm.mul(a(i), b(j)), "float"))


@fn("copyto")
def f_copyto(I, args, kw):
    d, s = args[:2]
    a = toarr(I, d)
    r = M.broadcast_to(I, toarr(I, s), a.dims)
    if kw.get("where") is not None:
        w = M.broadcast_to(I, toarr(I, kw["where"]), a.dims)
        rr = r
        r = Arr(a.dims, lambda *i: tm.ite(b_(w(*i)), rr(*i), a(*i)), rr.dtype)
    M.write_all(I, d, r)
    return None


@fn("add.at")
def f_add_at(I, args, kw):
    o, idx, v = args
    a, ii, vv = toarr(I, o), toarr(I, idx), toarr(I, v)
    if len(a.dims) != 1 or len(ii.dims) != 1:
        raise Undecided("add.at")
    n = ii.dims[0]
    vv = M.broadcast_to(I, vv, (n,))
    M.write_all(I, o, Arr(a.dims, lambda i: tm.add(a(i), tm.sum_(n, lambda k: tm.ite(tm.eq(num(ii(k)), num(i)), num(vv(k)), ZERO))), a.dtype))
    return None


@fn("ndim")
def f_ndim(I, args, kw):
    return len(toarr(I, args[0]).dims)


@fn("shape")
def f_shape(I, args, kw):
    return tuple(tnum(d) for d in toarr(I, args[0]).dims)


@fn("size")
def f_size(I, args, kw):
    a = toarr(I, args[0])
    if len(args) > 1:
        return tnum(a.dims[axis_of(I, args[1], len(a.dims))])
    return tnum(tm.mul(ONE, *a.dims))


@fn("isscalar")
def f_isscalar(I, args, kw):
    return is_scalar(args[0]) or isinstance(args[0], str)


@fn("apply_along_axis")
def f_aaa(I, args, kw):
    f, ax, x = args[:3]
    a = toarr(I, x)
    k = axis_of(I, ax, len(a.dims))
    if len(a.dims) != 2:
        raise Undecided("apply_along_axis")
    n = a.dims[1 - k]
    it = M.SymIter(n, lambda v: I.call(f, [M.getitem(I, x, (v, SliceV(None, None, None)) if k == 1 else (SliceV(None, None, None), v))], {}))
    r = toarr(I, it)
    if len(r.dims) > 1 and k == 0:
        return f_transpose(I, [I.arr(r)], {})
    return I.arr(r)


# ------------------------------------------------------------------ random
def rng(I, what, *data):
    I.rng_n = getattr(I, "rng_n", 0) + 1
    I.event("rng", what, *data)
    return num(I.rng_n)


@fn("random.choice", "random.permutation", "random.shuffle", "random.rand", "random.randn", "random.uniform",
    "random.normal", "random.randint", "random.random")
def f_random(I, args, kw):
    raise Undecided("random")


def f_choice(I, args, kw):
    a, size, rep, p = bindargs(["a", "size", "replace", "p"], args, {k: v for k, v in kw.items() if k != "shuffle" and k != "axis"}, {"replace": True})
    pop = None
    if M.is_arr(a) or isinstance(a, (ListV, RangeV, tuple)):
        pop = toarr(I, a)
        n = pop.dims[0]
    else:
        n = num(scal(I, a))
    r = I.decide(I.truth(rep))
    tok = rng(I, "choice", n, size, r)
    opn = "choice" if r else "perm"
    if r is None:
        raise Undecided("random replacement flag")

    def g(i):
        k = tm.app(opn, tok, n, num(i))
        return pop(k) if pop is not None else k
    if size is None:
        return g(ZERO)
    m = num(scal(I, size))
    if not r:
        I.require(tm.le(m, n), "ValueError", ("Cannot take a larger sample than population when replace=False",))
    return I.arr(Arr((m,), g, pop.dtype if pop is not None else "int"))


def f_perm(I, args, kw):
    a = args[0]
    if M.is_arr(a) or isinstance(a, ListV):
        return f_choice(I, [a, tnum(toarr(I, a).dims[0]), False], {})
    return f_choice(I, [a, a, False], {})


F["random.choice"] = f_choice
F["random.permutation"] = f_perm
for _n in ("rand", "randn", "uniform", "normal", "randint", "random", "shuffle", "seed"):
    def _r(I, args, kw, _n=_n):
        tok = rng(I, _n)
        if _n in ("seed", "shuffle"):
            return None
        size = kw.get("size", args[0] if args and _n == "random" else args[2] if len(args) > 2 else None)
        if _n in ("rand", "randn"):
            size = tuple(args) if args else None
        if size is None:
            return tm.app("rng", tok)
        return I.arr(Arr(shape_of(I, size), lambda *i: tm.app("rng", tok, *[num(x) for x in i]), "float"))
    F["random." + _n] = _r
tm.INT_APPS.update({"perm", "choice"})
tm.POSITIVE_APPS.update({"perm", "choice", "exp"})


# ------------------------------------------------------------------ less common functions
def nan_filter(n, g, f, neutral):
    """a reduction over the entries that are not NaN, through a neutral element; NaN when there is none"""
    ok = lambda v: tm.not_(tm.isnan(num(g(v))))
    some = tm.lt(ZERO, tm.sum_(n, lambda v: tm.ite(ok(v), ONE, ZERO)))
    return tm.ite(some, f(n, lambda v: tm.ite(ok(v), num(g(v)), neutral)), tm.NAN if hasattr(tm, "NAN") else NAN)


def nan_var(n, g, ddof=ZERO):
    ok = lambda v: tm.not_(tm.isnan(num(g(v))))
    k = tm.sum_(n, lambda v: tm.ite(ok(v), ONE, ZERO))
    m = tm.div(tm.sum_(n, lambda v: tm.ite(ok(v), num(g(v)), ZERO)), k)
    return tm.div(tm.sum_(n, lambda v: tm.ite(ok(v), tm.pow_(tm.sub(num(g(v)), m), 2), ZERO)), tm.sub(k, ddof))


reduction(["nanmin"], lambda n, g: nan_filter(n, g, r_min, INF))
reduction(["nanmax"], lambda n, g: nan_filter(n, g, r_max, tm.neg(INF)))
reduction(["nanvar"], nan_var, "float", ("ddof",))
reduction(["nanstd"], lambda n, g, ddof=ZERO: tm.sqrt(nan_var(n, g, ddof)), "float", ("ddof",))
binary("hypot", lambda a, b: tm.sqrt(tm.add(tm.mul(num(a), num(a)), tm.mul(num(b), num(b)))), "float")
binary("float_power", M.t_pow, "float")
unary("reciprocal", lambda a: M.t_div(ONE, num(a)), "float")
unary("trunc", lambda a: M.toint(num(a)), "float")
unary("fix", lambda a: M.toint(num(a)), "float")


def pieces(I, x, k, ax, strict):
    """array_split / split: a list of consecutive parts"""
    a = toarr(I, x)
    ax = axis_of(I, ax, len(a.dims))
    n = a.dims[ax]
    pre = [SliceV(None, None, None)] * ax
    if is_scalar(k) and not isinstance(k, (ListV, tuple)):
        c = M.conc_int(I, k)
        if c is None:
            raise Undecided("split into a symbolic number of parts")
        q, r = tm.floordiv(n, num(c)), tm.mod(n, num(c))
        if strict and I.decide(tm.eq(r, ZERO)) is False:
            raise PyRaise(ExcV("ValueError", ("array split does not result in an equal division",)))
        if strict and r is not ZERO:
            I.event("shape", tm.eq(r, ZERO))
        cut = [tm.add(tm.mul(num(j), q), tm.minmax("min", num(j), r)) for j in range(c + 1)]
    else:
        cut = [ZERO] + [num(z) for z in I.iter_items(k)] + [n]
    return I.list([M.getitem(I, x, tuple(pre + [SliceV(tnum(cut[j]), tnum(cut[j + 1]), None)])) for j in range(len(cut) - 1)])


@fn("array_split")
def f_array_split(I, args, kw):
    x, k, ax = bindargs(["ary", "indices_or_sections", "axis"], args, kw, {"axis": 0})
    return pieces(I, x, k, ax, False)


@fn("split")
def f_split(I, args, kw):
    x, k, ax = bindargs(["ary", "indices_or_sections", "axis"], args, kw, {"axis": 0})
    return pieces(I, x, k, ax, True)


@fn("vsplit")
def f_vsplit(I, args, kw):
    return pieces(I, args[0], args[1], 0, True)


@fn("hsplit")
def f_hsplit(I, args, kw):
    return pieces(I, args[0], args[1], 1 if len(toarr(I, args[0]).dims) > 1 else 0, True)


@fn("ix_")
def f_ix(I, args, kw):
    out_ = []
    for j, x in enumerate(args):
        a = toarr(I, x)
        if a.dtype == "bool":
            a = toarr(I, F["flatnonzero"](I, [x], {}))
        dims = tuple(a.dims[0] if i == j else ONE for i in range(len(args)))
        out_.append(I.arr(Arr(dims, lambda *i, a=a, j=j: a(i[j]), a.dtype)))
    return tuple(out_)


@fn("take_along_axis")
def f_take_along(I, args, kw):
    x, ind, ax = bindargs(["arr", "indices", "axis"], args, kw)
    a, b = toarr(I, x), toarr(I, ind)
    if ax is None or len(a.dims) != len(b.dims):
        raise Undecided("take_along_axis")
    k = axis_of(I, ax, len(a.dims))
    n = a.dims[k]
    return I.arr(Arr(b.dims, lambda *i: a(*[M.wrap(num(b(*i)), n) if j == k else z for j, z in enumerate(i)]), a.dtype))


@fn("histogram")
def f_histogram(I, args, kw):
    x, bins, rng_, w = bindargs(["a", "bins", "range", "weights"], args, kw, {"bins": 10})
    a = toarr(I, x)
    if len(a.dims) != 1:
        a = toarr(I, f_ravel(I, [x], {}))
    n = a.dims[0]
    if is_scalar(bins):
        if rng_ is None:
            lo, hi = r_min(n, a), r_max(n, a)
        else:
            lo, hi = [num(z) for z in I.iter_items(rng_)]
        e = toarr(I, F["linspace"](I, [tnum(lo), tnum(hi), tnum(tm.add(num(bins), 1))], {}))
        edges = I.arr(e)
    else:
        edges = bins
        e = toarr(I, bins)
    m = tm.sub(e.dims[0], 1)
    ww = toarr(I, w) if w is not None else None

    def count(b):
        last = tm.eq(num(b), tm.sub(m, 1))
        return tm.sum_(n, lambda v: tm.ite(tm.and_(tm.le(num(e(b)), num(a(v))), tm.or_(tm.lt(num(a(v)), num(e(tm.add(num(b), 1)))), tm.and_(last, tm.eq(num(a(v)), num(e(tm.add(num(b), 1))))))),
                                           ONE if ww is None else num(ww(v)), ZERO))
    return (I.arr(Arr((m,), count, "int" if ww is None else "float")), edges)


@fn("lexsort")
def f_lexsort(I, args, kw):
    raise Undecided("lexsort")


@fn("setdiff1d")
def f_setdiff(I, args, kw):
    u = F["unique"](I, [args[0]], {})
    return M.getitem(I, u, out(I, ew(I, tm.not_, f_isin(I, [u, args[1]], {}))))


@fn("intersect1d")
def f_intersect(I, args, kw):
    if len(args) > 2 or kw:
        raise Undecided("intersect1d options")
    u = F["unique"](I, [args[0]], {})
    return M.getitem(I, u, f_isin(I, [u, args[1]], {}))


@fn("union1d")
def f_union(I, args, kw):
    return F["unique"](I, [I.arr(concat(I, [toarr(I, f_ravel(I, [x], {})) for x in args[:2]], 0))], {})


@fn("ediff1d")
def f_ediff(I, args, kw):
    if len(args) > 1 or kw:
        raise Undecided("ediff1d options")
    return F["diff"](I, args, {})


@fn("cumprod")
def f_cumprod(I, args, kw):
    x, ax = bindargs(["a", "axis"], args, kw)
    a = toarr(I, x)
    if len(a.dims) != 1:
        raise Undecided("cumprod of a matrix")
    n = M.conc_int(I, tnum(a.dims[0]))
    if n is None or n > 40:
        raise Undecided("cumprod of an array of symbolic size")
    vals = []
    for j in range(n):
        t = num(a(num(j)))
        vals.append(tm.mul(vals[-1], t) if vals else t)
    return I.arr(toarr(I, I.list(vals)))
