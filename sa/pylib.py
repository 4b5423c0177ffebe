"""Attributes, builtins and library modules of the analysed language."""
import ast
from fractions import Fraction
from . import terms as tm
from .terms import T, num, TRUE, FALSE, ZERO, ONE, INF, NAN
from .values import *
from .interp import Undecided, NeedFork, PyRaise, FList, FDict, frozen_subst, Poison
from . import npmodel as M
from . import npfuncs as NF
from .npmodel import toarr, out, scal, need_int, tnum, is_arr, SymIter, OpaqueV, DictView

EXC = {
    "BaseException": None, "Exception": "BaseException", "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "OverflowError": "ArithmeticError", "FloatingPointError": "ArithmeticError", "AssertionError": "Exception",
    "AttributeError": "Exception", "LookupError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError",
    "NameError": "Exception", "UnboundLocalError": "NameError", "NotImplementedError": "RuntimeError", "RuntimeError": "Exception",
    "RecursionError": "RuntimeError", "StopIteration": "Exception", "TypeError": "Exception", "ValueError": "Exception",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "OSError": "Exception", "Warning": "Exception",
    "UserWarning": "Warning", "DeprecationWarning": "Warning", "RuntimeWarning": "Warning", "AxisError": "ValueError",
    "UFuncTypeError": "TypeError", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
}


def exc_matches(exc, t):
    name = exc.name if isinstance(exc, ExcV) else None
    tn = t.name if isinstance(t, (TypeV, ClassV)) else getattr(t, "path", "").split(".")[-1]
    if tn == "IndexError" and name == "AxisError":
        return True
    if tn not in EXC:
        return name == tn
    if name not in EXC:
        return tn in ("Exception", "BaseException")
    while name is not None:
        if name == tn:
            return True
        name = EXC[name]
    return False


# ------------------------------------------------------------------ numpy as a module
NPCONST = {"nan": NAN, "NaN": NAN, "NAN": NAN, "inf": INF, "Inf": INF, "infty": INF, "newaxis": None}
NPTYPES = {"float64": "float", "float32": "float32", "float16": "float32", "half": "float32", "single": "float32", "int8": "int", "int16": "int", "uint8": "int", "uint16": "int", "uint32": "int", "uint64": "int", "longdouble": "float", "float": "float", "double": "float", "int64": "int", "int32": "int", "int": "int",
           "bool_": "bool", "bool": "bool", "object": "object", "object_": "object", "ndarray": "ndarray", "integer": "np.integer",
           "floating": "np.floating", "number": "np.number", "generic": "np.generic", "float_": "float", "int_": "int", "intp": "int", "str_": "str"}


def np_attr(I, mod, name):
    path = mod.name
    if path == "numpy":
        if name in NPCONST:
            return NPCONST[name]
        if name == "pi":
            return tm.sym("pi", "real")
        if name == "e":
            return tm.app("exp", ONE)
        if name in NPTYPES:
            return TypeV(NPTYPES[name])
        if name in ("random", "linalg", "ma", "testing"):
            m = ModV("numpy." + name)
            return m
        if name in NF.F:
            return BuiltinV("np." + name, NF.F[name])
        if name in ("logical_and", "add", "maximum", "minimum", "multiply"):
            pass
        if name in ("r_", "c_"):
            return OpaqueV("np." + name, ())
        if name in ("errstate", "seterr", "set_printoptions", "warnings"):
            return ExtV("numpy." + name)
        if name == "vectorize":
            def vec(I, a, k):
                f = a[0]
                return BuiltinV("vectorized", lambda I, aa, kk: NF.F["_vectorized"](I, [f] + aa, kk))
            return BuiltinV("np.vectorize", vec)
        raise Undecided("numpy." + name)
    if path == "numpy.random":
        if name in ("default_rng", "RandomState", "Generator"):
            return ExtV("numpy.random." + name)
        n = "random." + name
        if n in NF.F:
            return BuiltinV("np." + n, NF.F[n])
        raise Undecided("numpy.random." + name)
    if path == "numpy.linalg" and name == "norm":
        def norm(I, a, k):
            x = toarr(I, a[0])
            if len(a) > 1 or k or len(x.dims) != 1:
                raise Undecided("norm")
            return tm.sqrt(NF.r_sum(x.dims[0], lambda v: tm.mul(x(v), x(v))))
        return BuiltinV("norm", norm)
    m = PYMODS.get(path)
    if m is not None and name in m:
        return m[name]
    raise Undecided(path + "." + name)


# ------------------------------------------------------------------ attributes
NDARRAY = set("""T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod
cumsum data diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder
nonzero partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum
swapaxes take tobytes tofile tolist tostring trace transpose var view""".split())


def no_attr(tn, name, exists):
    if exists:
        raise Undecided("attribute %s.%s is not modelled" % (tn, name))
    raise PyRaise(ExcV("AttributeError", ("'%s' object has no attribute '%s'" % (tn, name),)))


def bi(name, f):
    return BuiltinV(name, f)


def meth(name, f, o):
    return BuiltinV(name, lambda I, a, k: f(I, o, a, k))


ARR_METHODS = ["min", "max", "mean", "sum", "std", "var", "any", "all", "prod", "argmax", "argmin", "argsort", "cumsum", "reshape", "ravel",
               "flatten", "transpose", "squeeze", "astype", "copy", "round", "clip", "repeat", "take", "nonzero", "dot", "swapaxes", "diagonal",
               "searchsorted", "ptp", "compress"]


def arr_attr(I, o, name):
    a = toarr(I, o)
    if name == "shape":
        return tuple(tnum(d) for d in a.dims)
    if name == "size":
        return tnum(tm.mul(ONE, *a.dims))
    if name == "ndim":
        return len(a.dims)
    if name == "dtype":
        return TypeV(a.dtype)
    if name == "T":
        return NF.F["transpose"](I, [o], {})
    if name == "flat":
        return NF.F["ravel"](I, [o], {})
    if name == "item":
        def item(I, aa, kk):
            x = toarr(I, o)
            if aa:
                idx = aa[0] if isinstance(aa[0], tuple) else tuple(aa)
                return M.getitem(I, o, idx if len(idx) > 1 else idx[0])
            for d in x.dims:
                c = tm.eq(d, ONE)
                I.require(c, "ValueError", ("can only convert an array of size 1 to a Python scalar",))
            return x(*[ZERO for _ in x.dims])
        return bi("item", item)
    if name == "tolist":
        def tolist(I, aa, kk):
            return py_list_of(I, o)
        return bi("tolist", tolist)
    if name == "fill":
        def fill(I, aa, kk):
            x = toarr(I, o)
            t = num(scal(I, aa[0]))
            M.write_all(I, o, Arr(x.dims, lambda *i: t, M.dt(t)))
        return bi("fill", fill)
    if name == "sort":
        def sort(I, aa, kk):
            M.write_all(I, o, toarr(I, NF.F["sort"](I, [o] + aa, kk)))
        return bi("sort", sort)
    if name == "__len__":
        return bi("len", lambda I, aa, kk: M.length(I, o))
    if name == "view":
        return bi("view", lambda I, aa, kk: o)
    if name in ARR_METHODS:
        f = NF.F[name]
        if name in ("reshape", "transpose"):
            def g(I, aa, kk):
                if len(aa) > 1:
                    aa = [tuple(aa)]
                return f(I, [o] + aa, kk)
            return bi(name, g)
        return bi("ndarray." + name, lambda I, aa, kk: f(I, [o] + aa, kk))
    if name in ("name",):
        return a.dtype
    no_attr("numpy.ndarray", name, name in NDARRAY)


def py_list_of(I, o):
    r = I.iterate(o)
    if r[0] == "items":
        return I.list([py_list_of(I, x) if type(x) is ArrV and toarr(I, x).dims else x for x in r[1]])
    return I.list([I.seg(r[1], r[2])])


def list_attr(I, o, name):
    def app(I, a, k):
        c = I.cell(o)
        M.owner_write(I, c)
        I.st.heap[o.cid] = ListCell(c.items + (a[0],), c.owners)

    def setitems(items):
        c = I.cell(o)
        M.owner_write(I, c)
        I.st.heap[o.cid] = ListCell(items, c.owners)

    def conc():
        return I.iter_items(o)

    if name == "append":
        return bi("append", app)
    if name == "extend":
        return bi("extend", lambda I, a, k: M.list_extend(I, o, a[0]))
    if name == "copy":
        return bi("copy", lambda I, a, k: I.list(I.cell(o).items))
    if name == "pop":
        def pop(I, a, k):
            items = list(conc())
            if not items:
                raise PyRaise(ExcV("IndexError", ("pop from empty list",)))
            j = need_int(I, a[0]) if a else -1
            x = items.pop(j)
            setitems(items)
            return x
        return bi("pop", pop)
    if name == "insert":
        def ins(I, a, k):
            items = list(conc())
            items.insert(need_int(I, a[0]), a[1])
            setitems(items)
        return bi("insert", ins)
    if name == "remove":
        def rem(I, a, k):
            items = list(conc())
            for j, x in enumerate(items):
                c = M.eqv(I, x, a[0])
                d = I.decide(c)
                if d is None:
                    raise NeedFork(c)
                if d:
                    del items[j]
                    setitems(items)
                    return None
            raise PyRaise(ExcV("ValueError", ("list.remove(x): x not in list",)))
        return bi("remove", rem)
    if name == "index":
        def index(I, a, k):
            for j, x in enumerate(conc()):
                c = M.eqv(I, x, a[0])
                d = I.decide(c)
                if d is None:
                    raise NeedFork(c)
                if d:
                    return j
            raise PyRaise(ExcV("ValueError", ("not in list",)))
        return bi("index", index)
    if name == "count":
        def count(I, a, k):
            return tm.add(ZERO, *[tm.ite(M.eqv(I, x, a[0]), ONE, ZERO) for x in conc()])
        return bi("count", count)
    if name == "reverse":
        return bi("reverse", lambda I, a, k: setitems(list(reversed(conc()))))
    if name == "clear":
        return bi("clear", lambda I, a, k: setitems([]))
    if name == "sort":
        return bi("sort", lambda I, a, k: setitems(sort_items(I, conc(), k.get("key"), k.get("reverse"))))
    no_attr("list", name, hasattr(list, name))


def sort_items(I, items, key=None, reverse=None):
    rev = bool(I.decide(I.truth(reverse))) if reverse is not None else False
    ks = [I.call(key, [x], {}) if key is not None else x for x in items]
    if all(isinstance(k, str) for k in ks):
        idx = sorted(range(len(ks)), key=lambda j: ks[j], reverse=rev)
        return [items[j] for j in idx]
    order = []
    for j in range(len(items)):          # stable insertion sort; comparisons fork when undecided
        p = len(order)
        while p > 0:
            x, y = ks[j], ks[order[p - 1]]
            c = I.truth(M.compare(I, ast.Lt() if not rev else ast.Gt(), x, y))
            d = I.decide(c)
            if d is None:
                raise NeedFork(c)
            if not d:
                break
            p -= 1
        order.insert(p, j)
    return [items[j] for j in order]


def dict_attr(I, o, name):
    if name in ("keys", "values", "items"):
        return bi(name, lambda I, a, k: DictView(o, name))
    if name == "get":
        def get(I, a, k):
            kk = M.key(I, a[0], o)
            for x, v in I.cell(o).items:
                if x == kk and type(x) == type(kk):
                    return v
            return a[1] if len(a) > 1 else k.get("default")
        return bi("get", get)
    if name == "copy":
        return bi("copy", lambda I, a, k: DictV(I.new(DictCell(I.cell(o).items, default=I.cell(o).default))))
    if name == "update":
        def upd(I, a, k):
            if a:
                src = I.res(a[0])
                its = I.cell(src).items if isinstance(src, DictV) else [tuple(I.iter_items(x)) for x in I.iter_items(src)]
                for x, v in its:
                    M.dict_set(I, o, M.key(I, x, o), v)
            for x, v in k.items():
                M.dict_set(I, o, x, v)
        return bi("update", upd)
    if name == "pop":
        def pop(I, a, k):
            kk = M.key(I, a[0], o)
            c = I.cell(o)
            for x, v in c.items:
                if x == kk:
                    M.delitem(I, o, kk)
                    return v
            if len(a) > 1:
                return a[1]
            raise PyRaise(ExcV("KeyError", (kk,)))
        return bi("pop", pop)
    if name == "setdefault":
        def sd(I, a, k):
            kk = M.key(I, a[0], o)
            for x, v in I.cell(o).items:
                if x == kk:
                    return v
            v = a[1] if len(a) > 1 else None
            M.dict_set(I, o, kk, v)
            return v
        return bi("setdefault", sd)
    if name == "clear":
        def clear(I, a, k):
            c = I.cell(o)
            M.owner_write(I, c)
            I.st.heap[o.cid] = DictCell((), c.owners, c.default)
        return bi("clear", clear)
    no_attr("dict", name, hasattr(dict, name))


STR_METHODS = ("lower", "upper", "strip", "lstrip", "rstrip", "split", "startswith", "endswith", "replace", "capitalize", "title", "find",
               "isdigit", "isalpha", "count", "splitlines", "zfill", "ljust", "rjust", "center")


def pstr(I, x):
    x = I.res(x) if isinstance(x, PhiV) else x
    if isinstance(x, tuple):
        return tuple(pstr(I, y) for y in x)
    if isinstance(x, bool) or not isinstance(x, T):
        return x
    if x.op == "num" and tm.nval(x).denominator == 1:
        return int(tm.nval(x))
    raise Undecided("string method on a symbolic value")


def str_attr(I, o, name):
    if name == "format":
        def fmt(I, a, k):
            return format_str(I, o, a, k)
        return bi("format", fmt)
    if name == "join":
        def join(I, a, k):
            parts = []
            for j, x in enumerate(I.iter_items(a[0])):
                if j:
                    parts.append(o)
                x = I.res(x) if isinstance(x, PhiV) else x
                if not (isinstance(x, str) or isinstance(x, T) and x.op == "str"):
                    raise PyRaise(ExcV("TypeError", ("sequence item: expected str instance",)))
                parts.append(x)
            return M.join_str(parts)
        return bi("join", join)
    if name in ("startswith", "endswith"):
        def se(I, a, k):
            x = I.res(a[0]) if isinstance(a[0], PhiV) else a[0]
            xs = x if isinstance(x, tuple) else (x,)
            if k or len(a) != 1:
                r = None if k or not isinstance(o, str) else getattr(o, name)(*[pstr(I, y) for y in a])
            else:
                for y in xs:
                    if not (isinstance(y, str) or isinstance(y, T) and y.op == "str"):
                        raise PyRaise(ExcV("TypeError", (name + " first arg must be str or a tuple of str",)))
                got = [M.str_starts(o, y, name == "endswith") for y in xs]
                r = True if True in got else None if None in got else False
            if r is None:
                raise Undecided("method of a symbolic string")
            return r
        return bi(name, se)
    if name in STR_METHODS:
        if not isinstance(o, str):
            def sg(I, a, k):
                r = None if k else M.str_method(o, name, list(a))
                if r is None:
                    raise Undecided("method of a symbolic string")
                return r
            return bi(name, sg)

        def g(I, a, k):
            r = getattr(o, name)(*[pstr(I, x) for x in a])
            return I.list(r) if isinstance(r, list) else r
        return bi(name, g)
    no_attr("str", name, hasattr(str, name))


def format_str(I, o, a, k):
    import string
    parts = []
    n = 0
    for lit, field, spec, conv in string.Formatter().parse(o):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[n]
            n += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            raise Undecided("format field")
        parts.append(M.to_str(I, v, spec or None))
    return M.join_str(parts)


def attr(I, o, name):
    if isinstance(o, Poison):
        raise Undecided("loop-carried value")
    if type(o) is ArrV or isinstance(o, Arr):
        return arr_attr(I, o, name)
    if isinstance(o, ListV):
        return list_attr(I, o, name)
    if isinstance(o, DictV):
        return dict_attr(I, o, name)
    if isinstance(o, str) or isinstance(o, T) and o.op == "str":
        return str_attr(I, o, name)
    if isinstance(o, BoundV):
        if name == "__self__":
            return o.self_
        if name in ("__name__", "__qualname__"):
            return o.func.name
        if name == "__func__":
            return o.func
    if isinstance(o, FuncV):
        if name in ("__name__", "__qualname__"):
            return o.name
        if name == "__doc__":
            return None
    if isinstance(o, TypeV):
        if name in ("__name__", "name"):
            return o.name
        if o.name == "dict" and name == "fromkeys":
            return bi("fromkeys", lambda I, a, k: I.dict([(M.key(I, x), a[1] if len(a) > 1 else None) for x in I.iter_items(a[0])]))
        return bi(o.name + "." + name, lambda I, a, k: I.call(I.getattr(a[0], name), a[1:], k))
    if isinstance(o, BuiltinV):
        if o.name == "np.add" and name == "at":
            return bi("np.add.at", NF.F["add.at"])
        if name in ("reduce", "accumulate") and o.name in ("np.add", "np.maximum", "np.minimum", "np.logical_and", "np.logical_or", "np.multiply"):
            base = {"np.add": "sum", "np.maximum": "max", "np.minimum": "min", "np.logical_and": "all", "np.logical_or": "any", "np.multiply": "prod"}[o.name]
            if name == "accumulate":
                if base != "sum":
                    raise Undecided("accumulate")
                return bi("np.cumsum", NF.F["cumsum"])

            def red(I, a, k):
                k = dict(k)
                if len(a) < 2 and "axis" not in k:
                    k["axis"] = 0
                return NF.F[base](I, a, k)
            return bi("reduce", red)
        if name in ("__name__",):
            return o.name
        raise PyRaise(ExcV("AttributeError", (name,)))
    if isinstance(o, ExcV):
        if name == "args":
            return tuple(o.args)
        raise PyRaise(ExcV("AttributeError", (name,)))
    if isinstance(o, SetV):
        return set_attr(I, o, name)
    if isinstance(o, tuple):
        if name in ("index", "count"):
            return list_attr(I, I.list(o), name)
        no_attr("tuple", name, hasattr(tuple, name))
    if isinstance(o, ExtV):
        return ExtV(o.path + "." + name, o.term)
    if isinstance(o, OpaqueV):
        return opaque_attr(I, o, name)
    if o is None:
        raise PyRaise(ExcV("AttributeError", ("'NoneType' object has no attribute '%s'" % name,)))
    if is_scalar(o):
        return scalar_attr(I, o, name)
    if isinstance(o, (RangeV, SymIter, DictView)):
        if isinstance(o, RangeV) and name in ("start", "stop", "step"):
            return getattr(o, name)
        raise Undecided("attribute of an iterator")
    if o is UNDEF:
        raise PyRaise(ExcV("AttributeError", (name,)))
    raise Undecided("attribute %s of %s" % (name, type(o).__name__))


def set_attr(I, o, name):
    def has(x):
        return any(M.eqv(I, x, y) is TRUE for y in o.items)
    if name == "add":
        def add(I, a, k):
            if not has(a[0]):
                o.items = list(o.items) + [a[0]]
        return bi("add", add)
    if name in ("union", "intersection", "difference"):
        def g(I, a, k):
            other = I.iter_items(a[0])
            ino = lambda x: any(M.eqv(I, x, y) is TRUE for y in other)
            if name == "union":
                return SetV(list(o.items) + [x for x in other if not has(x)])
            return SetV([x for x in o.items if ino(x) == (name == "intersection")])
        return bi(name, g)
    raise Undecided("set." + name)


def scalar_attr(I, o, name):
    if isinstance(o, T) or isinstance(o, Fraction):
        isf = True
    else:
        isf = False
    if name in ("shape",):
        if isinstance(o, T):
            return ()
        raise PyRaise(ExcV("AttributeError", (name,)))
    if name == "ndim" and isinstance(o, T):
        return 0
    if name == "size" and isinstance(o, T):
        return 1
    if name == "dtype":
        return TypeV(M.dt(o))
    if name in ("item", "tolist"):
        return bi(name, lambda I, a, k: o)
    if name in ("copy", "squeeze", "flatten", "ravel", "reshape", "round", "astype", "sum", "mean", "min", "max", "any", "all", "std", "clip"):
        if name in ("flatten", "ravel"):
            t = num(o)
            return bi(name, lambda I, a, k: I.arr(Arr((ONE,), lambda i: t, M.dt(o))))
        if name == "reshape":
            t = num(o)
            return bi(name, lambda I, a, k: NF.F["reshape"](I, [I.arr(Arr((ONE,), lambda i: t, M.dt(o))), tuple(a) if len(a) > 1 else a[0]], k))
        f = NF.F[name]
        return bi(name, lambda I, a, k: out(I, toarr(I, f(I, [o] + a, k))))
    if name == "is_integer":
        return bi(name, lambda I, a, k: tm.is_int(num(o)))
    if name in ("real",):
        return o
    no_attr("scalar", name, name in NDARRAY or hasattr(float, name) or hasattr(int, name))


def opaque_attr(I, o, name):
    if o.name == "spline" and name == "derivative":
        return bi(name, lambda I, a, k: OpaqueV("spline'", o.args))
    return ExtV(o.name + "." + name)


# ------------------------------------------------------------------ calls of types, external and opaque values
def call_value(I, f, args, kw):
    if isinstance(f, TypeV):
        return call_type(I, f, args, kw)
    if isinstance(f, ExtV):
        return call_ext(I, f, args, kw)
    if isinstance(f, OpaqueV):
        return call_opaque(I, f, args, kw)
    if isinstance(f, Poison):
        raise Undecided("call of a loop-carried value")
    raise PyRaise(ExcV("TypeError", ("'%s' object is not callable" % type(f).__name__,)))


def call_ext(I, f, args, kw):
    p = f.path
    base = p.split(".")[-1]
    fz = tuple(I.freeze(x) for x in args)
    fk = tuple(sorted(((k, I.freeze(v)) for k, v in kw.items()), key=lambda x: x[0]))
    if p.startswith(("logging", "warnings", "time", "tqdm", "sys")):
        return ExtV(p + "()")
    root = p.split(".")[0]
    if p == "copy.copy" or p == "copy.deepcopy":
        raise Undecided("copy")
    kind = "draw" if root == "matplotlib" or root.rstrip("0123456789_") in ("fig", "ax") else "ext"
    I.event(kind, p, fz, fk)
    if root == "matplotlib" and base == "subplots":
        nr = args[0] if args else kw.get("nrows", 1)
        nc = args[1] if len(args) > 1 else kw.get("ncols", 1)
        nr, nc = need_int(I, nr), need_int(I, nc)
        I.figs = getattr(I, "figs", 0) + 1
        if nr * nc == 1:
            return (ExtV("fig"), ExtV("ax"))
        if nr > 1 and nc > 1:
            return (ExtV("fig"), tuple(tuple(ExtV("ax%d_%d" % (i + 1, j + 1)) for j in range(nc)) for i in range(nr)))
        return (ExtV("fig"), tuple(ExtV("ax%d" % (i + 1)) for i in range(nr * nc)))
    if root == "matplotlib" and base == "figure":
        return ExtV("fig")
    if base in ("add_subplot", "gca", "twinx"):
        return ExtV("ax")
    return ExtV(p + "()")


def call_opaque(I, f, args, kw):
    if f.name.startswith("spline"):
        x = toarr(I, args[0])
        nu = kw.get("nu", args[1] if len(args) > 1 else 0)
        nm = f.name + ("" if M.is_conc(nu) and int(nu) == 0 else "_nu%s" % (nu,))
        return out(I, Arr(x.dims, lambda *i: tm.app(nm, *(f.args + (num(x(*i)),))), "float"))
    raise Undecided("call of " + f.name)


def floatv(I, v):
    v = M.lift_phi(I, v) if isinstance(v, PhiV) else v
    if isinstance(v, str):
        s = v.strip().lower()
        if s in ("nan",):
            return NAN
        if s in ("inf", "infinity", "+inf"):
            return INF
        if s in ("-inf", "-infinity"):
            return tm.neg(INF)
        try:
            return Fraction(s)
        except Exception:
            raise PyRaise(ExcV("ValueError", ("could not convert string to float",)))
    if type(v) is ArrV:
        a = toarr(I, v)
        for d in a.dims:
            I.require(tm.eq(d, ONE), "TypeError", ("only size-1 arrays can be converted to Python scalars",))
        return num(a(*[ZERO for _ in a.dims]))
    if isinstance(v, bool):
        return 1 if v else 0
    if is_scalar(v):
        t = num(v)
        return tm.ite(t, ONE, ZERO) if tm.is_bool(t) else v
    if v is None or isinstance(v, (ListV, tuple, DictV)):
        raise PyRaise(ExcV("TypeError", ("float() argument",)))
    raise Undecided("float of " + type(v).__name__)


def call_type(I, t, args, kw):
    n = t.name
    if n in EXC:
        e = ExcV(n, tuple(args))
        return e
    if n in ("float", "float32"):
        return M.cast(num(floatv(I, args[0])), n, "float") if args and n == "float32" else floatv(I, args[0]) if args else 0
    if n == "int":
        if not args:
            return 0
        v = floatv(I, args[0])
        if isinstance(v, Fraction):
            return int(v)
        if isinstance(v, int):
            return v
        return tnum(M.toint(num(v)))
    if n == "bool":
        c = I.truth(args[0]) if args else FALSE
        return True if c is TRUE else False if c is FALSE else c
    if n == "str":
        return M.to_str(I, args[0]) if args else ""
    if n == "list":
        if not args:
            return I.list([])
        v = I.res(args[0]) if isinstance(args[0], PhiV) and not is_arr(args[0]) else args[0]
        if isinstance(v, ListV):
            return I.list(I.cell(v).items)
        r = I.iterate(v)
        return I.list(r[1]) if r[0] == "items" else I.list([I.seg(r[1], r[2])])
    if n == "tuple":
        return tuple(I.iter_items(args[0])) if args else ()
    if n in ("set", "frozenset"):
        items = []
        for x in (I.iter_items(args[0]) if args else []):
            if not any(M.eqv(I, x, y) is TRUE for y in items):
                items.append(x)
        if any(isinstance(x, T) and x.op != "str" for x in items):
            for j, x in enumerate(items):
                for y in items[:j]:
                    if I.decide(M.eqv(I, x, y)) is None:
                        raise Undecided("set of symbolic values")
        return SetV(items)
    if n in ("dict", "OrderedDict"):
        d = I.dict([])
        if args:
            dict_attr(I, d, "update").fn(I, [args[0]], {})
        for k, v in kw.items():
            M.dict_set(I, d, k, v)
        return d
    if n == "defaultdict":
        return DictV(I.new(DictCell((), default=args[0] if args else None)))
    if n == "object":
        return ObjV(I.new(ObjCell(ClassV("object", [], {}, I.mod, None), {})))
    if n == "type":
        return type_of(I, args[0])
    if n == "slice":
        a = list(args)
        return SliceV(*( [None, a[0], None] if len(a) == 1 else (a + [None])[:3]))
    if n in ("property", "staticmethod", "classmethod"):
        return I.decorate(t, args[0])
    if n == "ndarray":
        return NF.F["empty"](I, args, kw)
    raise Undecided("call of type " + n)


def type_of(I, v):
    v = I.res(v) if isinstance(v, PhiV) else v
    if isinstance(v, ObjV):
        return I.cell(v).cls
    if v is None:
        return TypeV("NoneType")
    if isinstance(v, bool):
        return TypeV("bool")
    if isinstance(v, int):
        return TypeV("int")
    if isinstance(v, str) or isinstance(v, T) and v.op == "str":
        return TypeV("str")
    if isinstance(v, T):
        return TypeV("bool" if tm.is_bool(v) else M.dt(v))
    if isinstance(v, Fraction):
        return TypeV("float")
    if isinstance(v, ListV):
        return TypeV("list")
    if isinstance(v, DictV):
        return TypeV("dict")
    if isinstance(v, tuple):
        return TypeV("tuple")
    if isinstance(v, SetV):
        return TypeV("set")
    if type(v) is ArrV:
        return TypeV("ndarray")
    if isinstance(v, ExcV):
        return TypeV(v.name)
    if isinstance(v, (FuncV, BoundV, BuiltinV)):
        return TypeV("function")
    if isinstance(v, (ClassV, TypeV)):
        return TypeV("type")
    raise Undecided("type of " + type(v).__name__)


def isinstance_(I, v, t):
    """True / False"""
    if isinstance(t, tuple):
        return any(isinstance_(I, v, x) for x in t)
    if isinstance(v, PhiV):
        ra, rb = isinstance_(I, v.a, t), isinstance_(I, v.b, t)
        if ra == rb:
            return ra
        v = I.res(v)
        return isinstance_(I, v, t)
    if isinstance(t, ClassV):
        return isinstance(v, ObjV) and t in I.cell(v).cls.mro()
    if isinstance(t, TypeV):
        n = t.name
        if n == "object":
            return True
        if isinstance(v, ExcV):
            return exc_matches(v, t)
        if isinstance(v, T) and v.op != "str":
            b = tm.is_bool(v)
            if n == "bool":
                return b
            if n == "int":
                return b or tm.is_int(v)
            if n in ("float", "np.floating"):
                return not b and not tm.is_int(v)
            if n == "np.integer":
                return not b and tm.is_int(v)
            if n in ("np.number", "np.generic"):
                return not b
            return False
        if isinstance(v, Fraction):
            return n in ("float",) or (n == "int" and False)
        tv = type_of(I, v)
        if isinstance(tv, ClassV):
            return False
        if tv.name == "bool" and n == "int":
            return True
        return tv.name == n or (n == "function" and tv.name == "function")
    if isinstance(t, ExtV):
        p = t.path.split(".")[-1]
        if p in ("Callable",):
            return isinstance(v, (FuncV, BoundV, BuiltinV, ClassV)) or (isinstance(v, ObjV) and I.cell(v).cls.lookup("__call__")[0] is not None)
        if p == "Number" or p == "Real":
            return is_scalar(v)
        if p == "Integral":
            return is_scalar(v) and not isinstance(v, Fraction) and (isinstance(v, (bool, int)) or tm.is_int(v))
        if p in ("Iterable", "Sequence"):
            return isinstance(v, (ListV, tuple, ArrV, str, SetV))
        if isinstance(v, ExtV):
            return v.path.startswith(t.path)
        return False
    raise PyRaise(ExcV("TypeError", ("isinstance() arg 2",)))


# ------------------------------------------------------------------ builtins
def py_range(I, a, k):
    xs = []
    for x in a:
        x = M.lift_phi(I, x) if isinstance(x, PhiV) else x
        if type(x) is ArrV:
            x = scal(I, x)
        if isinstance(x, Fraction) or isinstance(x, (ListV, tuple, str)) or x is None:
            raise PyRaise(ExcV("TypeError", ("'float' object cannot be interpreted as an integer",)))
        xs.append(tnum(num(x)) if not isinstance(x, bool) else int(x))
    if len(xs) == 1:
        return RangeV(0, xs[0], 1)
    if len(xs) == 2:
        return RangeV(xs[0], xs[1], 1)
    return RangeV(*xs)


def lazy_len(I, its):
    """common iteration of several iterables: ('items', lists) or ('sym', n, elems)"""
    rs = [I.iterate(x) for x in its]
    if all(r[0] == "items" for r in rs):
        m = min(len(r[1]) for r in rs) if rs else 0
        return ("items", [tuple(r[1][j] for r in rs) for j in range(m)])
    syms = [r for r in rs if r[0] == "sym"]
    if len(syms) == len(rs):
        n = syms[0][1]
        for r in syms[1:]:
            if r[1] is not n:
                n = tm.minmax("min", n, r[1])
        return ("sym", n, lambda v: tuple(r[2](v) for r in rs))
    conc = [r for r in rs if r[0] == "items"]
    m = min(len(r[1]) for r in conc)
    for r in syms:
        c = tm.le(num(m), r[1])
        d = I.decide(c)
        if d is None:
            raise NeedFork(c)
        if not d:
            raise Undecided("zip of symbolic and concrete lengths")
    return ("items", [tuple(r[1][j] if r[0] == "items" else r[2](num(j)) for r in rs) for j in range(m)])


def py_zip(I, a, k):
    if not a:
        return I.list([])
    r = lazy_len(I, a)
    if r[0] == "items":
        return I.list(r[1])
    return SymIter(r[1], r[2])


def py_enumerate(I, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    r = I.iterate(a[0])
    if r[0] == "items":
        return I.list([(tnum(tm.add(num(start), j)) , x) for j, x in enumerate(r[1])])
    return SymIter(r[1], lambda v: (tm.add(num(start), v), r[2](v)))


def py_map(I, a, k):
    r = lazy_len(I, a[1:])
    if r[0] == "items":
        return I.list([I.call(a[0], list(x), {}) for x in r[1]])
    return SymIter(r[1], lambda v: I.call(a[0], list(r[2](v)), {}))


def py_filter(I, a, k):
    res = []
    for x in I.iter_items(a[1]):
        c = I.truth(I.call(a[0], [x], {}) if a[0] is not None else x)
        d = I.decide(c)
        if d is None:
            raise NeedFork(c)
        if d:
            res.append(x)
    return I.list(res)


def py_minmax(op):
    def g(I, a, k):
        key = k.get("key")
        if len(a) == 1:
            r = I.iterate(a[0])
            if r[0] == "sym":
                if key is not None:
                    raise Undecided("min/max key")
                return NF.F[op](I, [a[0] if is_arr(a[0]) else I.arr(toarr(I, a[0]))], {})
            xs = r[1]
            if not xs:
                if "default" in k:
                    return k["default"]
                raise PyRaise(ExcV("ValueError", ("%s() arg is an empty sequence" % op,)))
        else:
            xs = a
        if key is not None:
            best = xs[0]
            kb = I.call(key, [best], {})
            for x in xs[1:]:
                kx = I.call(key, [x], {})
                c = I.truth(M.compare(I, ast.Gt() if op == "max" else ast.Lt(), kx, kb))
                d = I.decide(c)
                if d is None:
                    raise NeedFork(c)
                if d:
                    best, kb = x, kx
            return best
        xs = [I.res(x) if isinstance(x, PhiV) else x for x in xs]
        if all(isinstance(x, (bool, int, Fraction)) for x in xs):
            return (max if op == "max" else min)(xs)
        if any(isinstance(x, (str, tuple)) for x in xs):
            raise Undecided("min of strings")
        if any(x is None for x in xs):
            raise PyRaise(ExcV("TypeError", ("'<' not supported with NoneType",)))
        ts = [num(scal(I, x)) for x in xs]
        return tnum(tm.minmax(op, *ts) if len(ts) > 1 else ts[0])
    return g


def py_sum(I, a, k):
    r = I.iterate(a[0])
    start = a[1] if len(a) > 1 else k.get("start", 0)
    if r[0] == "items":
        acc = start
        for x in r[1]:
            acc = I.binop(ast.Add(), acc, x)
        return acc
    v = r[2](tm.fresh(r[1], "sm"))
    if is_scalar(v) or (type(v) is ArrV and not toarr(I, v).dims):
        x = toarr(I, SymIter(r[1], r[2]))
        return tm.add(num(start), NF.r_sum(x.dims[0], x))
    x = toarr(I, SymIter(r[1], r[2]))
    return I.binop(ast.Add(), start, NF.F["sum"](I, [I.arr(x)], {"axis": 0}))


def py_anyall(op):
    def g(I, a, k):
        r = I.iterate(a[0])
        if r[0] == "items":
            cs = [I.truth(x) for x in r[1]]
            c = tm.or_(*cs) if op == "any" else tm.and_(*cs)
        else:
            v = tm.fresh(r[1], "any")
            t = I.truth(r[2](v))
            c = tm.red_v("any", r[1], v, TRUE, t if op == "any" else tm.not_(t))
            c = c if op == "any" else tm.not_(c)
        return True if c is TRUE else False if c is FALSE else c
    return g


def py_isinstance(I, a, k):
    return isinstance_(I, a[0], a[1])


def py_getattr(I, a, k):
    n = pstr(I, a[1])
    if len(a) > 2:
        try:
            return I.getattr(a[0], n)
        except PyRaise as e:
            if exc_matches(e.exc, TypeV("AttributeError")):
                return a[2]
            raise
    return I.getattr(a[0], n)


def py_hasattr(I, a, k):
    try:
        I.getattr(a[0], pstr(I, a[1]))
        return True
    except PyRaise as e:
        if exc_matches(e.exc, TypeV("AttributeError")):
            return False
        raise


def py_round(I, a, k):
    v = a[0]
    nd = a[1] if len(a) > 1 else k.get("ndigits")
    if M.is_conc(v) and not isinstance(v, T):
        if nd is None:
            return round(v)
        r = round(Fraction(v), int(nd))
        return r
    if nd is None:
        return tm.app("round", num(scal(I, v)))
    return NF.F["round"](I, [scal(I, v), nd], {})


def py_abs(I, a, k):
    v = a[0]
    if isinstance(v, (bool, int, Fraction)):
        return abs(v)
    return NF.F["abs"](I, [v], {})


def py_sorted(I, a, k):
    r = I.iterate(a[0])
    if r[0] == "items":
        ints = all(isinstance(x, (bool, int, Fraction, str)) for x in r[1])
        if not ints and k.get("key") is None and all(is_scalar(x) for x in r[1]) and len(r[1]) > 3:
            return py_list_of(I, NF.F["sort"](I, [I.arr(toarr(I, I.list(r[1])))], {}))
        return I.list(sort_items(I, r[1], k.get("key"), k.get("reverse")))
    if k:
        raise Undecided("sorted with key")
    return py_list_of(I, NF.F["sort"](I, [I.arr(toarr(I, a[0] if is_arr(a[0]) else SymIter(r[1], r[2])))], {}))


def py_reversed(I, a, k):
    r = I.iterate(a[0])
    if r[0] == "items":
        return I.list(list(reversed(r[1])))
    return SymIter(r[1], lambda v: r[2](tm.sub(tm.sub(r[1], 1), v)))


def py_callable(I, a, k):
    v = I.res(a[0])
    return isinstance(v, (FuncV, BoundV, BuiltinV, ClassV, TypeV)) or (isinstance(v, ObjV) and I.cell(v).cls.lookup("__call__")[0] is not None) \
        or isinstance(v, (ExtV, OpaqueV))


def py_next(I, a, k):
    items = I.iter_items(a[0])
    if not items:
        if len(a) > 1:
            return a[1]
        raise PyRaise(ExcV("StopIteration"))
    return items[0]


def py_issubclass(I, a, k):
    ts = a[1] if isinstance(a[1], tuple) else (a[1],)
    return any(isinstance(a[0], ClassV) and t in a[0].mro() for t in ts)


def py_setattr(I, a, k):
    I.setattr(a[0], pstr(I, a[1]), a[2])


def py_pow(I, a, k):
    return I.binop(ast.Pow(), a[0], a[1])


def py_print(I, a, k):
    if k.get("file") is not None:
        return None
    sep = k.get("sep") or " "
    parts = []
    for j, x in enumerate(a):
        parts += ([sep] if j else []) + [M.to_str(I, x)]
    I.event("print", M.join_str(parts))


def make_builtins(I):
    I.npf = NF.F
    b = {}
    fns = {
        "len": lambda I, a, k: M.length(I, a[0]), "range": py_range, "abs": py_abs, "min": py_minmax("min"), "max": py_minmax("max"),
        "sum": py_sum, "any": py_anyall("any"), "all": py_anyall("all"), "sorted": py_sorted, "zip": py_zip, "enumerate": py_enumerate,
        "map": py_map, "filter": py_filter, "reversed": py_reversed, "round": py_round, "isinstance": py_isinstance,
        "issubclass": py_issubclass, "callable": py_callable, "hasattr": py_hasattr, "getattr": py_getattr, "setattr": py_setattr,
        "print": py_print, "iter": lambda I, a, k: a[0], "next": py_next, "pow": py_pow, "id": lambda I, a, k: id(a[0]),
        "divmod": lambda I, a, k: (I.binop(ast.FloorDiv(), a[0], a[1]), I.binop(ast.Mod(), a[0], a[1])),
        "repr": lambda I, a, k: M.to_str(I, a[0]),
        "format": lambda I, a, k: M.to_str(I, a[0], a[1] if len(a) > 1 else None),
        "vars": lambda I, a, k: I.getattr(a[0], "__dict__"),
        "hash": lambda I, a, k: tm.app("hash", num(a[0])),
    }
    for n, f in fns.items():
        b[n] = BuiltinV(n, f)
    for n in ("int", "float", "str", "bool", "list", "tuple", "dict", "set", "frozenset", "object", "type", "super", "slice", "property",
              "staticmethod", "classmethod"):
        b[n] = TypeV(n)
    for n in EXC:
        b[n] = TypeV(n)
    b["NotImplemented"] = ExtV("NotImplemented")
    b["__name__"] = "analysed"
    return b


# ------------------------------------------------------------------ copying
def deepcopy(I, v, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, memo) for x in v)
    if isinstance(v, PhiV):
        return PhiV(v.c, deepcopy(I, v.a, memo), deepcopy(I, v.b, memo))
    if isinstance(v, ArrV):
        if v.cid in memo:
            return memo[v.cid]
        r = type(v)(I.new(None))
        memo[v.cid] = r
        I.st.heap[r.cid] = dccell(I, I.st.heap[v.cid], memo)
        return r
    return v


def dccell(I, c, memo):
    if isinstance(c, PhiCell):
        return PhiCell(c.c, dccell(I, c.a, memo), dccell(I, c.b, memo))
    if isinstance(c, ArrCell):
        return ArrCell(M.cellval(I, c))
    if isinstance(c, ListCell):
        return ListCell([x if isinstance(x, Seg) else deepcopy(I, x, memo) for x in c.items])
    if isinstance(c, DictCell):
        return DictCell([(k, deepcopy(I, x, memo)) for k, x in c.items], default=c.default)
    if isinstance(c, ObjCell):
        return ObjCell(c.cls, {k: deepcopy(I, x, memo) for k, x in c.attrs.items()})
    raise Undecided("deepcopy")


def shallow(I, v):
    v = I.res(v) if isinstance(v, PhiV) else v
    if isinstance(v, ArrV):
        c = I.cell(v)
        if isinstance(c, ArrCell):
            return I.arr(M.cellval(I, c))
        if isinstance(c, ListCell):
            return I.list(c.items)
        if isinstance(c, DictCell):
            return DictV(I.new(DictCell(c.items, default=c.default)))
        if isinstance(c, ObjCell):
            return ObjV(I.new(ObjCell(c.cls, dict(c.attrs))))
    return v


def py_product(I, a, k):
    import itertools
    rep = int(k.get("repeat", 1))
    its = [I.iter_items(x) for x in a] * rep
    return I.list([tuple(x) for x in itertools.product(*its)])


def py_partial(I, a, k):
    f, pre, pk = a[0], a[1:], dict(k)
    return BuiltinV("partial", lambda I, aa, kk: I.call(f, pre + aa, {**pk, **kk}))


def py_reduce(I, a, k):
    items = I.iter_items(a[1])
    acc = a[2] if len(a) > 2 else None
    if len(a) < 3:
        if not items:
            raise PyRaise(ExcV("TypeError", ("reduce() of empty iterable",)))
        acc, items = items[0], items[1:]
    for x in items:
        acc = I.call(a[0], [acc, x], {})
    return acc


def py_spline(I, a, k):
    names = ["x", "y", "w", "bbox", "k", "s", "ext", "check_finite"]
    d = dict(zip(names, a))
    d.update(k)
    x, y = toarr(I, d.pop("x")), toarr(I, d.pop("y"))
    n = M.same_dim(I, x.dims[0], y.dims[0])
    extra = []
    for kk in sorted(d):
        v = d[kk]
        if v is None:
            continue
        extra.append(tm.app("opt:" + kk, num(scal(I, v)) if is_scalar(v) else tm.lam(toarr(I, v).dims[0], toarr(I, v))))
    return OpaqueV("spline", (tm.lam(n, lambda i: tm.mk("app", "pair", num(x(i)), num(y(i)))),) + tuple(extra))


def py_trapz(I, a, k):
    return NF.F["trapz"](I, a, k)


def py_quad(I, a, k):
    f, lo, hi = a[0], a[1], a[2]
    v = tm.fresh(ONE, "q")
    v = tm.sym("quadvar", "real")
    y = I.call(f, [v], {})
    y = num(scal(I, y))
    return (tm.app("quad", tm.mk("app", "fun", v, y), num(scal(I, lo)), num(scal(I, hi))), tm.unknown("quad error"))


def py_shap_explainer(I, a, k):
    """shap.Explainer(model, background)(data).values : attributions, an uninterpreted function of model and both matrices"""
    bg = toarr(I, a[1]) if len(a) > 1 else None
    extra = [x for x in a[2:]] + sorted(k)
    I.event("shap", "explainer", I.freeze(bg) if bg is not None else None)

    def explain(I, aa, kk):
        d = toarr(I, aa[0])
        I.event("shap", "explain", I.freeze(d))
        n, D = d.dims
        if D.op != "num":
            raise Undecided("shap with a symbolic number of features")
        nd = int(tm.nval(D))
        lam_bg = tm.lam(bg.dims[0], lambda i: tm.mk("app", "row", *[num(bg(i, num(c))) for c in range(nd)])) if bg is not None else ZERO
        vals = I.arr(Arr((n, D), lambda i, j: tm.app("shap", num(j), lam_bg, *[num(d(i, num(c))) for c in range(nd)]), "float"))
        c = ClassV("Explanation", [], {}, I.mod, None)
        return ObjV(I.new(ObjCell(c, {"values": vals, "data": I.arr(d)})))
    return BuiltinV("explain", explain)


PYMODS = {}


def make_modules(I):
    B = BuiltinV
    PYMODS.clear()
    PYMODS.update({
        "copy": {"deepcopy": B("deepcopy", lambda I, a, k: deepcopy(I, a[0])), "copy": B("copy", lambda I, a, k: shallow(I, a[0]))},
        "math": {n: B("math." + n, NF.F[n2]) for n, n2 in (("sqrt", "sqrt"), ("log", "log"), ("exp", "exp"), ("floor", "floor"), ("ceil", "ceil"),
                                                            ("fabs", "abs"), ("isnan", "isnan")) if n2 in NF.F},
        "itertools": {"product": B("product", py_product),
                      "chain": B("chain", lambda I, a, k: I.list([y for x in a for y in I.iter_items(x)])),
                      "combinations": B("combinations", lambda I, a, k: I.list([tuple(x) for x in __import__("itertools").combinations(I.iter_items(a[0]), int(a[1]))])),
                      "accumulate": B("accumulate", lambda I, a, k: py_list_of(I, NF.F["cumsum"](I, [a[0]], {}))),
                      "repeat": B("repeat", lambda I, a, k: I.list([a[0]] * int(a[1])))},
        "functools": {"partial": B("partial", py_partial), "reduce": B("reduce", py_reduce),
                      "wraps": B("wraps", lambda I, a, k: B("wraps", lambda I, aa, kk: aa[0])),
                      "lru_cache": ExtV("functools.lru_cache"), "cached_property": TypeV("property")},
        "collections": {"defaultdict": TypeV("defaultdict"), "OrderedDict": TypeV("OrderedDict"), "namedtuple": ExtV("namedtuple")},
        "operator": {"add": B("add", lambda I, a, k: I.binop(ast.Add(), *a)), "mul": B("mul", lambda I, a, k: I.binop(ast.Mult(), *a)),
                     "itemgetter": B("itemgetter", lambda I, a, k: B("ig", lambda I, aa, kk: M.getitem(I, aa[0], a[0]))),
                     "attrgetter": B("attrgetter", lambda I, a, k: B("ag", lambda I, aa, kk: I.getattr(aa[0], a[0]))),
                     "lt": B("lt", lambda I, a, k: M.compare(I, ast.Lt(), *a)), "le": B("le", lambda I, a, k: M.compare(I, ast.LtE(), *a)),
                     "gt": B("gt", lambda I, a, k: M.compare(I, ast.Gt(), *a)), "ge": B("ge", lambda I, a, k: M.compare(I, ast.GtE(), *a))},
        "abc": {"ABC": TypeV("object"), "abstractmethod": B("abstractmethod", lambda I, a, k: a[0]), "ABCMeta": TypeV("type")},
        "tqdm": {"tqdm": B("tqdm", lambda I, a, k: a[0] if a else k["iterable"]), "trange": B("trange", py_range)},
        "tqdm.auto": {"tqdm": B("tqdm", lambda I, a, k: a[0] if a else k["iterable"])},
        "scipy.interpolate": {"UnivariateSpline": B("UnivariateSpline", py_spline)},
        "scipy.integrate": {"quad": B("quad", py_quad), "trapezoid": B("trapezoid", py_trapz)},
        "shap": {"Explainer": B("Explainer", py_shap_explainer)},
    })
    from . import vspec
    PYMODS["vspec"] = vspec.module()
    I.size_max, I.assumed = {}, []
    mods = {"numpy": ModV("numpy"), "numpy.random": ModV("numpy.random")}
    for n in PYMODS:
        mods[n] = ModV(n)
    sc = ModV("scipy")
    PYMODS["scipy"] = {"interpolate": mods["scipy.interpolate"], "integrate": mods["scipy.integrate"]}
    mods["scipy"] = sc
    return mods
