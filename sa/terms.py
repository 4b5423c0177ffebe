"""Hash-consed value-graph terms with a polynomial normal form.

A term denotes the value of an expression of the analysed program as a function of the program's
inputs.  Terms are never produced by running the program: sa/interp.py derives them from its syntax
tree, joining branches with `ite` nodes and summarising loops with binder nodes (sum/min/nth/...).
Two terms that are the same object are congruent (they denote the same value for every input).
"""
from fractions import Fraction
import itertools

_tab = {}
_ids = itertools.count()
_fresh = itertools.count()
EMPTY = frozenset()


class T:
    __slots__ = ("op", "args", "id", "fv", "h", "unk", "size")

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise RuntimeError("truth value of a term: " + show(self))


def mk(op, *args):
    key = (op,) + tuple(a.id if type(a) is T else ("#", a) if not isinstance(a, tuple) else _tk(a) for a in args)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.id = op, args, next(_ids)
    fv, h, unk, size = EMPTY, 0, op == "unknown", 1
    if op == "bv" or (op == "sym" and args[2]):
        fv = frozenset([t])
    if op == "bv":
        # sizes may mention symbols but never other bound variables that matter for capture
        h = 0
    else:
        for c in children(t):
            if c.fv:
                fv = fv | c.fv if fv else c.fv
            if c.h > h:
                h = c.h
            unk = unk or c.unk
            size += c.size
    if op in BINDERS:
        cv = args[1]
        fv = fv - {cv}
        h = h + 1
    t.fv, t.h, t.unk, t.size = fv, h, unk, size
    _tab[key] = t
    return t


def _tk(a):
    return tuple(x.id if type(x) is T else (_tk(x) if isinstance(x, tuple) else ("#", x)) for x in a)


# binder ops: args = (n, cv, cond, body, *rest) ; rest is outside the scope of cv
BINDERS = {"sum", "rmin", "rmax", "argmin", "argmax", "nth", "argsort", "sorted", "uniq", "nuniq", "lam", "any", "prod"}


def children(t):
    if t.op == "poly":
        for c, mono in t.args[0]:
            for a, e in mono:
                yield a
    else:
        for a in t.args:
            if type(a) is T:
                yield a
            elif isinstance(a, tuple):
                for x in a:
                    if type(x) is T:
                        yield x


# ------------------------------------------------------------------ constants and symbols
def num(x):
    if type(x) is T:
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float("inf"), float("-inf")):
            return INF if x > 0 else neg(INF)
        x = Fraction(repr(x))
    return mk("num", Fraction(x))


def sym(name, kind="real", track=False):
    return mk("sym", name, kind, track)


def fresh(size, tag="f"):
    return mk("bv", (tag, next(_fresh)), size)


def unknown(reason):
    return mk("unknown", str(reason))


TRUE = mk("bool", True)
FALSE = mk("bool", False)
INF = mk("inf")
NAN = mk("nan")
ZERO = num(0)
ONE = num(1)


def is_num(t):
    return t.op == "num"


def nval(t):
    return t.args[0]


# ------------------------------------------------------------------ polynomials
def _terms(t):
    if t.op == "poly":
        return t.args[0]
    if t.op == "num":
        return ((t.args[0], ()),) if t.args[0] != 0 else ()
    if t.op == "bool":
        return ((Fraction(1), ()),) if t.args[0] else ()
    return ((Fraction(1), ((t, Fraction(1)),)),)


def _poly(d):
    items = [(c, m) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    items.sort(key=lambda cm: tuple((a.id, e) for a, e in cm[1]))
    if len(items) == 1:
        c, m = items[0]
        if not m:
            return mk("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(items))


def add(*ts):
    d = {}
    for t in ts:
        t = num(t)
        for c, m in _terms(t):
            d[m] = d.get(m, 0) + c
    return _poly(d)


def neg(a):
    return scale(num(a), -1)


def sub(a, b):
    return add(a, neg(b))


def scale(t, k):
    return _poly({m: c * k for c, m in _terms(num(t))})


def _mmul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    out = []
    for a, e in d.items():
        if e != 0:
            out.append((a, e))
    out.sort(key=lambda ae: ae[0].id)
    # re-expand powers of polynomials that became whole (sqrt(p)^2 -> p)
    return tuple(out)


def mul(*ts):
    r = ONE
    for t in ts:
        r = _mul2(r, num(t))
    return r


def _mul2(a, b):
    ta, tb = _terms(a), _terms(b)
    if len(ta) * len(tb) > 400:
        return mk("bigmul", *sorted([a, b], key=lambda x: x.id))
    d = {}
    extra = []
    for c1, m1 in ta:
        for c2, m2 in tb:
            m = _mmul(m1, m2)
            x = _fixmono(m)
            if x is None:
                d[m] = d.get(m, 0) + c1 * c2
            else:
                extra.append(scale(x, c1 * c2))
    r = _poly(d)
    return add(r, *extra) if extra else r


def _fixmono(m):
    """root(p)^2 -> p, inv(p)*... handled by exponents on 'pbase' atoms."""
    for a, e in m:
        if a.op == "pbase" and e == int(e) and e >= 1:
            rest = tuple(x for x in m if x[0] is not a)
            r = ONE
            for _ in range(int(e)):
                r = _mul2(r, a.args[0])
            return _mul2(r, mk("poly", ((Fraction(1), rest),)) if not (len(rest) == 1 and rest[0][1] == 1) and rest else (rest[0][0] if rest else ONE))
    return None


def pow_(a, e):
    a = num(a)
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return a
    ts = _terms(a)
    if not ts:
        return ZERO if e > 0 else mk("div0")
    if len(ts) == 1:
        c, m = ts[0]
        if e == int(e):
            k = c ** int(e)
            mm = tuple((x, y * e) for x, y in m)
            f = _fixmono(mm)
            if f is not None:
                return scale(f, k)
            return _poly({mm: k})
        r = _root(c, e)
        if r is not None and all(_nonneg_atom(x) or (y * e).denominator == 1 and (y).numerator % 2 == 1 for x, y in m):
            return _poly({tuple((x, y * e) for x, y in m): r})
        if c > 0 and r is None:
            return mul(pow_(mk("pbase", num(c)), e) if False else _poly({((mk("pbase", num(c)), e),): Fraction(1)}), pow_(_poly({m: Fraction(1)}), e)) if m else _poly({((mk("pbase", num(c)), e),): Fraction(1)})
        return _poly({((mk("pbase", a), e),): Fraction(1)})
    if e == int(e) and 0 < e <= 4:
        r = ONE
        for _ in range(int(e)):
            r = _mul2(r, a)
        return r
    # normalise content
    lead = ts[0][0]
    if e == int(e):
        b = scale(a, 1 / lead)
        return scale(_poly({((mk("pbase", b), e),): Fraction(1)}), lead ** int(e))
    lead = abs(lead)
    r = _root(lead, e)
    if r is not None:
        b = scale(a, 1 / lead)
        return scale(_poly({((mk("pbase", b), e),): Fraction(1)}), r)
    return _poly({((mk("pbase", a), e),): Fraction(1)})


def _root(c, e):
    if c == 1:
        return Fraction(1)
    if c <= 0 or e.denominator != 2:
        return None
    from math import isqrt
    n, d = c.numerator, c.denominator
    if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
        return Fraction(isqrt(n), isqrt(d)) ** int(e.numerator)
    return None


def _nonneg_atom(a):
    if a.op == "bv":
        return True
    if a.op == "sym":
        return a.args[1] in ("size", "pos", "nonneg")
    if a.op == "sum":
        return nonneg(a.args[3])
    if a.op in ("nuniq", "nth", "argsort", "argmin", "argmax", "abs", "mod"):
        return True
    if a.op == "app":
        return a.args[0] in POSITIVE_APPS
    if a.op in ("max",):
        return any(nonneg(x) for x in a.args)
    if a.op == "ite":
        return nonneg(a.args[1]) and nonneg(a.args[2])
    return False


POSITIVE_APPS = set()


def nonneg(t):
    t = num(t)
    return all(c > 0 and all(_nonneg_atom(a) or e % 2 == 0 for a, e in m) for c, m in _terms(t))


def div(a, b):
    b = num(b)
    if b.op == "num" and nval(b) == 0:
        return mk("div0")
    return mul(a, pow_(b, -1))


def sqrt(a):
    return pow_(a, Fraction(1, 2))


# ------------------------------------------------------------------ integer division
def _const_ite(a, depth=40):
    """is `a` a decision over constants?"""
    while a.op == "ite" and depth:
        depth -= 1
        x, y = a.args[1], a.args[2]
        if x.op == "ite":
            if y.op == "ite":
                return _const_ite(x, depth) and _const_ite(y, depth)
            x, y = y, x
        if x.op != "num":
            return False
        a = y
    return a.op == "num"


def _over_ite(f, a):
    if a.op == "ite":
        return ite(a.args[0], _over_ite(f, a.args[1]), _over_ite(f, a.args[2]))
    return f(a)


def floordiv(a, b):
    a, b = num(a), num(b)
    if a.op == "ite" and b.op == "num" and _const_ite(a):
        return _over_ite(lambda x: floordiv(x, b), a)
    if a.op == "num" and b.op == "num" and nval(b) != 0:
        return num(nval(a) // nval(b))
    if b is ONE:
        return a if is_int(a) else mk("floor", a)
    q, r = _split(a, b)
    if q is not None:
        if r is ZERO:
            return q
        if _below(r, b):
            return q
        if q is not ZERO:
            return add(q, mk("fdiv", r, b))
    return mk("fdiv", a, b)


def mod(a, b):
    a, b = num(a), num(b)
    if a.op == "ite" and b.op == "num" and _const_ite(a):
        return _over_ite(lambda x: mod(x, b), a)
    if a.op == "num" and b.op == "num" and nval(b) != 0:
        return num(nval(a) % nval(b))
    if b is ONE:
        return ZERO
    q, r = _split(a, b)
    if q is not None:
        if r is ZERO or _below(r, b):
            return r
        return mk("mod", r, b)
    return mk("mod", a, b)


def _split(a, b):
    """a = q*b + r with q an integer polynomial, by monomial divisibility."""
    tb = _terms(b)
    if len(tb) != 1:
        return None, None
    cb, mb = tb[0]
    q, r = {}, {}
    for c, m in _terms(a):
        dm = dict(m)
        ok = all(dm.get(x, 0) >= e for x, e in mb) and (mb or c % cb == 0) and (c / cb).denominator == 1
        if ok:
            mm = _mmul(m, tuple((x, -e) for x, e in mb))
            q[mm] = q.get(mm, 0) + c / cb
        else:
            r[m] = r.get(m, 0) + c
    return _poly(q), _poly(r)


def _below(r, b):
    """0 <= r < b"""
    r = num(r)
    if r.op == "bv" and r.args[1] is b:
        return True
    if r.op == "num" and b.op == "num":
        return 0 <= nval(r) < nval(b)
    if r.op in ("argmax", "argmin", "nth", "argsort") and r.args[0] is b:
        return True
    if r.op == "num" and nval(r) == 0:
        return True
    if r.op == "mod" and r.args[1] is b:
        return True
    if r.op == "sym" and r.args[1] == "index" :
        return BOUNDS.get(r) is b
    return False


BOUNDS = {}


def is_int(t):
    if t.op == "num":
        return nval(t).denominator == 1
    if t.op == "bool":
        return True
    if t.op == "bv":
        return True
    if t.op == "sym":
        return t.args[1] in ("size", "int", "index")
    if t.op == "poly":
        return all(c.denominator == 1 and all(e > 0 and e.denominator == 1 and is_int(a) for a, e in m) for c, m in t.args[0])
    if t.op == "sum":
        return is_int(t.args[3])
    if t.op in ("nuniq", "nth", "argsort", "argmin", "argmax", "fdiv", "floor", "toint"):
        return True
    if t.op == "mod":
        return is_int(t.args[0]) and is_int(t.args[1])
    if t.op == "ite":
        return is_int(t.args[1]) and is_int(t.args[2])
    if t.op in ("max", "min"):
        return all(is_int(a) for a in t.args)
    if t.op == "app":
        return t.args[0] in INT_APPS
    return False


INT_APPS = set()


def is_bool(t):
    return t.op in ("bool", "lt0", "le0", "eq0", "and", "or", "not", "any", "eq", "bsym") or (
        t.op == "ite" and is_bool(t.args[1])) or (t.op == "sym" and t.args[1] == "bool") or (t.op == "app" and t.args[0] in BOOL_APPS) or t.op == "isnan"


BOOL_APPS = set()


# ------------------------------------------------------------------ booleans
def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "lt0":
        return le0(neg(c.args[0]))
    if c.op == "le0":
        return lt0(neg(c.args[0]))
    if c.op == "and":
        return or_(*[not_(x) for x in c.args])
    if c.op == "or":
        return and_(*[not_(x) for x in c.args])
    if c.op == "ite" and is_bool(c):
        return ite(c.args[0], not_(c.args[1]), not_(c.args[2]))
    return mk("not", c)


def _flat(op, cs):
    out = []
    for c in cs:
        if c.op == op:
            out.extend(c.args)
        else:
            out.append(c)
    return out


def and_(*cs):
    s = {}
    for c in _flat("and", cs):
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        s[c] = 1
    for c in s:
        n = not_(c)
        if n in s:
            return FALSE
    # drop conjuncts implied by others of the form le0/lt0 on same poly
    for c in list(s):
        if c.op == "le0" and mk("lt0", c.args[0]) in s:
            del s[c]
    # linear contradictions: p <= 0 and q <= 0 with p + q > 0
    ineq = [c for c in s if c.op in ("le0", "lt0")]
    if 1 < len(ineq) <= 12:
        for i, c in enumerate(ineq):
            for d in ineq[:i]:
                x, y = c.args[0], d.args[0]
                t = add(x, y)
                if t.op == "num":
                    if nval(t) > 0 or (nval(t) == 0 and (c.op == "lt0" or d.op == "lt0")):
                        return FALSE
    # absorption: a and (a or b); unit resolution: a and (not a or b)
    again = []
    for c in list(s):
        if c.op == "or":
            if any(x in s for x in c.args):
                del s[c]
            else:
                rest = [x for x in c.args if not_(x) not in s]
                if len(rest) < len(c.args):
                    del s[c]
                    again.append(or_(*rest))
    if again:
        return and_(*s, *again)
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mk("and", *sorted(s, key=lambda x: x.id))


def or_(*cs):
    s = {}
    for c in _flat("or", cs):
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        s[c] = 1
    for c in s:
        if not_(c) in s:
            return TRUE
    for c in list(s):
        if c.op == "lt0" and mk("le0", c.args[0]) in s:
            del s[c]
    again = []
    for c in list(s):
        if c.op == "and":
            if any(x in s for x in c.args):
                del s[c]
            else:
                rest = [x for x in c.args if not_(x) not in s]
                if len(rest) < len(c.args):
                    del s[c]
                    again.append(and_(*rest))
    if again:
        return or_(*s, *again)
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return mk("or", *sorted(s, key=lambda x: x.id))


def _normsign(p, sign_free=False):
    ts = _terms(p)
    lead = next((c for c, m in ts if m), ts[0][0]) if ts else 1
    k = 1 / (lead if sign_free else abs(lead))
    return scale(p, k)


def _hasinf(p):
    return any(a is INF or a is NAN for c, m in _terms(p) for a, e in m)


_NONFINITE = {}


def _nonfinite(t):
    """an infinite or undefined constant occurs somewhere in t"""
    r = _NONFINITE.get(t)
    if r is None:
        todo = [t]
        while todo:
            x = todo[-1]
            if x in _NONFINITE:
                todo.pop()
                continue
            if x.op in ("inf", "nan", "div0", "unknown"):
                _NONFINITE[x] = True
                todo.pop()
                continue
            kids = list(children(x))
            rest = [k for k in kids if k not in _NONFINITE]
            if rest:
                todo.extend(rest)
            else:
                _NONFINITE[x] = any(_NONFINITE[k] for k in kids)
                todo.pop()
        r = _NONFINITE[t]
    return r


def _infinite(p):
    """sign of c * inf + finite terms, None for anything else"""
    sign = 0
    for c, m in _terms(p):
        if len(m) == 1 and m[0] == (INF, 1):
            sign = 1 if c > 0 else -1
        elif any(_nonfinite(a) for a, e in m):
            return None
    return sign or None


def lt0(p):
    p = num(p)
    r = _CMP.get(('lt0', p))
    if r is None:
        r = _CMP[('lt0', p)] = _lt0(p)
    return r


def _lt0(p):
    if p.op == "num":
        return TRUE if nval(p) < 0 else FALSE
    x = _liftcmp(lt0, p)
    if x is not None:
        return x
    x = _infinite(p)
    if x is not None:
        return TRUE if x < 0 else FALSE
    if nonneg(p):
        return FALSE
    if is_int(p) and not _hasinf(p):
        return le0(add(p, 1))
    b = _bound(p) or _extremum(p)
    if b is not None:
        lo, hi = b
        if hi is not None and hi < 0:
            return TRUE
        if lo is not None and lo >= 0:
            return FALSE
    return mk("lt0", _normsign(p))


def le0(p):
    p = num(p)
    r = _CMP.get(('le0', p))
    if r is None:
        r = _CMP[('le0', p)] = _le0(p)
    return r


def _le0(p):
    if p.op == "num":
        return TRUE if nval(p) <= 0 else FALSE
    x = _liftcmp(le0, p)
    if x is not None:
        return x
    x = _infinite(p)
    if x is not None:
        return TRUE if x < 0 else FALSE
    if nonneg(neg(p)):
        return TRUE
    b = _bound(p) or _extremum(p)
    if b is not None:
        lo, hi = b
        if hi is not None and hi <= 0:
            return TRUE
        if lo is not None and lo > 0:
            return FALSE
    x = _allcount(p)
    if x is not None:
        return x
    return mk("le0", _normsign(p))


def _allcount(p):
    """n <= |{v < n : c(v)}|  is  c(v) for every v"""
    ts = _terms(p)
    if len(ts) > 4:
        return None
    for c, m in ts:
        if c == -1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sum" and m[0][0].args[3] is ONE:
            a = m[0][0]
            if add(p, a) is a.args[0]:
                n, v, cc, _ = a.args
                return not_(red_v("any", n, v, TRUE, not_(cc)))
    return None


def eq0(p):
    p = num(p)
    r = _CMP.get(('eq0', p))
    if r is None:
        r = _CMP[('eq0', p)] = _eq0(p)
    return r


def _eq0(p):
    if p.op == "num":
        return TRUE if nval(p) == 0 else FALSE
    x = _liftcmp(eq0, p)
    if x is not None:
        return x
    b = _bound(p)
    if b is not None:
        lo, hi = b
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return FALSE
    return mk("eq0", _normsign(p, True))


_CMP = {}


def _liftcmp(f, p):
    """comparison of a polynomial with an ite atom: decide it when both branches decide."""
    for c, m in _terms(p):
        for a, e in m:
            if a.op == "ite":
                x = f(_swap(p, a, a.args[1]))
                y = f(_swap(p, a, a.args[2]))
                if x.op == "bool" or y.op == "bool":
                    return ite(a.args[0], x, y)
                return None
    return None


def _swap(p, a, x):
    """the polynomial with x in place of its factor a"""
    out = []
    for c, m in _terms(p):
        if any(y is a for y, e in m):
            r = num(c)
            for y, e in m:
                r = mul(r, pow_(x if y is a else y, e))
            out.append(r)
        else:
            out.append(_poly({m: c}))
    return add(*out)


def _bound(p):
    """crude numeric bounds of a polynomial, using bv/size/index ranges (upper bound of a bv is size-1)."""
    # eliminate bound variables with their range: p linear in bv with constant coefficient
    lo, hi = p, p
    for _ in range(4):
        lo2 = _elim(lo, True)
        hi2 = _elim(hi, False)
        if lo2 is lo and hi2 is hi:
            break
        lo, hi = lo2, hi2
    l = _const_lo(lo)
    h = _const_lo(neg(hi))
    if l is None and h is None:
        return None
    return l, (None if h is None else -h)


def _elim(p, lower):
    for c, m in _terms(p):
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            n = a.args[1] if a.op == "bv" else (BOUNDS.get(a) if a.op == "sym" else (a.args[0] if a.op in ("nth", "argsort", "argmax", "argmin") else None))
            if a.op == "mod":
                n = a.args[1]
            if a.op == "sum" and a.args[3] is ONE:
                # count: 0..n
                up = a.args[0]
                pos = c > 0
                return add(p, scale(a, -c), 0 if pos == lower else scale(up, c))
            if a.op == "nuniq":
                pos = c > 0
                return add(p, scale(a, -c), num(c) if pos == lower else scale(a.args[0], c))
            if n is None:
                continue
            pos = c > 0
            if pos == lower:
                return add(p, scale(a, -c))          # a >= 0
            return add(p, scale(a, -c), scale(sub(n, 1), c))  # a <= n-1
    return p


def match(pat, v, t, bind):
    """one-way matching: bind[v] such that pat[v := bind[v]] is t"""
    if v not in pat.fv:
        return pat is t
    if pat is v:
        if v in bind:
            return bind[v] is t
        bind[v] = t
        return True
    if pat.op != t.op or pat.op in BINDERS:
        return False
    if pat.op == "poly":
        a, b = pat.args[0], t.args[0]
        if len(a) != len(b):
            # affine index: pat = k*v + rest
            return False
        for (c1, m1), (c2, m2) in zip(a, b):
            if c1 != c2 or len(m1) != len(m2):
                return False
            for (x, e1), (y, e2) in zip(m1, m2):
                if e1 != e2 or not match(x, v, y, bind):
                    return False
        return True
    if len(pat.args) != len(t.args):
        return False
    for x, y in zip(pat.args, t.args):
        if type(x) is T:
            if type(y) is not T or not match(x, v, y, bind):
                return False
        elif isinstance(x, tuple):
            if not isinstance(y, tuple) or len(x) != len(y):
                return False
            for q, r in zip(x, y):
                if type(q) is T:
                    if type(r) is not T or not match(q, v, r, bind):
                        return False
                elif q != r:
                    return False
        elif x != y:
            return False
    return True


def inrange(w, n):
    """0 <= w < n, syntactically"""
    if w.op == "bv" and w.args[1] is n:
        return True
    if w.op in ("nth", "argsort", "argmax", "argmin"):
        m = w.args[0]
        return m is n
    if w.op == "app" and w.args[0] == "perm":
        return w.args[2] is n
    if w.op == "sym" and w.args[1] == "index":
        return BOUNDS.get(w) is n
    if w.op == "num":
        return nval(w) >= 0 and lt0(sub(w, n)) is TRUE
    return lt0(sub(w, n)) is TRUE and le0(neg(w)) is TRUE


def _extremum(p):
    """(lower, upper) numeric bounds of c*(rmin b - b[w]) + q and the like"""
    ts = _terms(p)
    if not 2 <= len(ts) <= 4:
        return None
    for c, m in ts:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("rmin", "rmax"):
            a = m[0][0]
            n, cv, cond, b = a.args[:4]
            if cond is not TRUE:
                continue
            cb, mb = (Fraction(1), None)
            tb = _terms(b)
            if len(tb) != 1:
                continue
            for c2, m2 in ts:
                if m2 is m or len(m2) != len(tb[0][1]):
                    continue
                if c2 != -c * tb[0][0]:
                    continue
                bind = {}
                if all(e1 == e2 and match(x, cv, y, bind) for (x, e1), (y, e2) in zip(tb[0][1], m2)) and cv in bind and inrange(bind[cv], n):
                    q = _poly({mm: cc for cc, mm in ts if mm is not m and mm is not m2})
                    if q.op != "num":
                        return None
                    # rmin - b(w) <= 0 ; rmax - b(w) >= 0
                    neg_ = (a.op == "rmin") == (c > 0)
                    return (None, nval(q)) if neg_ else (nval(q), None)
            # rmin(b) - rmax(b) <= 0
            for c2, m2 in ts:
                if m2 is not m and len(m2) == 1 and m2[0][1] == 1 and m2[0][0].op in ("rmin", "rmax") and m2[0][0].op != a.op \
                        and c2 == -c and m2[0][0].args[0] is n and m2[0][0].args[3] is b and m2[0][0].args[2] is TRUE and lt0(neg(n)) is TRUE:
                    q = _poly({mm: cc for cc, mm in ts if mm is not m and mm is not m2})
                    if q.op != "num":
                        return None
                    neg_ = (a.op == "rmin") == (c > 0)
                    return (None, nval(q)) if neg_ else (nval(q), None)
    return None


def _const_lo(p):
    """lower bound when every non-constant monomial has positive coeff and atoms >= 1 (sizes) or >= 0."""
    tot = Fraction(0)
    for c, m in _terms(p):
        if not m:
            tot += c
            continue
        if c < 0:
            return None
        mn = Fraction(1)
        for a, e in m:
            if e < 0:
                return None
            if a.op == "sym" and a.args[1] in ("size",):
                mn *= SIZE_MIN.get(a, 1) ** int(e)
            elif _nonneg_atom(a):
                mn = Fraction(0)
            else:
                return None
        tot += c * mn
    return tot


SIZE_MIN = {}


def lt(a, b):
    a, b = num(a), num(b)
    if a is INF or b is NAN or a is NAN:
        return FALSE
    if b is INF:
        return TRUE if a is not INF else FALSE
    return lt0(sub(a, b))


def le(a, b):
    a, b = num(a), num(b)
    if a is NAN or b is NAN:
        return FALSE
    if b is INF:
        return TRUE
    if a is INF:
        return FALSE
    return le0(sub(a, b))


def eq(a, b):
    a, b = num(a) if not type(a) is T else a, num(b) if not type(b) is T else b
    if a is b:
        return TRUE if a is not NAN else FALSE
    if a.op == "str" or b.op == "str":
        return streq(a, b)
    if is_bool(a) or is_bool(b):
        if a.op == "bool":
            a, b = b, a
        if b is TRUE:
            return a
        if b is FALSE:
            return not_(a)
        if b.op == "num" and not is_bool(b):
            return a if nval(b) == 1 else not_(a) if nval(b) == 0 else FALSE
        if a.op == "num" and not is_bool(a):
            return b if nval(a) == 1 else not_(b) if nval(a) == 0 else FALSE
        return mk("eq", *sorted([a, b], key=lambda x: x.id))
    if a is NAN or b is NAN:
        return FALSE
    if (a is INF) != (b is INF) and not (a.unk or b.unk):
        o = b if a is INF else a
        if o.op in ("num", "poly", "sum", "app"):
            return FALSE
    return eq0(sub(a, b))


def streq(a, b):
    if a is b:
        return TRUE
    if a.op == "ite":
        return ite(a.args[0], streq(a.args[1], b), streq(a.args[2], b))
    if b.op == "ite":
        return ite(b.args[0], streq(a, b.args[1]), streq(a, b.args[2]))
    if a.op == "str" and b.op == "str":
        pa, pb = a.args[0], b.args[0]
        ca = all(not isinstance(x, T) for x in pa)
        cb = all(not isinstance(x, T) for x in pb)
        if ca and cb:
            return TRUE if "".join(pa) == "".join(pb) else FALSE
        # common skeleton that differs in one symbolic integer
        if len(pa) == len(pb) and all((isinstance(x, T)) == (isinstance(y, T)) for x, y in zip(pa, pb)) and \
                all(x == y for x, y in zip(pa, pb) if not isinstance(x, T)):
            conds = []
            for x, y in zip(pa, pb):
                if isinstance(x, T):
                    if x.op == "tostr" and y.op == "tostr":
                        conds.append(eq(x.args[0], y.args[0]))
                    else:
                        conds.append(TRUE if x is y else mk("eq", *sorted([x, y], key=lambda z: z.id)))
            return and_(*conds)
        if len(pa) == len(pb) == 2 and pa[0] == pb[0] and isinstance(pa[0], str) and isinstance(pa[1], T) != isinstance(pb[1], T):
            s, k = (pa[1], pb[1]) if isinstance(pa[1], T) else (pb[1], pa[1])
            if s.op == "tostr" and k.lstrip("-").isdigit():
                return eq(s.args[0], num(int(k)))
        # different shapes: distinct names never collide (documented assumption)
        return FALSE
    return mk("eq", *sorted([a, b], key=lambda x: x.id))


def ite(c, a, b):
    if not type(a) is T:
        a = num(a)
    if not type(b) is T:
        b = num(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a.op == "ite" and a.args[0] is not_(c):
        a = a.args[2]
    if b.op == "ite" and b.args[0] is not_(c):
        b = b.args[1]
    if a is b:
        return a
    if c.op == "eq0" and a.fv:
        # where v == k holds, v is k
        vs = [x for x in c.args[0].fv if x in a.fv]
        if len(c.args[0].fv) == 1 and vs:
            k = solve(c.args[0], vs[0])
            if k is not None:
                a = subst(a, {vs[0]: k})
                if a is b:
                    return a
    if a.op == "bool" and b.op == "bool":
        return c if a is TRUE else not_(c)
    if is_bool(a) and is_bool(b):
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    # ite(c, x, ite(d, x, y)) -> ite(c or d, x, y)
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a:
        return ite(and_(not_(c), b.args[0]), b.args[1], a)
    if a.op == "ite" and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if a.op == "ite" and a.args[1] is b:
        return ite(and_(c, not_(a.args[0])), a.args[2], b)
    # canonical polarity: le0 preferred with smaller id
    n = not_(c)
    if n.id < c.id and c.op in ("le0", "lt0", "and", "or"):
        return mk("ite", n, b, a)
    return mk("ite", c, a, b)


# ------------------------------------------------------------------ binders
def _bind(op, n, f, *rest, cond=None):
    """f: fresh index -> body ; cond: fresh index -> boolean term"""
    v = fresh(n)
    b = f(v)
    c = cond(v) if cond is not None else TRUE
    return close(op, n, v, c, b, *rest)


def close(op, n, v, c, b, *rest):
    h = max(b.h, c.h) + 1
    cv = mk("bv", ("c", h), n)
    if v is not cv:
        b = subst(b, {v: cv})
        c = subst(c, {v: cv})
        # simplification may have changed the height
        h2 = max(b.h, c.h) + 1
        if h2 != h:
            w = fresh(n)
            b = subst(b, {cv: w})
            c = subst(c, {cv: w})
            return close(op, n, w, c, b, *rest)
    return mk(op, n, cv, c, b, *rest)


def _denth(n, v, c, b):
    """iteration over a filtered index set: nth(mask, v) for v < count(mask)  ->  w with mask(w)"""
    while n.op == "sum" and n.args[3] is ONE:
        n2, cv, c2, _ = n.args
        target = mk("nth", n2, cv, c2, ONE, v)
        w = fresh(n2)
        b2 = replace(b, target, w)
        cc = replace(c, target, w)
        if v in b2.fv or v in cc.fv:
            break
        n, c, b, v = n2, and_(subst(c2, {cv: w}), cc), b2, w
    # bijective re-indexing: every use of v is perm(v) with perm = argsort
    tgt = None
    return n, v, c, b


def sum_(n, f, cond=None):
    n = num(n)
    v = fresh(n)
    b = num(f(v))
    c = cond(v) if cond is not None else TRUE
    return sum_v(n, v, c, b)


def sum_v(n, v, c, b):
    if c is FALSE or b is ZERO or n is ZERO:
        return ZERO
    if n.op == "num" and nval(n).denominator == 1 and nval(n) <= 6:
        out = []
        for k in range(max(0, int(nval(n)))):
            kk = num(k)
            out.append(ite(subst(c, {v: kk}), subst(b, {v: kk}), ZERO))
        return add(*out) if out else ZERO
    if b.op == "ite" and b.args[2] is ZERO:
        return sum_v(n, v, and_(c, b.args[0]), b.args[1])
    if b.op == "ite" and b.args[1] is ZERO:
        return sum_v(n, v, and_(c, not_(b.args[0])), b.args[2])
    if is_bool(b):
        return sum_v(n, v, and_(c, b), ONE)
    n0 = n
    n, v, c, b = _denth(n, v, c, b)
    if n is not n0:
        return sum_v(n, v, c, b)
    # pull the part of the condition that does not depend on v
    if c.op == "and":
        outer = [x for x in c.args if v not in x.fv]
        if outer:
            inner = [x for x in c.args if v in x.fv]
            return ite(and_(*outer), sum_v(n, v, and_(*inner), b), ZERO)
    elif c is not TRUE and v not in c.fv:
        return ite(c, sum_v(n, v, TRUE, b), ZERO)
    # point condition  v == k
    for x in (c.args if c.op == "and" else (c,)):
        if x.op == "eq0" and v in x.fv:
            k = solve(x.args[0], v)
            if k is not None and is_int(k):
                rest = and_(*[y for y in (c.args if c.op == "and" else (c,)) if y is not x])
                inr = and_(le(0, k), lt(k, n))
                return ite(and_(inr, subst(rest, {v: k})), subst(b, {v: k}), ZERO)
    # prefix condition v <= k : shorten the range
    for x in (c.args if c.op == "and" else (c,)):
        if x.op == "le0" and v in x.fv:
            p = x.args[0]
            cf = [(cc, m) for cc, m in _terms(p) if any(a is v for a, e in m)]
            if len(cf) == 1 and cf[0][1] == ((v, 1),) and cf[0][0] == 1:
                k = neg(sub(p, v))  # v <= k
                if v not in k.fv and is_int(k):
                    m = add(k, 1)
                    # m in [0, n]?
                    if le(m, n) is TRUE and le(0, m) is TRUE:
                        w = fresh(m)
                        rest = and_(*[y for y in (c.args if c.op == "and" else (c,)) if y is not x])
                        return sum_v(m, w, subst(rest, {v: w}), subst(b, {v: w}))
    tot = []
    for coef, m in _terms(b):
        out = tuple((a, e) for a, e in m if v not in a.fv)
        inn = tuple((a, e) for a, e in m if v in a.fv)
        o = _poly({out: coef})
        if c is TRUE and not inn:
            s = n
        elif c is TRUE and inn == ((v, 1),):
            s = mul(n, sub(n, 1), Fraction(1, 2))
        elif c is TRUE and inn == ((v, 2),):
            s = mul(n, sub(n, 1), sub(scale(n, 2), 1), Fraction(1, 6))
        else:
            s = close("sum", n, v, c, _poly({inn: Fraction(1)}))
        tot.append(mul(o, s))
    return add(*tot)


def solve(p, v):
    """v such that p == 0, when p is linear in v with a numeric coefficient"""
    cf, rest = None, {}
    for c, m in _terms(p):
        if any(v in a.fv for a, e in m):
            if m == ((v, 1),):
                cf = c
            else:
                return None
        else:
            rest[m] = c
    if cf is None:
        return None
    return scale(_poly(rest), -1 / cf)


def red(op, n, f, cond=None):
    n = num(n)
    v = fresh(n)
    b = num(f(v))
    c = cond(v) if cond is not None else TRUE
    return red_v(op, n, v, c, b)


def red_v(op, n, v, c, b):
    if op in ("any",):
        c2 = and_(c, b)
        if c2 is FALSE:
            return FALSE
        if v not in c2.fv:
            return and_(c2, lt(0, n))
        n, v, c2, _ = _denth(n, v, c2, TRUE)
        if v not in c2.fv:
            return and_(c2, lt(0, n))
        n1 = sub(n, 1)
        if n1.op != "num" and n.op == "poly" and le(0, n1) is TRUE and _mentions_eq(c2, sub(v, n1)):
            # the last index is treated specially by the condition: peel it
            w = fresh(n1)
            return or_(subst(c2, {v: n1}), red_v("any", n1, w, TRUE, subst(c2, {v: w})))
        return close("any", n, v, c2, TRUE)
    if op in ("rmin", "rmax"):
        n2, v2, c2, b2 = _denth(n, v, c, b)
        if n2 is not n:
            return red_v(op, n2, v2, c2, b2)
        if v not in b.fv:
            return b
        if n.op == "num" and nval(n) == 1:
            return subst(b, {v: ZERO})
        if b is v and c is TRUE:
            return ZERO if op == "rmin" else sub(n, 1)
        # affine body: extremes at the ends
        if c is TRUE:
            ts = _terms(b)
            cf = [(cc, m) for cc, m in ts if any(v in a.fv for a, e in m)]
            if len(cf) == 1 and cf[0][1] == ((v, 1),):
                first = (cf[0][0] > 0) == (op == "rmin")
                return subst(b, {v: ZERO if first else sub(n, 1)})
    return close(op, n, v, c, b)


def _mentions_eq(c, p):
    e = eq0(p)
    if e.op != "eq0":
        return False
    st, seen = [c], set()
    while st:
        x = st.pop()
        if x is e:
            return True
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return False


def lam(n, f):
    n = num(n)
    v = fresh(n)
    return close("lam", n, v, TRUE, f(v))


def nth(n, mask, i):
    """index of the i-th element of {v < n : mask(v)}"""
    n = num(n)
    v = fresh(n)
    c = mask(v)
    return nth_v(n, v, c, i)


def nth_v(n, v, c, i):
    if c is TRUE:
        return num(i)
    i = num(i)
    if n.op == "num" and nval(n) <= 6 and i.op == "num":
        m = int(nval(n))
        cs = [subst(c, {v: num(j)}) for j in range(m)]

        def at(s, k):
            if s == m - 1:
                return num(s)
            return ite(cs[s], num(s) if k == 0 else at(s + 1, k - 1), at(s + 1, k))
        if 0 <= nval(i) < m:
            return at(0, int(nval(i)))
    if n.op == "num" and 0 < nval(n) <= 4 and i.op != "num":
        # few elements: by cases on the position asked for
        m = int(nval(n))
        r = nth_v(n, v, c, num(m - 1))
        for k in range(m - 2, -1, -1):
            r = ite(eq(i, num(k)), nth_v(n, v, c, num(k)), r)
        return r
    if i.op == "nth" and i.args[0].op == "sum":
        # filter of a filter: nth[D](nth[k < |D| : e(nth[D](k))](j)) = nth[D and e](j)
        n2, v2, c2, _, j = i.args
        t = close("nth", n, v, c, ONE, v2)
        if n2.args[3] is ONE and t.op == "nth" and n2.args[0] is t.args[0] and n2.args[1] is t.args[1] and n2.args[2] is t.args[2]:
            w = fresh(n)
            cc = replace(c2, t, w)
            if v2 not in cc.fv:
                return nth_v(n, w, and_(subst(c, {v: w}), cc), j)
    return close("nth", n, v, c, ONE, i)


def app(name, *args):
    return mk("app", name, *[num(a) if not type(a) is T else a for a in args])


# ------------------------------------------------------------------ substitution
_SMEMO = {}
_OPEN = {}


def subst(t, m):
    if len(m) == 1:
        (v, x), = m.items()
        if v not in t.fv:
            return t
        if len(_SMEMO) > 40000:
            _SMEMO.clear()
        memo = _SMEMO.setdefault((v, x), {})
        ms = frozenset((v,))
    else:
        ms = frozenset(m)
        memo = {}

    def go(t):
        if not (t.fv & ms):
            return t
        r = memo.get(t)
        if r is None:
            r = m[t] if t in m else rebuild(t, go, val)
            memo[t] = r
        return r

    val = EMPTY
    for x in m.values():
        if type(x) is T:
            val = val | x.fv
    return go(t)


def replace(t, old, new):
    memo = {}
    osz = old.size
    val = new.fv | old.fv

    def go(t):
        if t is old:
            return new
        if t.size < osz or t.op in ("num", "bool", "bv", "sym"):
            return t
        r = memo.get(t)
        if r is None:
            r = rebuild(t, go, val)
            memo[t] = r
        return r

    return go(t)


def opened(t, avoid=EMPTY):
    """the body of a binder with its bound variable replaced by a variable that is not in `avoid`"""
    r = _OPEN.get(t)
    if r is None or r[0] in avoid:
        n, cv, c, b = t.args[:4]
        w = fresh(n)
        r0 = (w, subst(c, {cv: w}), subst(b, {cv: w}))
        if r is None:
            _OPEN[t] = r0
        return r0
    return r


def rebuild(t, go, avoid=EMPTY):
    op, a = t.op, t.args
    if op in ("num", "bool", "sym", "inf", "nan", "unknown", "div0", "bv"):
        return t
    if op == "poly":
        ch = False
        parts = []
        for c, m in a[0]:
            fs = []
            for x, e in m:
                y = go(x)
                ch = ch or y is not x
                fs.append((y, e))
            parts.append((c, fs))
        if not ch:
            return t
        out = []
        for c, fs in parts:
            r = num(c)
            for y, e in fs:
                r = mul(r, pow_(y, e))
            out.append(r)
        return add(*out)
    if op in BINDERS:
        n = a[0]
        n2 = go(n)
        rest = [go(x) for x in a[4:]]
        w, c1, b1 = opened(t, avoid)
        if n2 is not n:
            # the range of the bound variable changes with its size
            w2 = fresh(n2)
            c1, b1, w = subst(c1, {w: w2}), subst(b1, {w: w2}), w2
        c2, b2 = go(c1), go(b1)
        if n2 is n and c2 is c1 and b2 is b1:
            return mk(op, *a[:4], *rest)
        if op == "sum":
            return sum_v(n2, w, c2, b2)
        if op in ("rmin", "rmax", "any"):
            return red_v(op, n2, w, c2, b2)
        if op == "nth":
            return nth_v(n2, w, c2, rest[0])
        return close(op, n2, w, c2, b2, *rest)
    new = []
    ch = False
    for x in a:
        if type(x) is T:
            y = go(x)
        elif isinstance(x, tuple):
            y = tuple(go(z) if type(z) is T else z for z in x)
        else:
            y = x
        ch = ch or (y is not x and y != x)
        new.append(y)
    if not ch:
        return t
    return construct(op, new)


def construct(op, a):
    if op == "lt0":
        return lt0(a[0])
    if op == "le0":
        return le0(a[0])
    if op == "eq0":
        return eq0(a[0])
    if op == "not":
        return not_(a[0])
    if op == "and":
        return and_(*a)
    if op == "or":
        return or_(*a)
    if op == "eq":
        return eq(*a)
    if op == "ite":
        return ite(*a)
    if op == "fdiv":
        return floordiv(*a)
    if op == "mod":
        return mod(*a)
    if op == "str":
        return strcat(*a[0])
    if op == "tostr":
        return tostr(a[0])
    if op == "bigmul":
        return mul(*a)
    if op == "pbase":
        return a[0]
    if op == "max" or op == "min":
        return minmax(op, *a)
    if op == "abs":
        return abs_(a[0])
    if op == "isnan":
        return isnan(a[0])
    if op == "floor":
        return a[0] if is_int(a[0]) else mk("floor", a[0])
    return mk(op, *a)


# ------------------------------------------------------------------ misc scalar ops
def minmax(op, *a):
    out = []
    for x in a:
        x = num(x)
        if x.op == op:
            out.extend(x.args)
        else:
            out.append(x)
    out = sorted(set(out), key=lambda x: x.id)
    consts = [nval(x) for x in out if x.op == "num"]
    if len(consts) > 1:
        k = (max if op == "max" else min)(consts)
        out = [x for x in out if x.op != "num"] + [num(k)]
        out.sort(key=lambda x: x.id)
    changed = True
    while changed and len(out) > 1:
        changed = False
        for x in out:
            for y in out:
                if x is not y:
                    d = le(x, y)
                    if d is TRUE:
                        out.remove(x if op == "max" else y)
                        changed = True
                        break
            if changed:
                break
    return out[0] if len(out) == 1 else mk(op, *out)


def abs_(a):
    a = num(a)
    if a.op == "num":
        return num(abs(nval(a)))
    if nonneg(a):
        return a
    b = neg(a)
    if nonneg(b):
        return b
    return mk("abs", a if a.id < b.id else b)


def isnan(a):
    a = num(a)
    if a is NAN:
        return TRUE
    if a.op == "ite":
        return ite(a.args[0], isnan(a.args[1]), isnan(a.args[2]))
    if a.op in ("num", "bool", "bv", "sym", "inf", "sum", "app", "nth", "argsort", "abs", "lt0", "le0", "eq0"):
        if a.op in ("num", "bool", "bv", "sym", "inf", "nth", "argsort"):
            return FALSE
        if a.op == "app" and a.args[0] in NANFREE:
            return FALSE
        if a.op == "sum":
            return FALSE if isnan(a.args[3]) is FALSE else mk("isnan", a)
        if a.op == "abs":
            return isnan(a.args[0])
    if a.op == "poly":
        return or_(*[isnan(x) for x in set(children(a)) if True])
    if a.op == "pbase":
        return isnan(a.args[0])
    return mk("isnan", a)


NANFREE = {"M", "J", "data"}


def strcat(*parts):
    out = []
    for p in parts:
        if isinstance(p, T):
            if p.op == "str":
                for q in p.args[0]:
                    _sp(out, q)
                continue
            _sp(out, p)
        else:
            _sp(out, p)
    return mk("str", tuple(out))


def _sp(out, q):
    if isinstance(q, str):
        if q == "":
            return
        if out and isinstance(out[-1], str):
            out[-1] = out[-1] + q
            return
    out.append(q)


def strlit(s):
    return strcat(s)


def tostr(t):
    if t.op == "str":
        return t
    if t.op == "num":
        v = nval(t)
        if v.denominator == 1:
            return strlit(str(int(v)))
    if t.op == "ite":
        return mk("tostr", t)
    return mk("tostr", t)


# ------------------------------------------------------------------ printing
def show(t, depth=6):
    if depth <= 0:
        return "..."
    d = depth - 1
    op, a = t.op, t.args
    if op == "num":
        v = a[0]
        if v.denominator == 1:
            return str(v)
        f = float(v)
        return repr(f) if Fraction(repr(f)) == v else str(v)
    if op == "bool":
        return str(a[0])
    if op == "sym":
        return a[0]
    if op == "bv":
        return "%s%s" % ("i" if a[0][0] == "c" else "k", a[0][1])
    if op in ("inf", "nan", "div0"):
        return op
    if op == "unknown":
        return "?(%s)" % a[0]
    if op == "poly":
        parts = []
        for c, m in a[0]:
            s = "*".join(show(x, d) + ("" if e == 1 else "^%s" % e) for x, e in m)
            if not m:
                s = show(num(c), d)
            elif c != 1:
                s = ("-" if c == -1 else show(num(c), d) + "*") + s
            parts.append(s)
        return "(" + " + ".join(parts) + ")"
    if op == "lt0":
        return show(a[0], d) + "<0"
    if op == "le0":
        return show(a[0], d) + "<=0"
    if op == "eq0":
        return show(a[0], d) + "==0"
    if op in ("and", "or"):
        return "(" + (" %s " % op).join(show(x, d) for x in a) + ")"
    if op == "ite":
        return "ite(%s, %s, %s)" % tuple(show(x, d) for x in a)
    if op in BINDERS:
        n, cv, c, b = a[:4]
        s = "%s[%s<%s%s](%s)" % (op, show(cv), show(n, d), "" if c is TRUE else " | " + show(c, d), show(b, d))
        return s + "".join("@" + show(x, d) for x in a[4:])
    if op == "app":
        return "%s(%s)" % (a[0], ", ".join(show(x, d) for x in a[1:]))
    if op == "str":
        return "'" + "".join(x if isinstance(x, str) else "{%s}" % show(x, d) for x in a[0]) + "'"
    return "%s(%s)" % (op, ", ".join(show(x, d) if isinstance(x, T) else str(x) for x in a))
