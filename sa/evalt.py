"""Valuations of value-graph terms.

Used only as a filter behind the congruence test: two terms that are not congruent are reported only when
they are also separated by a random valuation of the program's inputs (random interpretation of the value
graph, Gulwani & Necula 2003).  Inputs are rationals so that ties and boundaries are exact; uninterpreted
functions (model, jacobian, ...) get random smooth interpretations."""
import math
import random
import zlib
from fractions import Fraction
from . import terms as tm
from .terms import T

NAN, INF = float("nan"), float("inf")


class Fail(Exception):
    pass


class Valuation:
    def __init__(self, seed, coarse=False, sizes=None, hints=None, scales=None, near=None, shrink=None, coarser=False):
        self.scales, self.near, self.shrink, self.coarser = scales, near, shrink, coarser
        self.seed, self.coarse = seed, coarse
        self.hints = hints or {}
        self.rng = random.Random(seed)
        self.syms = {}
        self.apps = {}
        self.fw = {}
        self.memo = {}
        self.sizes = sizes or {}
        self.steps = 0
        self.maxsteps = 400000

    # ---------------------------------------------------------------- inputs
    def rnd(self, *key):
        return random.Random("%s|%s" % (self.seed, key))

    def sym(self, t):
        v = self.syms.get(t)
        if v is None:
            name, kind = t.args[0], t.args[1]
            r = self.rnd("sym", name)
            h = self.hints.get(t)
            if h and kind in ("size", "int", "index") and r.random() < 0.8:
                v = r.choice(h)
                lo = tm.SIZE_MIN.get(t, 1) if kind == "size" else 0
                ok = v >= lo if not isinstance(lo, T) else v >= 1
                if ok and t in tm.BOUNDS:
                    ok = v < int(self.ev(tm.BOUNDS[t], {}))
                if ok:
                    self.syms[t] = v
                    return v
            if kind == "size":
                lo = tm.SIZE_MIN.get(t, 1)
                lo = int(lo) if not isinstance(lo, T) else 1
                hi = self.sizes.get(name, lo + 4)
                v = r.randint(lo, max(lo, hi))
            elif kind in ("int", "index"):
                v = r.randint(0, 4)
                if t in tm.BOUNDS:
                    n = int(self.ev(tm.BOUNDS[t], {}))
                    v = r.randrange(max(1, n))
            elif kind == "bool":
                v = r.random() < 0.5
            elif self.coarse == "tied":
                v = r.choice(TIED[kind] if kind in TIED else TIED["real"])
            elif kind == "pos":
                v = Fraction(r.randint(1, 12), 4) if self.coarse else Fraction(r.randint(1, 4000), 1009)
            elif kind == "nonneg":
                v = Fraction(r.randint(0, 12), 4) if self.coarse else Fraction(r.randint(0, 4000), 1009)
            else:
                v = Fraction(r.randint(-6, 6), 2) if self.coarse else Fraction(r.randint(-4000, 4000), 1009)
            if self.near and kind in ("pos", "nonneg", "real"):
                v = v * (1 + r.choice((-1, 0, 1)) * self.near / 4)
            if self.scales and kind in ("pos", "nonneg", "real"):
                v = self.scaled(v, name)
            self.syms[t] = v
        return v

    def scaled(self, v, *key):
        """the input on one of the scales at which the code compares or rounds"""
        if self.scales:
            r = self.rnd("scale", *key)
            if r.random() < 0.75:
                return v * r.choice(self.scales) * r.choice((Fraction(1, 8), Fraction(1, 2), 1))
        return v

    def small(self, c):
        """a large constant that sizes are compared with, consistently replaced by a small one"""
        if not isinstance(c, (int, Fraction)):
            return c
        a = abs(c)
        r = self.shrink.get(a)
        if r is None and a and a < 1:
            r = self.shrink.get(1 / a)
            r = None if r is None else Fraction(1) / r
        return c if r is None else r if c > 0 else -r

    # ---------------------------------------------------------------- evaluation
    def ev(self, t, env):
        op = t.op
        if op == "num":
            v = t.args[0]
            return self.small(v) if self.shrink else v
        if op == "bv":
            if t not in env:
                raise Fail("free bound variable")
            return env[t]
        if op == "sym":
            if t in env:
                return env[t]
            return self.sym(t)
        if op == "bool":
            return t.args[0]
        if op == "inf":
            return INF
        if op == "nan" or op == "div0":
            return NAN
        fv = t.fv
        if fv:
            key = (t, tuple(sorted(((v.id, env[v]) for v in fv if v in env), key=lambda x: x[0])))
        else:
            key = t
        r = self.memo.get(key)
        if r is None:
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Fail("evaluation budget")
            r = getattr(self, "o_" + op)(t, env)
            self.memo[key] = r
        return r

    def o_unknown(self, t, env):
        raise Fail("unknown: " + str(t.args[0]))

    def o_poly(self, t, env):
        tot = Fraction(0)
        for c, m in t.args[0]:
            p = self.small(c) if self.shrink else c
            for a, e in m:
                v = self.ev(a, env)
                if v is True or v is False:
                    v = int(v)
                p = fmul(p, fpow(v, e))
            tot = fadd(tot, p)
        return tot

    def o_pbase(self, t, env):
        return self.ev(t.args[0], env)

    def o_bigmul(self, t, env):
        return fmul(self.ev(t.args[0], env), self.ev(t.args[1], env))

    def sign(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, float) and 0 < abs(v) < 1e-9:
            raise Fail("sign of a rounding error")
        return v

    def o_lt0(self, t, env):
        return self.sign(t.args[0], env) < 0

    def o_le0(self, t, env):
        return self.sign(t.args[0], env) <= 0

    def o_eq0(self, t, env):
        return self.sign(t.args[0], env) == 0

    def o_eq(self, t, env):
        return self.ev(t.args[0], env) == self.ev(t.args[1], env)

    def o_not(self, t, env):
        return not self.ev(t.args[0], env)

    def o_and(self, t, env):
        return all(self.ev(x, env) for x in t.args)

    def o_or(self, t, env):
        return any(self.ev(x, env) for x in t.args)

    def o_ite(self, t, env):
        return self.ev(t.args[1] if self.ev(t.args[0], env) else t.args[2], env)

    def o_isnan(self, t, env):
        v = self.ev(t.args[0], env)
        return v != v

    def o_abs(self, t, env):
        return abs(self.ev(t.args[0], env))

    def o_max(self, t, env):
        return nmax([self.ev(x, env) for x in t.args])

    def o_min(self, t, env):
        return nmin([self.ev(x, env) for x in t.args])

    def o_floor(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, float) and not math.isfinite(v):
            return v
        k = fineness(t.args[0]) if self.coarser else None
        return Fraction(math.floor(v)) if k is None else math.floor(Fraction(v) / k * 4) * k / 4

    def o_fdiv(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if b == 0:
            return NAN
        return a // b

    def o_mod(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if b == 0:
            return NAN
        return a % b

    def o_str(self, t, env):
        return "".join(x if isinstance(x, str) else str(self.ev(x, env)) for x in t.args[0])

    def o_tostr(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, Fraction) and v.denominator == 1:
            v = int(v)
        return str(v)

    # ---- binders
    def _n(self, t, env):
        n = self.ev(t.args[0], env)
        n = int(n)
        if n > 400:
            raise Fail("large range")
        return n

    def _vals(self, t, env):
        n, cv, c, b = t.args[0], t.args[1], t.args[2], t.args[3]
        out = []
        for k in range(self._n(t, env)):
            e = dict(env)
            e[cv] = k
            if self.ev(c, e):
                out.append((k, self.ev(b, e)))
        return out

    def o_sum(self, t, env):
        tot = Fraction(0)
        for _, v in self._vals(t, env):
            tot = fadd(tot, int(v) if isinstance(v, bool) else v)
        return tot

    def o_prod(self, t, env):
        tot = Fraction(1)
        for _, v in self._vals(t, env):
            tot = fmul(tot, v)
        return tot

    def o_rmin(self, t, env):
        vs = [v for _, v in self._vals(t, env)]
        if not vs:
            raise Fail("empty reduction")
        return nmin(vs)

    def o_rmax(self, t, env):
        vs = [v for _, v in self._vals(t, env)]
        if not vs:
            raise Fail("empty reduction")
        return nmax(vs)

    def o_any(self, t, env):
        n, cv, c, b = t.args[:4]
        for k in range(self._n(t, env)):
            e = dict(env)
            e[cv] = k
            if self.ev(c, e):
                return True
        return False

    def o_argmin(self, t, env, s=1):
        vs = self._vals(t, env)
        if not vs:
            raise Fail("empty reduction")
        best = None
        for k, v in vs:
            if v != v:
                return k
            if best is None or (v < best[1] if s > 0 else v > best[1]):
                best = (k, v)
        return best[0]

    def o_argmax(self, t, env):
        return self.o_argmin(t, env, -1)

    def o_nth(self, t, env):
        vs = self._vals(t, env)
        i = int(self.ev(t.args[4], env))
        if not 0 <= i < len(vs):
            raise Fail("index outside a filtered range")
        return vs[i][0]

    def o_argsort(self, t, env):
        vs = self._vals(t, env)
        i = int(self.ev(t.args[4], env))
        o = sorted(range(len(vs)), key=lambda k: nankey(vs[k][1]))
        if not 0 <= i < len(o):
            raise Fail("index outside range")
        return o[i]

    def o_sorted(self, t, env):
        vs = sorted((v for _, v in self._vals(t, env)), key=nankey)
        i = int(self.ev(t.args[4], env))
        if not 0 <= i < len(vs):
            raise Fail("index outside range")
        return vs[i]

    def o_uniq(self, t, env):
        vs = sorted(set(v for _, v in self._vals(t, env)), key=nankey)
        i = int(self.ev(t.args[4], env))
        if not 0 <= i < len(vs):
            raise Fail("index outside range")
        return vs[i]

    def o_nuniq(self, t, env):
        return len(set(v for _, v in self._vals(t, env)))

    def o_lam(self, t, env):
        return tuple(v for _, v in self._vals(t, env))

    # ---- applications
    def o_app(self, t, env):
        name = t.args[0]
        if name in ("quad",):
            return self.quad(t, env)
        a = [self.ev(x, env) if type(x) is T else x for x in t.args[1:]]
        if self.coarser and name == "trunc":
            k = fineness(t.args[1])
            if k is not None and not (isinstance(a[0], float) and not math.isfinite(a[0])):
                return math.trunc(Fraction(a[0]) / k * 4) * k / 4
        h = getattr(self, "f_" + name, None)
        if h is not None:
            return h(*a)
        if name.startswith("opt:"):
            return tuple([name] + a)
        if name.startswith("fmt:"):
            return (name,) + tuple(a)
        if name in FINITE:
            return self.table(name, a)
        return self.smooth(name, a)

    def table(self, name, a):
        """input arrays: independent random entries"""
        key = (name,) + tuple(a)
        v = self.apps.get(key)
        if v is None:
            kind = FINITE[name]
            r = self.rnd("app", name, tuple(int(x) if isinstance(x, (int, Fraction)) and x == int(x) else x for x in a))
            if kind == "int":
                v = Fraction(r.randint(-2, 3))
            elif kind == "bool":
                v = r.random() < 0.5
            elif self.coarse == "tied" and kind != "size":
                v = r.choice(TIED[kind] if kind in TIED else TIED["real"])
            elif kind == "pos":
                v = Fraction(r.randint(1, 8), 4) if self.coarse else Fraction(r.randint(1, 4000), 1009)
            elif kind == "size":
                v = r.randint(0, 3)
            else:
                v = Fraction(r.randint(-4, 4), 2) if self.coarse else Fraction(r.randint(-4000, 4000), 1009)
            if self.near and kind not in ("int", "bool", "size"):
                v = v * (1 + r.choice((-1, 0, 1)) * self.near / 4)
            if self.scales and kind not in ("int", "bool", "size"):
                v = self.scaled(v, name, a[-1] if len(a) > 1 else None)
            self.apps[key] = v
        return v

    def smooth(self, name, a):
        flat = []
        flatten(a, flat)
        for v in flat:
            if isinstance(v, float) and v != v:
                return NAN
        r = self.fw.get((name, len(flat)))
        if r is None:
            g = self.rnd("fun", name, len(flat))
            k = 3
            r = [([g.uniform(-1.2, 1.2) for _ in flat], g.uniform(-3, 3), g.uniform(-2, 2)) for _ in range(k)]
            self.fw[(name, len(flat))] = r
        tot = 0.0
        for w, b, c in r:
            s = b
            for x, y in zip(w, flat):
                y = float(y) if not isinstance(y, (bool, str)) else (1.0 if y is True else 0.0 if y is False else float(zlib.crc32(str(y).encode()) % 97))
                s += x * y if math.isfinite(y) else x * 7.77
            tot += c * math.sin(s)
        if name in tm.BOOL_APPS:
            return tot > 0
        if name in tm.POSITIVE_APPS:
            tot = abs(tot) + (0.0 if not self.coarse else 0.0)
        if self.coarse == "tied" and name in COARSE:
            return Fraction(round(tot))
        if self.coarse and name in COARSE:
            return Fraction(round(tot * 2), 2)
        return Fraction(round(tot * (1 << 30)), 1 << 30)

    def f_perm(self, tok, n, i):
        n, i = int(n), int(i)
        p = self.apps.get(("perm", tok, n))
        if p is None:
            p = list(range(n))
            self.rnd("perm", tok, n).shuffle(p)
            self.apps[("perm", tok, n)] = p
        if not 0 <= i < n:
            raise Fail("permutation index")
        return p[i]

    def f_choice(self, tok, n, i):
        return self.rnd("choice", tok, n, i).randrange(max(1, int(n)))

    def f_exp(self, a):
        return fl(math.exp, a)

    def f_log(self, a):
        return fl(math.log, a) if a > 0 else (NAN if a != 0 else -INF)

    def f_sin(self, a):
        return fl(math.sin, a)

    def f_cos(self, a):
        return fl(math.cos, a)

    def f_pow(self, a, b):
        try:
            r = float(a) ** float(b)
            return r if not isinstance(r, complex) else NAN
        except (OverflowError, ZeroDivisionError):
            return NAN

    def f_f32(self, a):
        """rounding to fewer digits (12 bits: any program that depends on it is separated from one that does not)"""
        if isinstance(a, (bool, str)) or isinstance(a, float) and not math.isfinite(a) or a == 0:
            return a
        m, e = math.frexp(float(a))
        return Fraction(round(m * 4096), 4096) * (Fraction(2) ** e)

    def f_trunc(self, a):
        return a if isinstance(a, float) and not math.isfinite(a) else Fraction(math.trunc(a))

    def f_round(self, a, d=0):
        if isinstance(a, float) and not math.isfinite(a):
            return a
        d = int(d)
        return Fraction(round(Fraction(a), 0 if self.coarser and 3 <= d <= 9 else d))

    def f_interp(self, t, xs, ys):
        if len(xs) != len(ys) or not xs:
            raise Fail("interp")
        if t <= xs[0]:
            return ys[0]
        if t >= xs[-1]:
            return ys[-1]
        for a, b, c, d in zip(xs, xs[1:], ys, ys[1:]):
            if a <= t <= b:
                if a == b:
                    return d
                return c + (d - c) * (t - a) / (b - a)
        raise Fail("interp")

    def f_median(self, xs):
        s = sorted(xs)
        n = len(s)
        if not n:
            return NAN
        return s[n // 2] if n % 2 else fadd(s[n // 2 - 1], s[n // 2]) / 2

    def f_quantile(self, xs, q):
        s = sorted(xs)
        if not s:
            return NAN
        p = Fraction(q) * (len(s) - 1)
        k = int(p)
        if k + 1 >= len(s):
            return s[-1]
        return s[k] + (s[k + 1] - s[k]) * (p - k)

    def f_percentile(self, xs, q):
        return self.f_quantile(xs, Fraction(q) / 100)

    def f_pair(self, a, b):
        return (a, b)

    def f_row(self, *a):
        return tuple(a)

    def f_uninit(self, *a):
        return Fraction(self.rnd("uninit", tuple(a)).randint(10 ** 6, 10 ** 7), 7)

    def quad(self, t, env):
        f, lo, hi = t.args[1:]
        v, y = f.args[1], f.args[2]
        a, b = self.ev(lo, env), self.ev(hi, env)
        n = 24
        tot = Fraction(0)
        for k in range(n):
            e = dict(env)
            e[v] = a + (b - a) * Fraction(2 * k + 1, 2 * n)
            self.memo = {kk: vv for kk, vv in self.memo.items() if not (isinstance(kk, T))} if False else self.memo
            tot = fadd(tot, Valuation_sub(self, v, e[v]).ev(y, e))
        return fmul(tot, (b - a) / n)


def Valuation_sub(val, v, x):
    """a copy sharing the inputs but with its own memo table (v is a plain symbol, not tracked in fv)"""
    w = Valuation.__new__(Valuation)
    w.__dict__.update(val.__dict__)
    w.memo = {}
    w.syms = dict(val.syms)
    w.syms[v] = x
    return w


H = Fraction(1, 2)
TIED = {"pos": (H, Fraction(1), Fraction(2)), "nonneg": (Fraction(0), H, Fraction(1)), "real": (Fraction(-1), Fraction(0), H, Fraction(1), Fraction(2))}
FINITE = {}     # input arrays: name -> kind
COARSE = set()


def flatten(a, out):
    for x in a:
        if isinstance(x, tuple):
            flatten(x, out)
        else:
            out.append(x)


def nankey(v):
    return (1, 0) if v != v else (0, v)


def nmax(vs):
    for v in vs:
        if v != v:
            return NAN
    return max(vs)


def nmin(vs):
    for v in vs:
        if v != v:
            return NAN
    return min(vs)


def fl(f, a):
    try:
        r = f(float(a))
    except (OverflowError, ValueError):
        return NAN
    return Fraction(round(r * (1 << 40)), 1 << 40) if math.isfinite(r) else r


def fadd(a, b):
    if isinstance(a, float) or isinstance(b, float):
        try:
            return float(a) + float(b)
        except OverflowError:
            return INF
    return a + b


def fmul(a, b):
    if isinstance(a, float) or isinstance(b, float):
        try:
            return float(a) * float(b)
        except OverflowError:
            return INF
    return a * b


def fpow(v, e):
    if e == 1:
        return v
    if isinstance(v, float):
        try:
            if v == 0 and e < 0:
                return INF
            r = v ** float(e)
            return r if not isinstance(r, complex) else NAN
        except (OverflowError, ZeroDivisionError):
            return NAN
    if e.denominator == 1:
        if v == 0 and e < 0:
            return INF
        return Fraction(v) ** int(e)
    if v < 0:
        return NAN
    if v == 0:
        return Fraction(0) if e > 0 else INF
    if e.denominator == 2:
        v = Fraction(v)
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return Fraction(n, d) ** int(e.numerator)
    return float(v) ** float(e)


def close(a, b, tol=1e-5):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if a != a or b != b:
        return (a != a) == (b != b)
    if a == b:
        return True
    try:
        fa, fb = float(a), float(b)
    except OverflowError:
        return False
    if not (math.isfinite(fa) and math.isfinite(fb)):
        return fa == fb
    return abs(fa - fb) <= tol * (1 + abs(fa) + abs(fb))


def hints(terms, least=6, most=2000, limit=20000):
    """sizes and integers compared with constants the ordinary valuations do not reach: {symbol: [values near the constant]}"""
    out, seen, st = {}, set(), [t for t in terms if isinstance(t, T)]
    while st and len(seen) < limit:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ("lt0", "le0", "eq0") and t.args[0].op == "poly":
            k, rest = Fraction(0), []
            for c, m in t.args[0].args[0]:
                if not m:
                    k += c
                else:
                    rest.append((c, m))
            ss = {}
            if len(rest) <= 3:
                for c, m in rest:
                    if len(m) == 1 and m[0][1] == 1:
                        a = m[0][0]
                        if a.op == "sym" and a.args[1] in ("size", "int", "index"):
                            ss.setdefault(a, (1, 2, 0))
                        elif a.op == "sum" and is_count(a):
                            for z in size_syms(a):
                                ss.setdefault(z, (3, 5, 2))
                if rest and ss:
                    v = abs(k / rest[0][0])
                    if least <= v <= most and v.denominator == 1:
                        w = int(v)
                        for z, ks in ss.items():
                            o = out.setdefault(z, [])
                            for f in ks:
                                x = w * f if f > 2 else w + f
                                if x not in o:
                                    o.append(x)
        st.extend(tm.children(t))
    return out


def thresholds(terms, least=500, most=2000, limit=20000):
    """large constants that sizes (or their products) are compared with, beyond the reach of valuations: {constant: small constant}"""
    out, seen, st = set(), set(), [t for t in terms if isinstance(t, T)]
    while st and len(seen) < limit:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ("lt0", "le0", "eq0") and t.args[0].op == "poly":
            k, rest = Fraction(0), []
            for c, m in t.args[0].args[0]:
                if not m:
                    k += c
                else:
                    rest.append((c, m))
            if rest and all(a.op in ("sym", "bv") and tm.is_int(a) or a.op == "sum" and is_count(a) for c, m in rest for a, e in m):
                v = abs(k / rest[0][0])
                if v >= least and v.denominator == 1 and (v > most or any(len(m) > 1 or m[0][1] > 1 for c, m in rest)):
                    out.add(int(v))
        st.extend(tm.children(t))
    r, last, j = {}, None, 0
    for c in sorted(out):
        if last is not None and c - last <= 2:
            r[c] = r[last] + (c - last)
        else:
            r[c] = 3 + 4 * j
            j += 1
        last = c
    for c in list(r):
        for d in (-1, 1):
            r.setdefault(c + d, r[c] + d)
    return r


def scales(terms, cap=10 ** 6, limit=20000):
    """magnitudes of real inputs at which the code compares (tolerances, caps) or rounds, beyond those of the ordinary valuations"""
    out, seen, st = set(), set(), [t for t in terms if isinstance(t, T)]
    while st and len(seen) < limit:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ("lt0", "le0", "eq0") and t.args[0].op == "poly":
            k, rest = Fraction(0), []
            for c, m in t.args[0].args[0]:
                if not m:
                    k += c
                else:
                    rest.append((c, m))
            if 0 < len(rest) <= 4 and all(len(m) == 1 and m[0][1] == 1 for c, m in rest) and any(is_real(m[0][0]) for c, m in rest):
                for z in [abs(k / rest[0][0])] + [abs(x) for c, m in rest for x in cases(m[0][0])]:
                    if Fraction(1, 10 ** 7) <= z <= Fraction(1, 400) or 6 <= z <= cap:
                        out.add(z)
        elif t.op == "app" and t.args[0] == "round" and len(t.args) > 2 and isinstance(t.args[2], T) and t.args[2].op == "num" and 3 <= t.args[2].args[0] <= 7:
            out.add(Fraction(1, 10 ** int(t.args[2].args[0])))
        st.extend(tm.children(t))
    return sorted(out)


def fineness(t):
    """k where t is the argument of a rounding down to a k-th (k large), or None"""
    if t.op == "poly":
        c = [abs(c) for c, m in t.args[0] if m]
        if c and 1000 <= min(c) <= 10 ** 9 and not is_count(t):
            return min(c)
    return None


def rounded(terms, limit=20000):
    """do the terms round a real number to three to nine digits (or to a k-th, k large)?"""
    seen, st = set(), [t for t in terms if isinstance(t, T)]
    while st and len(seen) < limit:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "app" and t.args[0] == "round" and len(t.args) > 2 and isinstance(t.args[2], T) and t.args[2].op == "num" and 3 <= t.args[2].args[0] <= 9:
            return True
        if t.op == "floor" and fineness(t.args[0]) is not None or t.op == "app" and t.args[0] == "trunc" and fineness(t.args[1]) is not None:
            return True
        st.extend(tm.children(t))
    return False


def relative(terms, limit=20000):
    """relative tolerances within comparisons: coefficients of one comparison that differ by orders of magnitude"""
    out, seen, st = set(), set(), [t for t in terms if isinstance(t, T)]
    while st and len(seen) < limit:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ("lt0", "le0", "eq0") and t.args[0].op == "poly":
            c = [abs(c) for c, m in t.args[0].args[0] if m]
            if len(c) > 1 and Fraction(1, 10 ** 12) <= min(c) / max(c) <= Fraction(1, 1000):
                out.add(min(c) / max(c))
        st.extend(tm.children(t))
    return sorted(out)


def tolerances(t, limit=20000):
    """tiny constants added to a real input within a comparison in t"""
    out, seen, st = set(), set(), [(t, False)]
    while st and len(seen) < limit:
        t, inside = st.pop()
        if (t, inside) in seen:
            continue
        seen.add((t, inside))
        if t.op in ("lt0", "le0", "eq0"):
            inside = True
        elif t.op == "app":
            inside = False
        elif t.op == "poly" and inside:
            k = [c for c, m in t.args[0] if not m]
            rest = [(c, m) for c, m in t.args[0] if m]
            if k and all(len(m) == 1 and m[0][1] == 1 for c, m in rest) and is_real(t):
                z = abs(k[0] / rest[0][0])
                if z <= Fraction(1, 10 ** 6):
                    out.add(z)
        st.extend((c, inside) for c in tm.children(t))
    return out


def cases(t, depth=4):
    """constants among the values of a distinction of cases"""
    if t.op == "ite" and depth:
        for x in t.args[1:]:
            if x.op == "num":
                yield x.args[0]
            else:
                yield from cases(x, depth - 1)


def is_real(t, depth=6):
    """a real input, or an expression over one"""
    if t.op == "sym":
        return t.args[1] in ("real", "pos", "nonneg")
    if t.op == "app" and t.args[0] in FINITE:
        return FINITE[t.args[0]] in ("real", "pos", "nonneg")
    return depth > 0 and any(is_real(c, depth - 1) for c in tm.children(t))


def is_count(t):
    """a sum whose summand is a constant"""
    return any(type(c) is T and c.op == "num" for c in t.args) or any(isinstance(x, T) and x.op in ("num", "bool") for x in tm.children(t))


def size_syms(t):
    seen, st, out = set(), [t], []
    while st and len(seen) < 2000:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "sym" and x.args[1] == "size":
            out.append(x)
        st.extend(tm.children(x))
        if x.op == "bv" and isinstance(x.args[1], T):
            st.append(x.args[1])
    return out
