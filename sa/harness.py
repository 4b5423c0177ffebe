"""Runs scenario functions through the interpreter and decides the recorded obligations."""
import ast
import re
import glob
import itertools
import os
import signal
import sys
import time
from fractions import Fraction
from . import terms as tm
from . import evalt
from .terms import T, num, TRUE, FALSE
from .values import *
from .interp import Interp, Undecided, NeedFork, PyRaise, FList, FDict, Frame, Event, propagate, implied
from . import vspec
from .vspec import all_events

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(40000)


class Timeout(Exception):
    pass


def preload(I):
    I.load("effector")
    for f in sorted(glob.glob(os.path.join(REPO, "effector", "*.py"))):
        b = os.path.basename(f)[:-3]
        if b != "__init__":
            I.load("effector." + b)


def to_value(I, x):
    if isinstance(x, float):
        return num(x)
    if isinstance(x, list):
        return I.list([to_value(I, y) for y in x])
    if isinstance(x, tuple):
        return tuple(to_value(I, y) for y in x)
    if isinstance(x, dict):
        return I.dict([(k, to_value(I, v)) for k, v in x.items()])
    return x


# ------------------------------------------------------------------ comparing frozen values
class Mismatch(Exception):
    def __init__(self, why):
        self.why = why


def kind_of(v):
    if v is None:
        return "None"
    if isinstance(v, str) or isinstance(v, T) and v.op == "str":
        return "str"
    if isinstance(v, (bool, int, Fraction, T)):
        return "scalar"
    if isinstance(v, Arr):
        return "array" if v.dims else "scalar"
    if isinstance(v, (FList, tuple)):
        return "seq"
    return type(v).__name__


def scalar_term(v):
    if isinstance(v, Arr):
        return num(v())
    return num(v)


def phi_terms(v):
    """phi over scalars -> term"""
    if isinstance(v, PhiV):
        a, b = phi_terms(v.a), phi_terms(v.b)
        if a is None or b is None:
            return None
        return tm.ite(v.c, a, b)
    if isinstance(v, (bool, int, Fraction)) or isinstance(v, T):
        return num(v)
    return None


class Pair:
    """leaf obligations: list of (guard, path, left term, right term)"""

    def __init__(self):
        self.leaves = []
        self.structural = []     # (guard, path, why)

    def cmp(self, a, b, g, path):
        if isinstance(a, PhiV):
            t = phi_terms(a)
            if t is not None:
                return self.cmp(t, b, g, path)
            self.cmp(a.a, b, tm.and_(g, a.c), path)
            self.cmp(a.b, b, tm.and_(g, tm.not_(a.c)), path)
            return
        if isinstance(b, PhiV):
            t = phi_terms(b)
            if t is not None:
                return self.cmp(a, t, g, path)
            self.cmp(a, b.a, tm.and_(g, b.c), path)
            self.cmp(a, b.b, tm.and_(g, tm.not_(b.c)), path)
            return
        if g is FALSE:
            return
        ka, kb = kind_of(a), kind_of(b)
        # sequences of scalars and one-dimensional arrays are compared alike
        if ka == "array" and kb == "seq" or ka == "seq" and kb == "array":
            a, b = seq_arr(a), seq_arr(b)
            ka = kb = "array"
        if ka != kb:
            self.structural.append((g, path, "%s instead of %s" % (describe(a), describe(b))))
            return
        if ka == "scalar":
            self.leaves.append((g, path, scalar_term(a), scalar_term(b)))
        elif ka == "str":
            self.leaves.append((g, path, tm.strcat(a), tm.strcat(b)))
        elif ka == "array":
            if len(a.dims) != len(b.dims):
                self.structural.append((g, path, "%d axes instead of %d" % (len(a.dims), len(b.dims))))
                return
            for k, (x, y) in enumerate(zip(a.dims, b.dims)):
                self.leaves.append((g, path + ".shape[%d]" % k, x, y))
            w = []
            for x in b.dims:
                v = tm.fresh(x, "cmp")
                w.append(v)
            self.arrays = getattr(self, "arrays", [])
            self.leaves.append((g, path, ("arr", tuple(w), a, b), None))
        elif ka == "seq":
            ia = list(a) if isinstance(a, tuple) else a.items
            ib = list(b) if isinstance(b, tuple) else b.items
            if any(isinstance(x, Seg) for x in ia + ib):
                if len(ia) == len(ib) == 1 and isinstance(ia[0], Seg) and isinstance(ib[0], Seg):
                    n = ib[0].n
                    self.leaves.append((g, path + ".len", num(ia[0].n), num(n)))
                    v = tm.fresh(num(n), "el")
                    self.leaves.append((g, path, ("seq", v, ia[0].fn(v), ib[0].fn(v)), None))
                    return
                a2, b2 = seq_arr(a), seq_arr(b)
                return self.cmp(a2, b2, g, path)
            if len(ia) != len(ib):
                self.structural.append((g, path, "%d elements instead of %d" % (len(ia), len(ib))))
                return
            for k, (x, y) in enumerate(zip(ia, ib)):
                self.cmp(x, y, g, path + "[%d]" % k)
        elif ka == "FDict":
            da, db = dict(a.items), dict(b.items)
            if set(da) != set(db):
                self.structural.append((g, path, "keys %s instead of %s" % (sorted(map(str, da)), sorted(map(str, db)))))
                return
            for k in db:
                self.cmp(da[k], db[k], g, path + "[%r]" % (k,))
        elif ka == "None":
            return
        elif ka in ("ObjV",):
            if a.cid != b.cid:
                self.structural.append((g, path, "a different object"))
        elif ka == "ExtV":
            if a.path != b.path:
                self.structural.append((g, path, "%s instead of %s" % (a.path, b.path)))
        elif ka == "TypeV" or ka == "ClassV":
            if a.name != b.name:
                self.structural.append((g, path, "%s instead of %s" % (a.name, b.name)))
        elif a is not b:
            raise Undecided("cannot compare values of kind " + ka)


def describe(v):
    if isinstance(v, Arr):
        return "array with %d axes" % len(v.dims)
    if v is None or isinstance(v, (str, bool, int)):
        return repr(v)
    return kind_of(v)


def seq_arr(v):
    if isinstance(v, Arr):
        return v
    items = list(v) if isinstance(v, tuple) else v.items
    segs = []
    off = tm.ZERO
    for x in items:
        n = num(x.n) if isinstance(x, Seg) else tm.ONE
        segs.append((off, n, x))
        off = tm.add(off, n)
    inner = None
    for _, n, x in segs:
        y = x.fn(tm.fresh(n)) if isinstance(x, Seg) else x
        if isinstance(y, (FList, tuple)):
            y = seq_arr(y)
        if isinstance(y, Arr) and y.dims:
            inner = y.dims
            break
        if not (isinstance(y, Arr) or isinstance(y, (bool, int, Fraction)) or (isinstance(y, T) and y.op != "str")):
            raise Undecided("sequence of " + kind_of(y))

    def at(i, rest):
        r = None
        for o, n, x in reversed(segs):
            y = x.fn(tm.sub(i, o)) if isinstance(x, Seg) else x
            if isinstance(y, (FList, tuple)):
                y = seq_arr(y)
            if isinstance(y, Arr):
                y = y(*rest)
            y = phi_terms(y)
            r = y if r is None else tm.ite(tm.lt(tm.sub(i, o), n), y, r)
        return r if r is not None else tm.ZERO
    return Arr((off,) + tuple(inner or ()), lambda i, *r: at(num(i), r))


# ------------------------------------------------------------------ deciding
class Verdict:
    def __init__(self):
        self.congruent = self.unrefuted = self.ground = self.vacuous = 0
        self.bad = []
        self.undecided = []
        self.unref = []
        self.samples = 0


def valuations(I, seed, n, extra=()):
    for k in range(n):
        sizes = {}
        v = evalt.Valuation("%s/%d" % (seed, k), coarse=(k % 2 == 1), sizes=I.size_max)
        yield v


class Decider:
    def __init__(self, I, seed, nval, budget=60.0, cap=10 ** 6, rounding=False):
        self.I, self.seed, self.nval, self.cap, self.rounding = I, seed, nval, cap, rounding
        self.vals = None
        self.more = {}
        self.budget = budget
        self.t0 = time.time()

    def usable(self):
        """valuations satisfying the scenario assumptions"""
        if self.vals is None:
            self.vals = []
            for v in valuations(self.I, self.seed, self.nval * 12):
                try:
                    if all(v.ev(c, {}) for c in self.I.assumed):
                        self.vals.append(v)
                except evalt.Fail:
                    pass
                if len(self.vals) >= self.nval:
                    break
        return self.vals

    def hinted(self, terms):
        """further valuations, in which the sizes compared with large constants lie near those constants"""
        h = evalt.hints(list(terms) + list(self.I.assumed))
        if not h:
            return
        key = tuple(sorted((str(t.args[0]), tuple(v)) for t, v in h.items()))
        if key not in self.more:
            ok = []
            for k in range(40):
                v = evalt.Valuation("%s/h%d" % (self.seed, k), coarse=(k % 2 == 1), sizes=self.I.size_max, hints=h)
                try:
                    if all(v.ev(c, {}) for c in self.I.assumed):
                        ok.append(v)
                except evalt.Fail:
                    pass
                if len(ok) >= 8:
                    break
            self.more[key] = ok
        yield from self.more[key]

    def rescaled(self, terms):
        """further valuations, in which real inputs have the magnitude of the tolerances, caps and rounding digits met"""
        sc = evalt.scales(list(terms), self.cap)
        if not sc:
            return
        key = ("scale",) + tuple(sc)
        if key not in self.more:
            ok = []
            for k in range(30):
                v = evalt.Valuation("%s/s%d" % (self.seed, k), coarse=(k % 2 == 1), sizes=self.I.size_max, scales=sc)
                try:
                    if all(v.ev(c, {}) for c in self.I.assumed):
                        ok.append(v)
                except evalt.Fail:
                    pass
                if len(ok) >= 8:
                    break
            self.more[key] = ok
        yield from self.more[key]

    def tied(self):
        """further valuations, in which few distinct values make ties and boundaries frequent"""
        if "tied" not in self.more:
            ok = []
            for k in range(120):
                v = evalt.Valuation("%s/t%d" % (self.seed, k), coarse="tied", sizes=self.I.size_max)
                try:
                    if all(v.ev(c, {}) for c in self.I.assumed):
                        ok.append(v)
                except evalt.Fail:
                    pass
                if len(ok) >= 40:
                    break
            self.more["tied"] = ok
        yield from self.more["tied"]

    def shrunk(self, terms):
        """further valuations, in which large constants that sizes are compared with are (consistently) small"""
        sh = evalt.thresholds(terms)
        if not sh:
            return
        key = ("shrink",) + tuple(sorted(sh))
        if key not in self.more:
            ok = []
            for k in range(60):
                v = evalt.Valuation("%s/k%d" % (self.seed, k), coarse=(k % 2 == 1), sizes=self.I.size_max, shrink=sh)
                try:
                    if all(v.ev(c, {}) for c in self.I.assumed):
                        ok.append(v)
                except evalt.Fail:
                    pass
                if len(ok) >= 16:
                    break
            self.more[key] = ok
        yield from self.more[key]

    def coarser(self, terms):
        """further valuations, in which rounding to three to nine digits is rounding to whole numbers (wherever it occurs)"""
        if not evalt.rounded(terms):
            return
        if "coarser" not in self.more:
            ok = []
            for k in range(30):
                v = evalt.Valuation("%s/c%d" % (self.seed, k), coarse=(k % 2 == 1), sizes=self.I.size_max, coarser=True)
                try:
                    if all(v.ev(c, {}) for c in self.I.assumed):
                        ok.append(v)
                except evalt.Fail:
                    pass
                if len(ok) >= 8:
                    break
            self.more["coarser"] = ok
        yield from self.more["coarser"]

    def near(self, terms):
        """further valuations, in which inputs differ by less than the relative tolerances met"""
        for eps in evalt.relative(terms)[:3]:
            key = ("near", eps)
            if key not in self.more:
                ok = []
                for k in range(40):
                    v = evalt.Valuation("%s/n%d" % (self.seed, k), coarse="tied", sizes=self.I.size_max, near=eps)
                    try:
                        if all(v.ev(c, {}) for c in self.I.assumed):
                            ok.append(v)
                    except evalt.Fail:
                        pass
                    if len(ok) >= 12:
                        break
                self.more[key] = ok
            yield from self.more[key]

    def refute(self, guard, test, terms=()):
        """first valuation under which guard holds and test(v) is a description of a difference"""
        tried = 0
        for v in itertools.chain(self.usable(), self.hinted((guard,) + tuple(terms)), self.rescaled((guard,) + tuple(terms)), self.shrunk((guard,) + tuple(terms)), self.coarser((guard,) + tuple(terms)), self.tied() if terms else (), self.near(terms) if terms else ()):
            if time.time() - self.t0 > self.budget:
                break
            v.steps = 0
            try:
                if not v.ev(guard, {}):
                    continue
                tried += 1
                d = test(v)
            except evalt.Fail as e:
                if "budget" in str(e):
                    v.memo.clear()
                continue
            if d is not None:
                return d, v, tried
            if len(v.memo) > 300000:
                v.memo.clear()
        return None, None, tried


def is_true(c):
    return c is TRUE


def decide_pair(D, V, label, loc, a, b, g):
    I = D.I
    p = Pair()
    p.cmp(a, b, g, "")
    for gd, path, why in p.structural:
        # only reachable differences count
        d, v, tried = D.refute(gd, lambda v: why)
        if d is not None:
            V.bad.append((label + path, loc, d, valdesc(v, gd)))
        else:
            V.vacuous += 1
    for gd, path, x, y in p.leaves:
        if gd is FALSE:
            continue
        if isinstance(x, tuple) and x[0] == "arr":
            _, w, A, B = x
            decide_arr(D, V, label + path, loc, gd, w, A, B)
        elif isinstance(x, tuple) and x[0] == "seq":
            _, w, A, B = x
            q = Pair()
            q.cmp(A, B, gd, path + "[i]")
            for gd2, path2, why in q.structural:
                V.bad.append((label + path2, loc, why, ""))
            for gd2, path2, x2, y2 in q.leaves:
                if isinstance(x2, tuple) and x2[0] == "arr":
                    decide_arr(D, V, label + path2, loc, gd2, x2[1], x2[2], x2[3], outer=(w,))
                elif isinstance(x2, tuple):
                    V.undecided.append((label + path2, "nested symbolic sequence"))
                else:
                    decide_leaf(D, V, label + path2, loc, gd2, x2, y2, (w,))
        else:
            decide_leaf(D, V, label + path, loc, gd, x, y, ())


def decide_arr(D, V, label, loc, gd, w, A, B, outer=()):
    # dims agree (checked separately); compare the element terms
    if all(x is y for x, y in zip(A.dims, B.dims)):
        decide_leaf(D, V, label + "[" + ",".join("i" * len(w)) + "]", loc, gd, num(A(*w)), num(B(*w)), outer + tuple(w))
        return
    same = True
    ww = []
    for x, y, v in zip(A.dims, B.dims, w):
        ww.append(v)
    decide_leaf(D, V, label + "[" + ",".join("i" * len(w)) + "]", loc, gd, num(A(*ww)), num(B(*ww)), outer + tuple(ww), dims=list(zip(A.dims, B.dims)))


def decide_leaf(D, V, label, loc, gd, x, y, ws, dims=None):
    if x is y:
        V.congruent += 1
        return
    if is_strict_known(D.I, gd, x, y):
        V.congruent += 1
        return
    if (x.unk or y.unk):
        V.undecided.append((label, "value not modelled: " + unk_reason(x if x.unk else y)))
        return
    if not ws and x.op in ("num", "bool") and y.op in ("num", "bool"):
        V.ground += 1
        d, v, tried = D.refute(gd, lambda v: None if evalt.close(v.ev(x, {}), v.ev(y, {})) else "%s instead of %s" % (sv(v.ev(x, {})), sv(v.ev(y, {}))), (x, y))
    else:
        def test(v):
            for env in envs(v, ws, {}):
                a = b = None
                try:
                    b = v.ev(y, env)
                except evalt.Fail:
                    continue
                try:
                    a = v.ev(x, env)
                except evalt.Fail:
                    continue
                if not evalt.close(a, b):
                    return "%s instead of %s%s" % (sv(a), sv(b), (" at index " + ",".join(str(env[z]) for z in ws)) if ws else "")
            return None
        d, v, tried = D.refute(gd, test, (x, y))
    if d is not None:
        V.bad.append((label, loc, d, valdesc(v, gd) + "  computed " + tm.show(x, 5)[:400] + "  expected " + tm.show(y, 5)[:400]))
    elif tried == 0:
        V.undecided.append((label, "no valuation satisfies the path condition"))
    elif D.rounding and evalt.tolerances(x) - evalt.tolerances(y):
        k = min(evalt.tolerances(x) - evalt.tolerances(y))
        V.bad.append((label, loc, "depends on a comparison with the absolute tolerance %g, which rounding absorbs once the values exceed %g"
                      % (float(k), float(k) * 2 ** 53), tm.show(x, 5)[:400]))
    else:
        V.unrefuted += 1
        V.unref.append(label)
        V.samples += tried


def is_strict_known(I, gd, x, y):
    """congruent in every case of the (few) conditions the two terms decide on"""
    if x.unk or y.unk or max(x.size, y.size) > 4000:
        return False
    free = x.fv | y.fv
    fuel = [48]

    def atoms(t, out, seen):
        st = [t]
        while st and len(out) < 12:
            z = st.pop()
            if z in seen:
                continue
            seen.add(z)
            if z.op in ("lt0", "le0", "eq0") and z.fv <= free:
                out.append(z)
            st.extend(tm.children(z))

    def go(x, y, known, depth):
        if x is y:
            return True
        fuel[0] -= 1
        if fuel[0] < 0 or depth > 7:
            return False
        cs, seen = [], set()
        atoms(x, cs, seen)
        atoms(y, cs, seen)
        if not cs:
            return False
        c = min(cs, key=lambda z: (z.size, z.id))
        n = tm.not_(c)
        for a, b in ((c, n), (n, c)):
            k = propagate(known, a)
            if k is None or implied(known, a) is FALSE:
                continue
            x1, y1 = (tm.replace(tm.replace(t, a, TRUE), b, FALSE) for t in (x, y))
            if x1 is x and y1 is y:
                return False
            if not go(x1, y1, k, depth + 1):
                return False
        return True

    try:
        k = frozenset()
        if gd is not TRUE:
            k = propagate(k, gd)
            if k is None:
                return False
        return go(x, y, k, 0)
    except RecursionError:
        return False


def unk_reason(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "unknown":
            return str(x.args[0])
        st.extend(c for c in tm.children(x) if c.unk)
    return "?"


def envs(v, ws, env, limit=60):
    out = [dict(env)]
    for w in ws:
        new = []
        for e in out:
            n = int(v.ev(w.args[1], e))
            ks = range(n) if n <= 8 else sorted(set(list(range(3)) + [n // 2, n - 2, n - 1]))
            for k in ks:
                f = dict(e)
                f[w] = k
                new.append(f)
        out = new[:limit * 4]
    return out[:limit * 2]


def sv(x):
    if isinstance(x, (bool, str, tuple)):
        return repr(x)
    try:
        return "%.6g" % float(x)
    except Exception:
        return str(x)


def valdesc(v, g):
    if v is None:
        return ""
    return "with " + ", ".join("%s=%s" % (t.args[0], sv(x)) for t, x in sorted(v.syms.items(), key=lambda z: str(z[0].args[0]))[:14])


def decide_holds(D, V, label, loc, c, g):
    if c is TRUE:
        V.congruent += 1
        return
    if c.unk:
        V.undecided.append((label, "value not modelled: " + unk_reason(c)))
        return
    d, v, tried = D.refute(g, lambda v: None if v.ev(c, {}) else "the condition is false", (c,))
    if d is not None:
        V.bad.append((label, loc, d, valdesc(v, g) + "  condition " + tm.show(c, 5)[:500]))
    elif tried == 0:
        V.undecided.append((label, "no valuation satisfies the path condition"))
    else:
        V.unrefuted += 1
        V.unref.append(label)
        V.samples += tried


# ------------------------------------------------------------------ running one case
def run_case(case):
    """one scenario; if it leaves the analyser's reach with arbitrary sizes, it is tried again with small fixed sizes"""
    res = run_once(case, None)
    if res["bad"] or not any(l == "scenario" or w.startswith("value not modelled") for l, w in res["undecided"]) or case.get("nofallback"):
        return res
    note = []
    for sizes in ((3, 1, 0), (0, 4, 2)):
        r = run_once(dict(case, timeout=min(60, int(case.get("timeout", 240)))), sizes)
        res["seconds"] = round(res["seconds"] + r["seconds"], 2)
        res["functions"] = sorted(set(res["functions"]) | set(r["functions"]))
        if r["bad"]:
            res["bad"] = r["bad"]
            break
        if not any(l == "scenario" for l, _ in r["undecided"]):
            note.append("; with %s: %d leaves congruent, %d unrefuted" % (r["dims"], r["congruent"], r["unrefuted"]))
    where = next((m.group(1) for l, w in res["undecided"] for m in [re.search(r"\[at (\w+\.py):", w)] if m), None)
    if where and not res["bad"] and large_literals(where):
        for sizes, first in (((3, 1, 0), 3), ((0, 4, 2), 2)):
            r = run_once(dict(case, timeout=min(60, int(case.get("timeout", 240)))), sizes, (where, first))
            res["seconds"] = round(res["seconds"] + r["seconds"], 2)
            if r["bad"]:
                res["bad"] = r["bad"]
                break
    res["undecided"] = [[l, w + "".join(note)] if l == "scenario" else [l, w] for l, w in res["undecided"]]
    return res


def literals(path):
    return {n.value for n in ast.walk(ast.parse(open(path).read())) if isinstance(n, ast.Constant) and type(n.value) is int and n.value >= 200}


def spec_literals():
    return set().union(*[literals(p) for p in glob.glob(os.path.join(VERIF, "spec", "*.py"))])


def large_literals(name):
    """whether a source file has large integer literals, which small inputs would not reach"""
    p = os.path.join(REPO, "effector", name)
    return os.path.exists(p) and bool(literals(p) - spec_literals())


def run_once(case, concrete, small=None):
    """case: dict(prop, file, func, kw, seed, nval, timeout) -> dict"""
    t0 = time.time()
    res = dict(prop=case["prop"], func=case["func"], kw=case["kw"], bad=[], undecided=[], congruent=0, unrefuted=0, vacuous=0, samples=0,
               obligations=0, functions=[], entry=[], seconds=0.0)

    def onalarm(*a):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(case.get("timeout", 240)))
    I = None
    try:
        I = Interp([("effector", REPO), ("spec", VERIF)])
        I.concrete, I.concrete_dims = concrete, {}
        if small:
            I.small_file, I.small_keep, I.small_first = small[0], spec_literals(), small[1]
        preload(I)
        m = I.load("spec." + case["file"])
        if m is None:
            raise Undecided("scenario file missing")
        f = I.modframes[m.frame][case["func"]]
        ncov = set(I.covered)
        I.sinks = [[]]
        raised, nothing = None, False
        try:
            st = call_top(I, f, {k: to_value(I, v) for k, v in case["kw"].items()})
        except PyRaise as e:
            raised = e.exc
            st = None
        except vspec.Contradiction:
            if not I.sinks[0]:
                raise
            st, nothing = None, True
        V = Verdict()
        if nothing:
            V.undecided.append(("scenario", "contradictory assumption"))
        D = Decider(I, "%s/%s" % (case.get("seed", 1), case["func"]), case.get("nval", 24), case.get("budget", 60), case.get("cap", 10 ** 6), case.get("rounding", False))
        evs = []
        if st is not None:
            evs = list(st.events)
        exits = list(I.sinks[0])
        if raised is not None:
            s = I.st
            s.exc = raised
            exits.append(s)
            evs = list(s.events)
        seen = set()
        for e in evs:
            if e.kind != "oblig":
                continue
            decide_event(D, V, e)
        for s in exits:
            for e in s.events:
                if e.kind == "oblig" and e not in evs and id(e) not in seen:
                    seen.add(id(e))
        # side exits: a feasible path on which the scenario raises
        for s in exits:
            exc = s.exc
            while isinstance(exc, PhiV):
                exc = exc.a
            g = tm.and_(*s.pc) if s.pc else TRUE
            loc = getattr(exc, "loc", ("?", "?", 0))
            res["obligations"] += 1
            d, v, tried = D.refute(g, lambda v: "raises")
            if d is not None and str(loc[0]).startswith(os.path.join(VERIF, "spec")) and exc.name != "AssertionError":
                # raised by the scenario text itself: the scenario does not fit this code
                V.undecided.append(("scenario", "raises %s%s at %s:%s" % (exc.name, exc_msg(exc), os.path.basename(loc[0]), loc[2])))
            elif d is not None:
                V.bad.append(("completes", loc, "raises %s%s" % (exc.name, exc_msg(exc)), valdesc(v, g) + "  when " + tm.show(g, 4)[:400]))
            else:
                V.vacuous += 1
        # shape obligations
        if st is not None:
            for e in all_events(evs, "shape"):
                c = e.data[0]
                if not isinstance(c, T) or c is TRUE:
                    continue
                res["obligations"] += 1
                g = e.guard
                if c.fv:
                    V.vacuous += 1
                    continue
                decide_holds(D, V, "array sizes agree", e.loc, c, g)
        res["obligations"] += sum(1 for e in evs if e.kind == "oblig")
        res.update(congruent=V.congruent + V.ground, unrefuted=V.unrefuted, vacuous=V.vacuous, samples=V.samples)
        res["bad"] = [(l, list(loc[:3]), d, x) for l, loc, d, x in V.bad]
        res["undecided"] = [list(x) for x in V.undecided]
        res["unref"] = V.unref
        if not any(e.kind == "oblig" for e in evs) and not V.bad:
            res["undecided"].append(["scenario", "no obligation reached"])
    except (Undecided, Timeout, RecursionError, NeedFork, MemoryError, evalt.Fail) as e:
        res["undecided"].append(["scenario", "%s: %s%s" % (type(e).__name__, e, where(I))])
    except Exception as e:     # a limitation of the analyser is never an alarm
        import traceback
        if os.environ.get("VERIF_TB"):
            traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)
        res["undecided"].append(["scenario", "analyser limitation %s: %s at %s:%d%s" % (type(e).__name__, str(e)[:200], os.path.basename(tb[-1].filename), tb[-1].lineno, where(I))])
        res["crash"] = True
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    res["dims"] = ", ".join("%s=%d" % x for x in sorted(I.concrete_dims.items())) if I is not None and concrete else ""
    if I is not None:
        res["functions"] = sorted("%s:%s" % (os.path.relpath(p, REPO), n) for p, n in I.covered if p.startswith(REPO))
        res["lines"] = {os.path.relpath(p, REPO) + ":" + n: len(v) for (p, n), v in I.covered_lines.items() if p.startswith(REPO)}
    res["seconds"] = round(time.time() - t0, 2)
    return res


def exc_msg(exc):
    try:
        m = "".join(str(x) for x in exc.args if isinstance(x, str))
        return " (%s)" % m if m else ""
    except Exception:
        return ""


def where(I):
    if I is None or I.node is None:
        return ""
    try:
        return " [at %s:%s in %s]" % (os.path.basename(I.mod.path) if I.mod else "?", getattr(I.node, "lineno", "?"), " < ".join(f for _, f, _ in reversed(I.stack[-4:])))
    except Exception:
        return ""


def call_top(I, f, kw):
    """run a scenario function as a statement so that forks are handled"""
    import ast
    call = ast.parse("__f__(**__kw__)").body[0]
    fid = ("top", 0)
    I.st.frames[fid] = {"__f__": f, "__kw__": I.dict(list(kw.items()))}
    from .interp import Module
    fr = Frame(fid, None, Module("top", "top"))
    fr.module.path = "top"
    out = I.exec_stmt(call, fr)
    rs = out.get("raise")
    if "next" in out:
        if rs is not None:
            I.sinks[0].append(rs)
        return out["next"]
    if rs is not None:
        I.st = rs
        x = rs.exc
        while isinstance(x, PhiV):
            x = x.a
        raise PyRaise(x)
    raise Undecided("scenario has no outcome")


def decide_event(D, V, e):
    kind, label, pc = e.data[0], e.data[1], e.data[2]
    g = tm.and_(e.guard, *pc) if pc or e.guard is not TRUE else TRUE
    if kind == "same":
        decide_pair(D, V, label, e.loc, e.data[3], e.data[4], g)
    elif kind == "holds":
        decide_holds(D, V, label, e.loc, e.data[3], g)
    elif kind == "nowrite":
        hits = e.data[4]
        if not hits:
            V.congruent += 1
        for loc, gd in hits:
            d, v, tried = D.refute(tm.and_(g, gd) if not gd.fv else g, lambda v: "writes into memory owned by " + e.data[3])
            if d is not None:
                V.bad.append((label, loc, d, valdesc(v, gd)))
            else:
                V.vacuous += 1
