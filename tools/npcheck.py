"""python3 tools/npcheck.py: the models of numpy functions against numpy itself on concrete arrays (development aid, not a check).

Every expression is evaluated by numpy (in /opt/venv) and by the analyser; the results must agree."""
import json
import os
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))

SETUP = """a = np.array([3.0, 1.0, 2.0, 2.0, -1.0])
b = np.array([0.5, 4.0, 2.0, -2.0, 1.5])
k = np.array([2, 0, 1, 1, 4])
m = np.array([[1.0, 5.0, 2.0], [4.0, 0.0, 3.0]])
g = np.array([True, False, True, True, False])
q = np.array([3.0, np.nan, 1.0, np.nan, 2.0])
e = np.array([-1.0, 0.0, 2.0, 3.0])
"""
EXPRS = """np.array_split(a, 2)[0]; np.array_split(a, 2)[1]; np.array_split(a, 3)[2]; np.split(m, [1])[1]; np.vsplit(m, 2)[0]; np.hsplit(m, 3)[1]
m[np.ix_([1, 0], [2, 0])]; m[np.ix_(np.array([True, False]), np.array([True, False, True]))]
np.take_along_axis(m, np.argsort(m, axis=1), axis=1); np.take_along_axis(a, np.argsort(a), axis=0)
np.nanmin(q); np.nanmax(q); np.nanvar(q); np.nanstd(q) ** 2; np.nanmean(q); np.nansum(q)
np.histogram(a, bins=e)[0]; np.histogram(a, bins=4)[0]; np.histogram(a, bins=2, range=(0, 2))[0]; np.histogram(a, bins=4)[1]
np.trunc(b); np.fix(b); np.reciprocal(b); np.float_power(b, 2); np.hypot(np.array([3.0]), np.array([4.0]))
np.digitize(a, e); np.searchsorted(e, a); np.searchsorted(e, a, side='right'); np.bincount(k); np.unique(a); np.unique(a, return_counts=True)[1]; np.unique(a, return_inverse=True)[1]
np.cumsum(a); np.cumsum(m, axis=0); np.diff(e); np.mean(m, axis=0); np.std(m, axis=1) ** 2; np.var(a, ddof=1); np.median(a); np.ptp(a)
np.argsort(a, kind='stable'); np.sort(a); np.sort(a)[::-1]; np.flip(a); np.roll(a, 2); np.repeat(a, 2); np.tile(a, 2); np.repeat(a, k)
np.where(g, a, b); np.nonzero(g)[0]; np.flatnonzero(a > 1); a[g]; a[~g]; a[k]; m[:, 1]; m[1, :]; m[:, [2, 0]]; m[..., 1]; m[::-1]; a[1:4]; a[-2:]; a[::2]
np.argmax(a); np.argmin(a); np.max(m, axis=1); np.min(m, axis=0); np.sum(g); np.any(a > 2); np.all(a > -2); np.count_nonzero(g); np.prod(b)
np.concatenate([a, b]); np.stack([a, b]); np.vstack([a, b]); np.hstack([a, b]); np.column_stack([a, b]); np.append(a, 7.0); np.insert(a, 1, 9.0); np.delete(a, 1)
np.linspace(0, 1, 5); np.arange(1, 4); np.arange(0, 1, 0.25); np.full(3, 2.5); np.zeros((2, 2)); np.ones(2); np.eye(2); np.diag(np.array([1.0, 2.0]))
np.clip(a, 0, 2); np.abs(b); np.sign(b); np.round(b * 1.3, 1); np.floor(b); np.ceil(b); np.maximum(a, b); np.minimum(a, b); np.mod(a, 2); a // 2; a % 2; -a; a ** 2; a / b; a @ b; np.dot(m, a[:3])
np.isin(a, [2.0, 3.0]); np.isclose(a, 2.0); np.logical_xor(g, a > 1); np.isnan(q); np.nan_to_num(q); np.array_equal(a, b); np.allclose(a, a + 1e-9)
np.interp(np.array([0.5, 2.5]), np.array([0.0, 1.0, 3.0]), np.array([0.0, 2.0, 4.0])); np.average(a, weights=np.array([1.0, 2.0, 1.0, 1.0, 1.0])); np.trapz(a, e[[0, 1, 2, 3, 3]])
np.reshape(m, (3, 2)); m.T; m.ravel(); m.flatten(); np.expand_dims(a, 1); np.squeeze(np.array([[1.0, 2.0]])); np.broadcast_to(a[:3], (2, 3)); np.outer(a[:2], b[:2]); np.swapaxes(m, 0, 1); np.moveaxis(m, 0, 1)
np.percentile(a, 50); np.meshgrid(a[:2], b[:3])[0]; np.meshgrid(a[:2], b[:3], indexing='ij')[1]; np.triu_indices(3, 1)[0]; np.unravel_index(4, (2, 3))[0]; np.argwhere(m > 2)
b.astype(int); a.astype(bool); g.astype(float); g.astype(int); (a > 1).sum(); a.mean(); m.sum(axis=0); m.max(); np.select([a > 2, a > 1], [a, b], 0.0); np.piecewise(a, [a > 1], [1.0, 0.0])
np.nanmin(m, axis=0); np.add.reduce(a); np.cumprod(b); np.ediff1d(a); np.setdiff1d(a, b); np.intersect1d(a, b); np.union1d(a, b)"""


def main():
    ex = [x.strip() for line in EXPRS.split("\n") for x in line.split(";") if x.strip()]
    run = "import numpy as np, json, math, warnings\nwarnings.simplefilter('ignore')\n" + SETUP + "out = []\nfor x in %r:\n    try:\n        v = np.asarray(eval(x)).astype(float)\n        out.append([list(v.shape), [float(z) if z == z else 'nan' for z in v.ravel()]])\n    except Exception as err:\n        out.append(None)\nprint(json.dumps(out))\n" % (ex,)
    want = json.loads(subprocess.run(["/opt/venv/bin/python", "-c", run], capture_output=True, text=True, check=True).stdout)
    import sa.harness as h
    bad = 0
    path = os.path.join(h.VERIF, "spec", "npcheck_tmp.py")
    try:
        with open(path, "w") as f:
            f.write("import numpy as np\nfrom vspec import *\n\n\n")
            for j, (x, w) in enumerate(zip(ex, want)):
                f.write("def f%d():\n" % j + "".join("    %s\n" % l for l in SETUP.strip().split("\n")))
                f.write("    r = np.asarray(%s)\n    same('dims', len(r.shape), %d)\n" % (x, len(w[0]) if w else 0))
                if w:
                    for d, n in enumerate(w[0]):
                        f.write("    same('shape', r.shape[%d], %d)\n" % (d, n))
                    f.write("    r = r.astype(float).ravel()\n")
                    for i, z in enumerate(w[1]):
                        f.write("    same('%d', r[%d], %s)\n" % (i, i, "np.nan" if z == "nan" else repr(z)))
                f.write("\n\n")
        for j, (x, w) in enumerate(zip(ex, want)):
            if w is None:
                print("numpy refuses", x)
                continue
            r = h.run_case(dict(prop="P", file="npcheck_tmp", func="f%d" % j, kw={}))
            if r["bad"] or r["undecided"] or r["unrefuted"]:
                bad += 1
                print(x, "->", (r["bad"] or r["undecided"] or ["unrefuted"])[0])
    finally:
        os.remove(path)
    print(len(ex), "expressions,", bad, "not confirmed")


if __name__ == "__main__":
    main()
