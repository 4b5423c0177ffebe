"""One demonstration per genuine defect repaired in /repo (see known_findings.txt).
Usage: MPLBACKEND=Agg PYTHONPATH=<tree> /opt/venv/bin/python demos.py   (prints ok / FAILS per defect)
These are records of the defects, not checks: no command in MANIFEST.json runs this file."""
import warnings; warnings.filterwarnings("ignore")
import copy, io, contextlib, numpy as np, traceback
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
plt.show = lambda *a, **k: None
import effector
from effector import partitioning, utils, bin_splitting, binning_methods as bm, global_effect_pdp as gp, interaction, visualization as vis

def mk(N=300, seed=0):
    r = np.random.RandomState(seed)
    return np.stack([r.uniform(-1, 1, N), r.uniform(-1, 1, N), r.randint(0, 2, N)], 1)
def model(x):
    y = np.zeros_like(x[:, 0], dtype=float); i = (x[:, 1] > 0) & (x[:, 2] == 0); y[i] = 5 * x[i, 0]; return y
def jac(x):
    y = np.zeros(x.shape); i = (x[:, 1] > 0) & (x[:, 2] == 0); y[i, 0] = 5; return y
lin = lambda x: 2.0 * x[:, 0] + x[:, 1]
data = mk()
def axes(): return plt.gcf().axes

def F01():
    r = effector.RegionalRHALE(data, model, jac); r.fit(0, max_depth=2, split_categorical_features=True)
    t = r.tree_full["feature_0"]
    return all(np.array_equal(n.data["data_effect"], jac(n.data["data"])) for n in t.nodes)
def F02():
    R = partitioning.Regions(0, lambda x: 1., data, None, None, ["a", "b", "c"], "y", candidate_conditioning_features="all")
    x = np.array([[0., 1.], [0., 2.]]); a, b = R.split_dataset(x, None, 1, 1.0, "cont")
    return len(a) == 1 and len(b) == 1
def F03():
    lim = np.array([0., 1., 3.]); l0 = lim.copy(); d = np.array([[.5, 0], [2., 0]])
    e = utils.compute_local_effects(d, lin, lim, 0)
    return np.allclose(e, 2) and np.array_equal(lim, l0)
def F04():
    al = np.array([[-.2, -1, 0], [.2, 1, 1.]])
    a = effector.PDP(data, model, axis_limits=al, nof_instances="all"); xs = np.linspace(-.5, .5, 5)
    y1 = effector.PDP(data, lambda x: model(x), axis_limits=al, nof_instances="all").eval(1, xs)
    a.fit(0); return np.allclose(a.eval(1, xs), y1)
def F05():
    al = np.array([[-.2, -1, 0], [.2, 1, 1.]])
    a = effector.ShapDP(data, model, axis_limits=al, nof_instances=60); n = a.data.shape[0]
    a.fit(0); return a.data.shape[0] == n
def F06():
    effector.RHALE(data, model, jac).fit(0, binning_method="dp"); return True
def F07():
    a = effector.RHALE(data, model, jac); a.fit(0, binning_method=bm.Fixed(7)); a.eval(0, np.array([0.]), centering=True)
    return len(a.feature_effect["feature_0"]["limits"]) == 8
def F08():
    r = effector.RegionalALE(data, model); r.fit(0, split_categorical_features=True)
    r.plot(0, 0); return axes()[0].get_title() == "ale plot"
def F09():
    r = effector.RegionalRHALE(data, model, jac, target_name="T"); r.fit(0, split_categorical_features=True)
    r.plot(0, 0); return axes()[0].get_ylabel() == "T"
def F10():
    f = lambda x: 10 * x[:, 1] + x[:, 0]; h = []
    for c in [False, "zero_start"]:
        r = effector.RegionalPDP(data, f, nof_instances="all"); r.fit(0, centering=c); h.append(r.partitioners["feature_0"].splits[0]["weighted_heter"])
    return h[0] > 1 and h[1] < 1e-6
def F11():
    d = mk(2000); r = effector.RegionalPDP(d, model, nof_instances="all"); r.fit(0, split_categorical_features=True)
    xs = np.array([.5]); return np.array_equal(r.eval(0, 0, xs), r.eval(0, 0, xs))
def F12():
    r = effector.RegionalRHALE(data, lambda x: x[:, 0] ** 3, lambda x: np.stack([3 * x[:, 0] ** 2, 0 * x[:, 0], 0 * x[:, 0]], 1)); r.fit(0, binning_method=bm.Fixed(2))
    y = r.eval(0, 0, np.linspace(-.9, .9, 9)); g = effector.RHALE(data, model, data_effect=r.instance_effects); g.fit(0, binning_method=bm.Fixed(2))
    return np.allclose(y, g.eval(0, np.linspace(-.9, .9, 9)))
def F13():
    r = effector.RegionalPDP(data, model, nof_instances="all"); r.fit(0, split_categorical_features=True)
    n = r.get_node_info(0, 1)[2]; r.plot(0, 1, scale_x_list=[{"mean": 10, "std": 3}] * 3)
    return r.get_node_info(0, 1)[2] == n
def F14():
    with contextlib.redirect_stdout(io.StringIO()):
        interaction.HIndex(data[:30], model).eval_pairwise(0, 1); interaction.REPID(data[:30], model, jac, "all").eval_one_vs_all(0)
    return True
def F15():
    h = interaction.HIndex(data[:40], lambda x: 100 + x[:, 0] * x[:, 1]); v = h.eval_one_vs_all(0); return v > .05
def F16():
    h = interaction.HIndex(data[:20], model)
    with contextlib.redirect_stdout(io.StringIO()): h.fit(one_vs_all=False)
    m = h.interaction_matrix.copy(); h._plot_interaction_matrix(); return np.array_equal(m, h.interaction_matrix)
def F17():
    x = np.array([[.1, .2]]); a = gp.pdp_nd_non_vectorized(lin, data, x, [0, 1], False, False); return np.allclose(a, .4)
def F18():
    d = data.copy(); d[:, 0] = 3.; b = bin_splitting.Fixed(d, None, 0, None); return b.find(5) is False
def F19():
    r = np.random.RandomState(0); x = np.sort(r.uniform(0, 1, 200))[:, None]; e = r.randn(200, 1) * 1e7
    l = bin_splitting.DP(x, e, 0, None).find(10, 30, .3, 5); c = [((l[i] <= x) & (x <= l[i + 1])).sum() for i in range(len(l) - 1)]
    return np.all(np.diff(l) > 0) and min(c) >= 30
def F20():
    r = np.random.RandomState(0); x = np.concatenate([r.uniform(0, .2, 100), r.uniform(.8, 1, 100)])[:, None]; e = (x > .5) * 1. + 1e-3 * r.randn(200, 1)
    b = bin_splitting.DP(x, e, 0, None); b.find(10, 0, .3, 5); return not np.isnan(b.method_outputs["matrix"]).any()
def F21():
    a = effector.ALE(data, model); a.fit(0); a.plot(0, scale_y={"mean": 0., "std": 2.}); return True
def F22():
    a = effector.ShapDP(data, model, nof_instances=60); a.fit(0); a.plot(0, scale_x={"mean": 1, "std": 2}); return True
def F23():
    a = effector.PDP(data, model, nof_instances="all"); a.plot(0, heterogeneity="std_err"); y, s = a.eval(0, np.array([1.]), heterogeneity=True)
    v = axes()[0].collections[0].get_paths()[0].vertices; top = v[np.isclose(v[:, 0], v[:, 0].max())][:, 1].max()
    return np.isclose(top - y[0], s[0] / np.sqrt(300), rtol=.05)
def F24():
    a = effector.DerPDP(data, lin, lambda x: np.ones(x.shape) * 2); a.plot(0, scale_x={"mean": 0, "std": 4.}, scale_y={"mean": 100., "std": 2.})
    return np.allclose(axes()[0].lines[0].get_ydata(), 1.)
def F25():
    a = effector.PDP(data, model); a.plot(0); return axes()[0].get_xlabel() == "x_0"
def F26():
    al = np.array([[-2., -1, 0], [2, 1, 1]]); a = effector.ShapDP(data, lin, axis_limits=al, nof_instances=60)
    return abs(a.eval(0, np.array([-2.]), centering="zero_start")[0]) < 1e-9
def F27():
    d = np.random.RandomState(0).randint(0, 30, (100, 2)); xs = np.array([.5, 1.5])
    return np.allclose(gp.pdp_1d_vectorized(lin, d, xs, 0, False, False), 2 * xs + d[:, 1].mean()) and np.allclose(utils.compute_jacobian_numerically(lin, d), [2, 1], atol=1e-3)
def F28():
    d = mk(30); r = effector.RegionalShapDP(d, lambda x: x[:, 0] * x[:, 1], nof_instances="all"); r.fit(0, min_points_per_subregion=2); return True
def F29():
    al = np.array([[-3., -1, 0], [3., 1, 1]]); r = effector.RegionalPDP(data, model, axis_limits=al, nof_instances="all"); r.fit(0, split_categorical_features=True)
    r.plot(0, 0); return np.isclose(axes()[0].lines[0].get_xdata()[0], -3)
def F30():
    a = effector.PDP(data, model, nof_instances="all"); a.fit(0, points_for_centering="all"); return True
def F31():
    a = effector.ALE(data * 1e9, lambda x: x[:, 0] / 1e9); return abs(a.eval(0, data[:, 0].max(keepdims=True) * 1e9 + [0, 5e9])).max() < 3
def F32():
    d = data.copy(); d[:, 1] = np.arange(len(d)) % 30; r = effector.RegionalPDP(d, lambda x: x[:, 0] * (x[:, 1] == 25), nof_instances="all", feature_types=["cont", "cat", "cont"][:d.shape[1]])
    r.fit(0); return True

if __name__ == "__main__":
    for n in sorted(k for k in globals() if k[0] == "F" and k[1:].isdigit()):
        plt.close("all")
        try: r = "ok" if globals()[n]() else "FAILS"
        except Exception as e: r = "FAILS (%s: %s)" % (type(e).__name__, str(e)[:80])
        print(n, r, flush=True)
