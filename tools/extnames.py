"""Snapshot of the public names of the third-party modules the package uses (development aid; run with the project's python)."""
import importlib, json, os, warnings
warnings.simplefilter("ignore")
out = {}
for n in ["numpy", "numpy.random", "numpy.linalg", "numpy.ma", "scipy", "scipy.interpolate", "scipy.integrate", "scipy.stats", "shap", "matplotlib.pyplot", "copy", "itertools", "re", "math", "functools", "typing", "os", "warnings"]:
    try:
        out[n] = sorted(dir(importlib.import_module(n)))
    except ImportError as e:
        print(n, e)
m = importlib.import_module("numpy")
out["numpy"] = sorted(set(out["numpy"]) | set(m.__all__) | {"float_", "Inf", "product", "alltrue"} & set(dir(m)))
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sa", "extnames.json"), "w"), separators=(",", ":"))
print({k: len(v) for k, v in out.items()})
