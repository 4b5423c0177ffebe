"""mutate.py N SEED OUT [FILE...]: sample N small changes of /repo and list the ones no quick check reports (development aid)."""
import ast, copy, glob, json, os, random, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {
    "global_effect_pdp.py": "P20 P01 P02 P19 P14 P03 P07 P06 P17 P13 P18 P15 P09 P12".split(),
    "global_effect_ale.py": "P20 P04 P02 P09 P19 P14 P03 P07 P06 P13 P18".split(),
    "global_effect_shap.py": "P20 P05 P02 P19 P14 P03 P07 P06 P17 P13 P18".split(),
    "global_effect.py": "P20 P06 P02 P03 P07 P19 P14 P17 P04".split(),
    "regional_effect_pdp.py": "P20 P18 P13 P19 P09 P11 P12 P17 P07".split(),
    "regional_effect_ale.py": "P20 P18 P13 P19 P09 P11 P12 P17 P07".split(),
    "regional_effect_shap.py": "P20 P18 P13 P19 P09 P11 P12 P17 P07".split(),
    "regional_effect.py": "P20 P13 P21 P18 P19 P11 P12 P10 P17 P07".split(),
    "partitioning.py": "P20 P10 P11 P12 P21 P16 P13 P18 P07".split(),
    "bin_splitting.py": "P20 P08 P09 P04 P07 P19".split(),
    "binning_methods.py": "P20 P09 P08 P19".split(),
    "utils.py": "P20 P04 P01 P07 P08 P02 P05 P10".split(),
    "utils_integrate.py": "P20 P02 P05 P04".split(),
    "helpers.py": "P20 P06 P17 P01 P02 P19 P14 P07 P13".split(),
    "interaction.py": "P20 P15 P17 P07".split(),
    "visualization.py": "P20 P14 P15 P17 P07".split(),
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
STR = {"zero_start": "zero_integral", "zero_integral": "zero_start", "std": "std_err", "cat": "cont", "all": "none"}
NAME = {"min": "max", "max": "min", "mean": "sum", "sum": "mean", "std": "var", "argmax": "argmin", "logical_and": "logical_or", "zeros": "ones", "ones": "zeros", "floor": "ceil"}


def sites(tree):
    """(node, field, index, replacement node, description)"""
    out = []
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef,)):
            continue
        body = f.body[1:] if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else f.body
        for st in body:
            for n in ast.walk(st):
                q = "%s:%d" % (f.name, getattr(n, "lineno", 0))
                if isinstance(n, ast.Compare):
                    for i, o in enumerate(n.ops):
                        if type(o) in CMP:
                            out.append((n, "ops", i, CMP[type(o)](), q + " cmp"))
                if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in BIN and isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str):
                    out.append((n, "op", None, BIN[type(n.op)](), q + " op"))
                if isinstance(n, ast.BoolOp):
                    out.append((n, "op", None, ast.Or() if isinstance(n.op, ast.And) else ast.And(), q + " boolop"))
                if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                    out.append((n, "op", None, ast.UAdd(), q + " not"))
                for fld, val in ast.iter_fields(n):
                    for i, v in (enumerate(val) if isinstance(val, list) else [(None, val)]):
                        if isinstance(v, ast.Constant) and fld != "annotation":
                            w = None
                            if v.value is True or v.value is False:
                                w = not v.value
                            elif isinstance(v.value, int) and not isinstance(v.value, bool):
                                w = v.value + 1 if v.value != 1 else 0
                            elif isinstance(v.value, float):
                                w = v.value * 2
                            elif isinstance(v.value, str) and v.value in STR:
                                w = STR[v.value]
                            if w is not None:
                                out.append((n, fld, i, ast.Constant(w), q + " const %r" % (v.value,)))
                if isinstance(n, ast.Attribute) and n.attr in NAME and isinstance(n.ctx, ast.Load):
                    out.append((n, "attr", None, NAME[n.attr], q + " " + n.attr))
                if isinstance(n, ast.Call):
                    for i, k in enumerate(n.keywords):
                        if k.arg not in (None, "dtype", "label", "title", "color", "alpha", "linestyle"):
                            out.append((n, "keywords", i, None, q + " drop kw " + k.arg))
                    if len(n.args) == 1 and ast.unparse(n.func).endswith("deepcopy"):
                        out.append((n, "WHOLE", None, n.args[0], q + " no copy"))
                    if len(n.args) >= 2 and all(isinstance(x, ast.Name) for x in n.args[:2]):
                        out.append((n, "SWAP", None, None, q + " swap args"))
                for fld in ("body", "orelse"):
                    b = getattr(n, fld, None)
                    if isinstance(b, list) and len(b) > 1:
                        for i, x in enumerate(b):
                            if isinstance(x, (ast.Assign, ast.Expr, ast.AugAssign, ast.If)) and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                                out.append((n, fld, i, "DEL", "%s:%d del" % (f.name, x.lineno)))
        for i, x in enumerate(f.body):
            if isinstance(x, (ast.Assign, ast.Expr, ast.AugAssign, ast.If, ast.Assert)) and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)) and len(f.body) > 1:
                out.append((f, "body", i, "DEL", "%s:%d del" % (f.name, x.lineno)))
    return out


def mutant(src, k):
    tree = ast.parse(src)
    s = sites(tree)
    if k is None:
        return len(s)
    n, fld, i, r, d = s[k]
    if fld == "WHOLE":
        n.func, n.args = ast.Name("(lambda x: x)", ast.Load()), n.args
    elif fld == "SWAP":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif r == "DEL":
        getattr(n, fld)[i] = ast.Pass()
    elif fld == "keywords" and r is None:
        del n.keywords[i]
    elif i is None:
        setattr(n, fld, r)
    else:
        getattr(n, fld)[i] = r
    ast.fix_missing_locations(tree)
    return d, ast.unparse(tree)


def main():
    N, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    only = sys.argv[4:]
    import warnings
    warnings.simplefilter("ignore")
    rnd = random.Random(seed)
    pool = []
    for f in sorted(ORDER):
        if only and f not in only:
            continue
        src = open("/repo/effector/" + f).read()
        for k in range(mutant(src, None)):
            pool.append((f, k))
    print(len(pool), "possible", flush=True)
    rnd.shuffle(pool)
    done = set()
    if os.path.exists(out):
        done = {(json.loads(l)["file"], json.loads(l)["k"]) for l in open(out)}
    n = 0
    for f, k in pool:
        if n >= N:
            break
        n += 1
        if (f, k) in done:
            continue
        src = open("/repo/effector/" + f).read()
        base = ast.unparse(ast.parse(src))
        d, new = mutant(src, k)
        if new == base:
            continue
        w = tempfile.mkdtemp(prefix="mut", dir="/tmp/mut")
        subprocess.run(["cp", "-a", "/repo/effector", w + "/effector"], check=True)
        open(w + "/effector/" + f, "w").write(new)
        try:
            compile(new, f, "exec")
        except SyntaxError:
            shutil.rmtree(w)
            continue
        caught, how = None, ""
        und = []
        for p in ORDER[f]:
            e = dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=w)
            c = subprocess.run([sys.executable, "check.py", p], cwd=HERE, env=e, capture_output=True, text=True)
            if c.returncode == 1:
                caught = p
                break
            und.append(p + ":" + c.stdout.strip().splitlines()[-1].split("undecided")[0].split(",")[-1].strip() if c.stdout.strip() else p + ":?")
        import difflib
        df = [l for l in difflib.unified_diff(base.splitlines(), new.splitlines(), lineterm="", n=0) if l[:1] in "+-" and l[:3] not in ("+++", "---")]
        rec = dict(file=f, k=k, desc=d, caught=caught, diff=df, und=und)
        open(out, "a").write(json.dumps(rec) + "\n")
        print(f, d, "->", caught, flush=True)
        shutil.rmtree(w)


main()
