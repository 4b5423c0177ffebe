"""catch.py [ID ...]: run the quick check of each planted bug's property against a scratch copy with the bug applied."""
import glob, json, os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob(HERE + "/seeded/*"))
for i in ids:
    d = os.path.join(HERE, "seeded", i)
    p = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="catch")
    subprocess.run(["cp", "-a", "/repo/effector", w + "/effector"], check=True)
    subprocess.run(["git", "init", "-q"], cwd=w)
    r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w, capture_output=True, text=True)
    if r.returncode:
        print(i, "patch does not apply", r.stderr[-200:])
        continue
    e = dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=w)
    c = subprocess.run([sys.executable, "check.py", p, "--tier", "quick"], cwd=HERE, env=e, capture_output=True, text=True)
    v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
    print("%-34s %s exit %d  %s  %s" % (i, p, c.returncode, "CAUGHT" if c.returncode == 1 and v else "MISSED", "; ".join(x.strip() for x in c.stdout.splitlines()[-1:])[:160]), flush=True)
    shutil.rmtree(w)
