#!/opt/venv/bin/python
"""Development tool: plant.py SPEC.py [ID...]  builds /verif/seeded/<id>/ from a spec, confirms it in a scratch copy and says
whether the property's check catches it. SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)].
"""
import json, os, runpy, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PRE = '''import os, sys, warnings, types, importlib.machinery, tempfile, copy
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"): os.environ[k] = "1"
os.environ["TQDM_DISABLE"] = "1"
warnings.simplefilter("ignore")
pkg = types.ModuleType("esat_eval"); pkg.__path__ = [os.path.join(os.getcwd(), "eval")]
pkg.__spec__ = importlib.machinery.ModuleSpec("esat_eval", None, is_package=True); sys.modules["esat_eval"] = pkg
stub = types.ModuleType("esat_rust"); stub.clear_screen = lambda *a, **k: None
sys.modules["esat_rust"] = stub
import esat.model.sa, esat.model.batch_sa, esat.error.bs_disp
sys.modules["esat_rust"] = None
import logging; logging.disable(logging.CRITICAL)
import numpy as np, pandas as pd
np.seterr(all="ignore")
import plotly.graph_objects as go
SHOWN = []
go.Figure.show = lambda self, *a, **k: SHOWN.append(self)


def need(ok, msg="property broken"):
    if not ok:
        print("FAIL:", msg); sys.exit(1)


'''
SH = '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return r.returncode, r.stdout + r.stderr


def one(b):
    t = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    out = []
    try:
        R = os.path.join(t, "repo")
        sh(f"cp -a /repo {R}")
        # demo on the clean tree
        D = os.path.join(t, "demo"); os.mkdir(D)
        open(os.path.join(D, "demo.py"), "w").write(PRE + b["demo"])
        open(os.path.join(D, "demo.sh"), "w").write(SH); os.chmod(os.path.join(D, "demo.sh"), 0o755)
        rc, o = sh(f"bash {D}/demo.sh", cwd=R, timeout=300)
        if rc != 0:
            return b["id"], "DEMO-FAILS-ON-CLEAN", o[-1500:]
        for f, old, new in b["edits"]:
            p = os.path.join(R, f)
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            s = s.replace("\r\n", "\n")
            if s.count(old) != 1:
                return b["id"], "EDIT-MISMATCH", f"{f}: {s.count(old)} occurrences of {old!r}"
            s = s.replace(old, new)
            open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
        rc, diff = sh("git diff", cwd=R)
        base = {}
        for f, _, _ in b["edits"]:
            base[f] = set(x.rstrip("\r") for x in sh(f"git show 0e140d9:{f}", cwd=R)[1].split("\n"))
        d = subprocess.run("git diff", shell=True, cwd=R, capture_output=True).stdout
        cur = None
        for line in d.decode().split("\n"):
            line = line.rstrip("\r")
            if line.startswith("+++ "):
                cur = line[6:]
            elif line.startswith("-") and not line.startswith("---") and line[1:] not in base[cur]:
                out.append(f"note: changes a line that is not original: {line}")
        rc, o = sh(f"bash {D}/demo.sh", cwd=R, timeout=300)
        if rc == 0:
            return b["id"], "DEMO-PASSES-WITH-BUG", o[-800:]
        demo_msg = o.strip().split("\n")[-1][:150]
        S = os.path.join(VERIF, "seeded", b["id"])
        # tests
        ign = " ".join("--ignore=tests/" + x for x in ("cli/test_cli.py", "error/test_bootstrap.py", "error/test_displacement.py",
              "eval/test_perturbation.py", "model/test_batchsa.py", "rotational/test_constrained.py"))
        x = os.path.join(t, "junit.xml")
        sh(f"{PY} -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml={x} tests {ign}",
           cwd=R, env={"PYTHONPATH": R, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"})
        sh(f"python3 /opt/vp/results.py {t}/res.json junit:{x}")
        want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        got = json.load(open(f"{t}/res.json"))["passed"]
        miss = [w for w in want if w not in got]
        if miss:
            return b["id"], "BREAKS-TESTS", str(miss)
        os.makedirs(S, exist_ok=True)
        open(os.path.join(S, "patch.diff"), "wb").write(d)
        shutil.copy(os.path.join(D, "demo.py"), S); shutil.copy(os.path.join(D, "demo.sh"), S)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(S, "meta.json"), "w"), indent=1)
        t0 = time.time()
        rc, o = sh(f"{PY} check.py {b['property']} --tier quick --no-evidence", cwd=VERIF, env={"VERIF_REPO": R, "VERIF_SEED": "1"})
        line = [l for l in o.split("\n") if "sub-check" in l]
        st = {0: "MISSED", 1: "caught"}.get(rc, f"ERROR {rc}")
        return b["id"], f"{st} ({time.time() - t0:.0f}s)", "; ".join(out) + " | demo: " + demo_msg + " | " + (line[0].strip()[:170] if line else o[-600:] if rc not in (0, 1) else "")
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    sel = sys.argv[2:]
    bugs = [b for b in bugs if not sel or b["id"] in sel]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(one, bugs):
            print(*r, sep="\n    ")
            sys.stdout.flush()
