#!/opt/venv/bin/python
"""Development tool: mutate.py FILE COUNT [SEED] — random small changes of a source file, each judged by the checks that look at
that file; prints the changes no check notices. Works on scratch copies."""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
MAP = {"esat/model/ls_nmf.py": "C02 C01 C07 C04", "esat/model/ws_nmf.py": "C03 C02 C07", "esat/model/sa.py": "C04 C06 C07 C01 C08 C10 C05 C37",
       "esat/model/batch_sa.py": "C09 C10 C08 C37", "esat/model/recombinator.py": "C16", "esat/metrics.py": "C01", "esat/error/bootstrap.py": "C17 C18 C19 C36 C37 C10",
       "esat/error/bs_disp.py": "C22 C36 C37 C10", "esat/error/displacement.py": "C20 C21 C36 C37 C10", "esat/error/error.py": "C36 C35", "esat/data/datahandler.py": "C11 C12 C13 C14 C16 C34",
       "esat/data/analysis.py": "C34", "esat/data/impute.py": "C15", "esat/rotational/constrained.py": "C23 C25 C24 C26 C10", "esat/estimator.py": "C32",
       "esat/utils.py": "C33 C21", "esat/cli/esat_cli.py": "C35", "esat/configs.py": "C35", "eval/simulator.py": "C27 C28", "eval/factor_comparison.py": "C28 C29",
       "eval/factor_catalog.py": "C30", "eval/perturbation.py": "C31", "esat/data/test_tools.py": "C38"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"],
       ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["*"], ast.Pow: ["*"], ast.MatMult: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&"]}
LAYOUT = re.compile(r"update_layout|update_yaxes|update_xaxes|add_annotation|logger\.|print\(|tqdm|add_hline|add_vline|width=|height=|title=|hovertemplate|legend|margin")


def candidates(src):
    tree = ast.parse(src)
    out = []
    lines = src.split("\n")

    def seg(n):
        return (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset)

    def between(a, b, old_words, new):
        """replace the operator between two nodes"""
        s = (a.end_lineno, a.end_col_offset)
        e = (b.lineno, b.col_offset)
        return s, e

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0].value)); skip.add(id(n.body[0]))
        if isinstance(n, ast.Call):
            t = ast.get_source_segment(src, n.func) or ""
            if LAYOUT.search(t + "("):
                for m in ast.walk(n):
                    skip.add(id(m))
        if isinstance(n, ast.FunctionDef):
            for d in n.args.defaults + n.args.kw_defaults + [a.annotation for a in n.args.args if a.annotation] + ([n.returns] if n.returns else []):
                if d is not None and not isinstance(d, ast.Constant):
                    for m in ast.walk(d):
                        skip.add(id(m))
        if isinstance(n, ast.AnnAssign):
            for m in ast.walk(n.annotation):
                skip.add(id(m))
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, "lineno"):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                l, r = ast.get_source_segment(src, n.left), ast.get_source_segment(src, n.comparators[0])
                out.append((seg(n), f"({l}) {o} ({r})", "cmp"))
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                l, r = ast.get_source_segment(src, n.left), ast.get_source_segment(src, n.right)
                if isinstance(n.left, (ast.JoinedStr,)) or (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                    continue
                out.append((seg(n), f"(({l}) {o} ({r}))", "bin"))
        elif isinstance(n, ast.BoolOp):
            o = "or" if isinstance(n.op, ast.And) else "and"
            out.append((seg(n), "(" + f" {o} ".join("(" + ast.get_source_segment(src, v) + ")" for v in n.values) + ")", "bool"))
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                w = "and" if isinstance(n.op, ast.And) else "or"
                out.append((seg(n), "(" + f" {w} ".join("(" + ast.get_source_segment(src, v) + ")" for v in rest) + ")", "boolpart"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            out.append((seg(n), "(" + ast.get_source_segment(src, n.operand) + ")", "unary"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((seg(n), str(not n.value), "const"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            v = n.value
            out.append((seg(n), repr(v + 1 if v == 0 else v + 1), "const"))
            if v:
                out.append((seg(n), repr(0 if isinstance(v, int) else v / 2), "const"))
        elif isinstance(n, (ast.If, ast.IfExp)):
            t = ast.get_source_segment(src, n.test)
            out.append((seg(n.test), f"(not ({t}))", "if"))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((seg(n), "pass", "delcall"))
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            tg = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(tg, (ast.Attribute, ast.Subscript)) or isinstance(n, ast.AugAssign):
                out.append((seg(n), "pass", "delassign"))
            elif isinstance(n, ast.Assign):
                out.append((seg(n), "pass", "delassign"))
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and not isinstance(n.func, ast.Name) or (k.arg and isinstance(n.func, ast.Name)):
                    t = ast.get_source_segment(src, n)
                    ks = ast.get_source_segment(src, k.value)
                    if not ks:
                        continue
                    args = [ast.get_source_segment(src, a) for a in n.args] + [f"{q.arg}={ast.get_source_segment(src, q.value)}" if q.arg else "**" + ast.get_source_segment(src, q.value)
                                                                              for q in n.keywords if q is not k]
                    if LAYOUT.search(f"{k.arg}=") or k.arg in ("marker", "marker_color", "line", "fill", "mode", "opacity", "hoverinfo", "textinfo", "desc", "colorscale", "showlegend", "rows", "cols",
                                                                "shared_xaxes", "vertical_spacing", "row_heights", "specs", "position", "leave", "secondary_y", "marker_line_color", "marker_line_width"):
                        continue
                    out.append((seg(n), ast.get_source_segment(src, n.func) + "(" + ", ".join(args) + ")", "dropkw"))
        elif isinstance(n, (ast.Continue,)):
            out.append((seg(n), "break", "loop"))
        elif isinstance(n, ast.Break):
            out.append((seg(n), "continue", "loop"))
    return [c for c in out if c[1] is not None and not LAYOUT.search(lines[c[0][0] - 1])]


def apply(src, seg, new):
    b = src.split("\n")
    l0, c0, l1, c1 = seg
    head = b[l0 - 1].encode()[:c0].decode()
    tail = b[l1 - 1].encode()[c1:].decode()
    return "\n".join(b[:l0 - 1] + [head + new + tail] + b[l1:])


def run(cmd, env, timeout):
    e = dict(os.environ); e.update(env)
    p = subprocess.Popen(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, cwd=VERIF)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return 124, "timeout"


def main():
    f, count = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    workers = int(os.environ.get("MUT_JOBS", "7"))
    checks = os.environ.get("MUT_CHECKS", MAP[f]).split()
    only = os.environ.get("MUT_LINES")
    src = open("/repo/" + f, newline="").read()
    crlf = "\r\n" in src
    src = src.replace("\r\n", "\n")
    c = candidates(src)
    if only:
        a, b = map(int, only.split("-"))
        c = [x for x in c if a <= x[0][0] <= b]
    good = []
    for x in c:
        try:
            t = apply(src, x[0], x[1])
            if ast.dump(ast.parse(t)) != ast.dump(ast.parse(src)):
                good.append(x)
        except SyntaxError:
            pass
    random.Random(seed).shuffle(good)
    todo = good[:count]
    print(f"{f}: {len(good)} candidates, {len(todo)} tried", flush=True)
    q = Queue()
    base = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    for i in range(workers):
        r = f"{base}/w{i}"
        os.mkdir(r)
        for d in ("esat", "eval", "data"):
            shutil.copytree(f"/repo/{d}", f"{r}/{d}", ignore=shutil.ignore_patterns("__pycache__", "output"))
        q.put(r)
    stats = {"caught": 0, "survived": 0}

    def one(x):
        r = q.get()
        try:
            t = apply(src, x[0], x[1])
            open(f"{r}/{f}", "w", newline="").write(t.replace("\n", "\r\n") if crlf else t)
            why = None
            for ch in checks:
                rc, o = run([PY, "check.py", ch, "--tier", "quick", "--no-evidence", "--jobs", "1", "--scale", os.environ.get("MUT_SCALE", "0.5")], {"VERIF_REPO": r}, 600)
                if rc == 124:
                    print(f"TIMEOUT {f}:{x[0][0]} {ch} {x[1][:150]}", flush=True)
                if rc != 0:
                    why = f"{ch} rc={rc}"
                    break
            if why:
                stats["caught"] += 1
            else:
                stats["survived"] += 1
                l = x[0][0]
                old = "\n".join(src.split("\n")[l - 1:x[0][2]]).strip()
                print(f"SURVIVED {f}:{l} [{x[2]}]\n   - {old[:230]}\n   + {x[1][:230]}", flush=True)
        finally:
            open(f"{r}/{f}", "w", newline="").write(src.replace("\n", "\r\n") if crlf else src)
            q.put(r)
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, todo))
    print(f, stats, flush=True)
    shutil.rmtree(base)


main()
