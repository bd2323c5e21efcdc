"""Runs one property: shards of seeded Hypothesis search, evidence, replay files, known findings."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import tempfile
import time
import traceback
import zlib

from . import env

RESULT_OK, RESULT_VIOLATION, RESULT_ERROR = 0, 1, 2
# multiple of the sub-checks' quick case counts; by the time they take, so that every quick check stays well below a minute
QUICK = {**dict.fromkeys(["C06", "C08", "C16", "C23", "C24", "C27", "C29", "C33", "C38"], 6),
         **dict.fromkeys(["C05", "C07", "C11", "C13", "C14", "C15", "C30", "C32"], 4), "C01": 3, "C02": 3, "C10": 3, "C25": 4,
         **dict.fromkeys(["C09", "C20", "C22", "C35"], 1.5)}


def load_prop(pid):
    mod = importlib.import_module(f"pbt.props.{pid.lower()}")
    return mod.PROP


def known_findings(pid):
    path = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == pid]


def _run_case(sub, case):
    """Run one case. Returns ("ok"|"violation"|"known"|"error", ctx, message)."""
    from .core import Ctx, Violation, KnownFinding
    ctx = Ctx()
    try:
        sub.check(case, ctx)
        return "ok", ctx, None
    except Violation as ex:
        return "violation", ctx, str(ex)
    except KnownFinding as ex:
        return "known", ctx, ex.kid
    except (MemoryError, KeyboardInterrupt, env.HarnessError) as ex:
        return "error", ctx, f"{type(ex).__name__}: {ex}"
    except OSError as ex:
        if ex.errno in (28, 12, 24):
            return "error", ctx, f"{type(ex).__name__}: {ex}"
        return "violation", ctx, _crash(ex)
    except Exception as ex:
        mod = type(ex).__module__ or ""
        if mod.startswith("hypothesis"):
            raise
        return "violation", ctx, _crash(ex)


def _crash(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    in_repo = [f for f in tb if f.filename.startswith(env.REPO + os.sep)]
    where = in_repo[-1] if in_repo else tb[-1]
    kind = "the code under test raised" if in_repo else "the result could not be interpreted:"
    return f"{kind} {type(ex).__name__}: {ex} (at {os.path.basename(where.filename)}:{where.lineno})"


class _Found(Exception):
    pass


def _worker(prop, sub_index, n, seed, deadline, out_path):
    """Search one sub-check with one seed; appends JSON lines to out_path."""
    sub = prop.subs[sub_index]
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    out = open(out_path, "a", buffering=1)

    def emit(kind, **kw):
        kw["kind"] = kind
        out.write(json.dumps(kw) + "\n")
        out.flush()

    from hypothesis import HealthCheck, Phase, given, seed as hseed, settings
    try:
        # Hypothesis re-uses parts of earlier cases for up to half of the new ones; with at most a few hundred cases per
        # shard, independent draws cover far more classes.
        import hypothesis.internal.conjecture.engine as _engine
        _engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    except Exception:  # noqa  (only the distribution of cases depends on it)
        pass
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    stats = {"evaluations": 0, "skipped_time": 0, "labels": {}, "known": {}}
    digests = set()
    samples = []
    state = {"failing": False}
    from .core import digest

    def body(case):
        if time.time() > deadline and not state["failing"]:
            stats["skipped_time"] += 1
            return
        res, ctx, msg = _run_case(sub, case)
        if res == "error":
            emit("error", message=msg)
            os._exit(3)
        if not state["failing"]:
            stats["evaluations"] += 1
            for l in ctx.labels:
                stats["labels"][l] = stats["labels"].get(l, 0) + 1
            if res == "known":
                stats["known"][msg] = stats["known"].get(msg, 0) + 1
            if ctx.is_nontrivial and res == "ok":
                d = digest(case)
                if d not in digests:
                    digests.add(d)
                    if len(samples) < 2:
                        samples.append({"sub": sub.name, "case": case, "note": ctx.note})
        if res == "violation":
            state["failing"] = True
            emit("failing", sub=sub.name, case=case, message=msg)
            raise _Found(msg)

    try:
        st = settings(max_examples=max(1, n), database=None, deadline=None, derandomize=False, print_blob=False,
                      suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                      phases=(Phase.explicit, Phase.generate, Phase.shrink))
        test = hseed(seed)(st(given(sub.strategy())(body)))
        try:
            test()
        except _Found:
            pass
    except BaseException as ex:  # noqa
        if not state["failing"]:
            emit("error", message="".join(traceback.format_exception(ex))[-3000:])
            os._exit(3)
    emit("stats", stats=stats, digests=sorted(digests), samples=samples)
    out.close()
    os._exit(0)


def _kill(p):
    """End a shard together with the processes it started."""
    import signal
    try:
        if os.getpgid(p.pid) == p.pid:
            os.killpg(p.pid, signal.SIGKILL)
            return
    except OSError:
        pass
    p.kill()


def _run_pool(tasks, jobs, prop, deadline, shrink_s):
    """tasks: list of (sub_index, n, seed). Runs them on `jobs` processes. Returns list of records."""
    ctx = mp.get_context("fork")
    tmp = tempfile.mkdtemp(prefix="verif-")
    pending = list(enumerate(tasks))
    running = {}
    records = []
    first_fail = None
    try:
        while pending or running:
            while pending and len(running) < jobs and first_fail is None:
                i, (si, n, seed) = pending.pop(0)
                path = os.path.join(tmp, f"{i}.jsonl")
                open(path, "w").close()
                p = ctx.Process(target=_worker, args=(prop, si, n, seed, deadline, path))
                p.start()
                running[p] = (i, path)
            time.sleep(0.02)
            for p, (i, path) in list(running.items()):
                if not p.is_alive():
                    p.join()
                    del running[p]
                    recs = _read(path)
                    if p.exitcode != 0 and not any(r["kind"] in ("error", "failing") for r in recs):
                        recs.append({"kind": "error", "message": f"worker exited with {p.exitcode}"})
                    records.append((i, recs))
                    if any(r["kind"] == "failing" for r in recs) and first_fail is None:
                        first_fail = time.time()
                elif first_fail is None and os.path.getsize(path) and any(r["kind"] == "failing" for r in _read(path)):
                    first_fail = time.time()
            if first_fail is not None and time.time() - first_fail > shrink_s:
                for p, (i, path) in list(running.items()):
                    _kill(p)
                    p.join()
                    records.append((i, _read(path)))
                running = {}
            if first_fail is not None:
                pending = []
                # a shard that has not failed yet is of no interest once another one did
                for p, (i, path) in list(running.items()):
                    if not any(r["kind"] == "failing" for r in _read(path)):
                        _kill(p)
                        p.join()
                        records.append((i, _read(path)))
                        del running[p]
    finally:
        for p in running:
            _kill(p)
            p.join()
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    return [r for _, recs in sorted(records, key=lambda t: t[0]) for r in recs]


def _read(path):
    recs = []
    with open(path) as f:
        for line in f:
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
    return recs


def write_replay(pid, rec):
    d = os.path.join(env.VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    name = f"{pid}-{rec['sub']}-{zlib.crc32(json.dumps(rec['case'], sort_keys=True).encode()):08x}.json"
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump({"property": pid, "sub": rec["sub"], "message": rec["message"], "case": rec["case"],
                   "how": f"python check.py {pid} --replay {path}"}, f, indent=1)
    return path


def _isolated(prop, sub, case):
    """Run one case in a forked child (so that it cannot disturb this process)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("VERIF_DEBUG"):
            os.dup2(devnull, 2)
        try:
            res, ctx, msg = _run_case(sub, case)
            payload = json.dumps({"res": res, "msg": msg, "nontrivial": ctx.is_nontrivial, "labels": ctx.labels})
        except BaseException as ex:  # noqa
            payload = json.dumps({"res": "error", "msg": repr(ex), "nontrivial": False, "labels": []})
        os.write(w, payload.encode())
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        chunk = os.read(r, 65536)
        if not chunk:
            break
        data += chunk
    os.close(r)
    os.waitpid(pid, 0)
    if not data:
        return {"res": "error", "msg": "child died", "nontrivial": False, "labels": []}
    return json.loads(data)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VERIF_SCALE", "1")))
    ap.add_argument("--sub", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    try:
        env.bootstrap()
        prop = load_prop(a.pid)
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        if not isinstance(ex, env.HarnessError) and any(f.filename.startswith(env.REPO + os.sep) for f in tb):
            # importing the code under test failed
            d = write_replay(a.pid, {"sub": "import", "case": {}, "message": repr(ex)})
            print(f"import of the code under test failed: {ex!r}")
            print(f"VIOLATION property={a.pid} replay={d}")
            return RESULT_VIOLATION
        traceback.print_exc()
        return RESULT_ERROR

    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        if rec["sub"] == "import":
            print("imports succeed now")
            return 0
        sub = next(s for s in prop.subs if s.name == rec["sub"])
        r = _isolated(prop, sub, rec["case"])
        print(r)
        if r["res"] == "violation":
            print(f"VIOLATION property={a.pid} replay={a.replay}")
            return RESULT_VIOLATION
        return RESULT_OK if r["res"] in ("ok", "known") else RESULT_ERROR

    jobs = a.jobs or min(prop.jobs, os.cpu_count() or 1)
    subs = [s for s in prop.subs if a.sub in (None, s.name)]
    budget = 420 if a.tier == "quick" else 3 * 3600
    deadline = t0 + budget

    # 1. regression cases (plain replay of saved inputs), in-process isolated
    failing = None
    errors = []
    regress_n = 0
    labels = {}
    known_hit = {}
    for s in subs:
        for case in s.regress:
            regress_n += 1
            r = _isolated(prop, s, case)
            if r["res"] == "violation" and failing is None:
                failing = {"sub": s.name, "case": case, "message": r["msg"]}
            elif r["res"] == "error":
                errors.append(r["msg"])
            elif r["res"] == "known":
                known_hit[r["msg"]] = known_hit.get(r["msg"], 0) + 1

    # 2. seeded search, sharded
    recs = []
    if failing is None and not errors:
        tasks = []
        for si, s in enumerate(prop.subs):
            if s not in subs:
                continue
            total = int(max(1, round((s.quick * QUICK.get(a.pid, 2) if a.tier == "quick" else s.thorough) * a.scale)))
            shards = min(jobs, total)
            for k in range(shards):
                n = total // shards + (1 if k < total % shards else 0)
                seed = zlib.crc32(f"{a.seed}/{a.pid}/{s.name}/{k}".encode())
                tasks.append((si, n, seed))
        recs = _run_pool(tasks, jobs, prop, deadline, shrink_s=120)
    stats = {"evaluations": regress_n, "skipped_time": 0}
    per_sub = {}
    digests = set()
    samples = []
    for r in recs:
        if r["kind"] == "error":
            errors.append(r["message"])
        elif r["kind"] == "failing":
            # the last record of a shard is its smallest failure; prefer the smallest over all shards
            size = len(json.dumps(r["case"]))
            if failing is None or size < len(json.dumps(failing["case"])):
                failing = r
        elif r["kind"] == "stats":
            stats["evaluations"] += r["stats"]["evaluations"]
            stats["skipped_time"] += r["stats"]["skipped_time"]
            for l, c in r["stats"]["labels"].items():
                labels[l] = labels.get(l, 0) + c
            for k, c in r["stats"]["known"].items():
                known_hit[k] = known_hit.get(k, 0) + c
            for sm in r["samples"]:
                per_sub.setdefault(sm["sub"], 0)
                if per_sub[sm["sub"]] < 2:
                    per_sub[sm["sub"]] += 1
                    samples.append(sm)
            digests.update(r["digests"])

    # 3. known findings: each listed one is re-demonstrated from its saved input
    listed = {k["id"]: k for k in known_findings(a.pid)}
    for kid in known_hit:
        if kid not in listed and failing is None:
            failing = {"sub": "known", "case": {}, "message": f"deviation {kid} is not a listed finding"}
    for kid, k in listed.items():
        still = kid in known_hit
        if not still and k.get("sub") and k.get("case") is not None:
            s = next((s for s in prop.subs if s.name == k["sub"]), None)
            if s is not None:
                r = _isolated(prop, s, k["case"])
                still = r["res"] == "known" and r["msg"] == kid
        if still:
            print(f"KNOWN-FINDING: property={a.pid} {k['id']}: {k['what']}")

    wall = time.time() - t0
    rule = "; ".join(f"[{s.name}] {s.rule}" for s in subs)
    ev = {"property": a.pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": stats["evaluations"], "distinct_nontrivial": len(digests), "rule": rule,
                       "samples": _trim(samples), "labels": dict(sorted(labels.items())),
                       "regression_cases": regress_n, "cases_not_run_time_budget": stats["skipped_time"],
                       "known_finding_cases": known_hit, "sub_checks": [s.name for s in subs]},
          "assumptions": prop.assumptions, "wall_s": round(wall, 2), "violations": 1 if failing else 0}
    if not a.no_evidence:
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(env.VERIF, "evidence", f"{a.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    if a.verbose:
        print(json.dumps(ev["coverage"]["labels"], indent=1))
    print(f"{a.pid} {a.tier} seed={a.seed}: {stats['evaluations']} cases, {len(digests)} distinct non-trivial, "
          f"{wall:.1f}s")
    if failing is not None:
        path = write_replay(a.pid, failing)
        print(f"  sub-check {failing['sub']}: {failing['message']}")
        print(f"VIOLATION property={a.pid} replay={path}")
        return RESULT_VIOLATION
    if errors:
        print("harness error:", errors[0])
        return RESULT_ERROR
    return RESULT_OK


def _trim(samples, limit=4000):
    out = []
    for s in samples:
        t = json.dumps(s)
        if len(t) > limit:
            s = {"sub": s["sub"], "case_json_prefix": json.dumps(s["case"])[:limit], "note": s["note"]}
        out.append(s)
    return out
