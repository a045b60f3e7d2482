"""Run the check of one property: corpus replay, then generated search in parallel workers."""

from . import boot  # noqa: F401  (must be first)

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from collections import Counter

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

from .core import Violation

HANG_S = 120  # a single case normally takes milliseconds
SHRINK_S = {"quick": 20, "thorough": 120}
BUDGET_S = {"quick": 300, "thorough": 6 * 3600}


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def norm(case):
    return json.loads(json.dumps(case))


def run_case(mod, case):
    """Run one case. Return its labels; raise Violation if the property does not hold."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HANG_S)
    try:
        return mod.check(case) or {}
    except Violation:
        raise
    except Hang:
        raise Violation(f"no result within {HANG_S} s")
    except Exception:
        raise Violation("unexpected exception:\n" + traceback.format_exc(limit=-12))
    finally:
        signal.alarm(0)


def worker(modname, wid, n, seed, tier, deadline, stop, outfile):
    mod = importlib.import_module(modname)
    import random

    random.seed(seed)
    out = {
        "evaluations": 0,
        "nontrivial": [],
        "classes": {},
        "samples": [],
        "violation": None,
        "error": None,
        "out_of_time": False,
    }
    classes = Counter()
    seen = set()
    nontriv = set()
    best = {"size": None, "case": None, "msg": None, "t": None}
    os.makedirs(os.path.join(boot.SCRATCH, f"w{wid}"), exist_ok=True)
    os.chdir(os.path.join(boot.SCRATCH, f"w{wid}"))

    def body(case):
        now = time.time()
        if best["t"] is None:
            if stop.is_set():
                return
            if now > deadline:
                out["out_of_time"] = True
                return
        elif now - best["t"] > SHRINK_S[tier]:
            return
        case = norm(case)
        text = json.dumps(case, sort_keys=True)
        if best["t"] is None:
            out["evaluations"] += 1
        try:
            labels = run_case(mod, case)
        except Violation as v:
            size = (len(text), text)
            if best["size"] is None or size < best["size"]:
                best.update(size=size, case=case, msg=str(v))
            if best["t"] is None:
                best["t"] = now
                stop.set()
            if str(v).startswith("no result within"):
                best["t"] = 0  # never shrink a hang
            raise
        if best["t"] is None:
            h = hashlib.sha1(text.encode()).hexdigest()[:16]
            if h not in seen:
                seen.add(h)
                for k, val in labels.items():
                    if k != "nontrivial":
                        classes[k] += int(val)
                if labels.get("nontrivial"):
                    nontriv.add(h)
                    if len(out["samples"]) < 2 and len(text) < 4000 and len(nontriv) % 7 == 3:
                        out["samples"].append(case)

    test = given(mod.cases(tier))(body)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        with boot.silenced():
            test()
    except BaseException:
        if best["case"] is None:
            out["error"] = traceback.format_exc()
    if best["case"] is not None:
        out["violation"] = {"case": best["case"], "msg": best["msg"]}
    out["classes"] = dict(classes)
    out["nontrivial"] = sorted(nontriv)
    with open(outfile, "w") as f:
        json.dump(out, f)


def write_evidence(pid, mod, tier, seed, t0, ev):
    path = os.path.join(boot.VERIF, "evidence", f"{pid}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    data = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev["evaluations"],
            "distinct_nontrivial": len(ev["nontrivial"]),
            "rule": mod.RULE,
            "samples": ev["samples"][:6],
            "corpus_cases_replayed": ev["corpus"],
            "classes": ev["classes"],
            "completed_planned_cases": not ev["out_of_time"],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": ev["violations"],
    }
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(data, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, path)


def known_findings(pid):
    """Return {sha1 of canonical case text: description} of the recorded, unrepaired findings of this property."""
    known = {}
    path = os.path.join(boot.VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f"known: property={pid} "):
                rest = line.split(" ", 3)
                known[rest[2].split("=", 1)[1]] = rest[3].strip()
    return known


def report(pid, violation):
    text = json.dumps(violation["case"], sort_keys=True)
    h = hashlib.sha1(text.encode()).hexdigest()[:12]
    path = os.path.join(boot.VERIF, "replays", f"{pid}-{h}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump({"property": pid, "message": violation["msg"], "case": violation["case"]}, f, indent=1)
    print(f"{pid}: {violation['msg']}")
    print("case: " + text[:3000])
    print(f"VIOLATION property={pid} replay={path}")
    sys.stdout.flush()


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay", help="re-run one saved case without any generator")
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--scale", type=float, default=1.0, help="multiply the number of cases")
    a = ap.parse_args(argv)
    pid = a.property
    t0 = time.time()
    modname = f"pbt.props.{pid.lower()}"
    mod = importlib.import_module(modname)

    if a.replay:
        data = json.load(open(a.replay))
        case = data.get("case", data)
        os.chdir(boot.SCRATCH)
        try:
            with boot.silenced():
                run_case(mod, case)
        except Violation as v:
            print(f"{pid}: {v}")
            print(f"VIOLATION property={pid} replay={os.path.abspath(a.replay)}")
            return 1
        print(f"{pid}: holds for {a.replay}")
        return 0

    ev = {
        "evaluations": 0,
        "nontrivial": set(),
        "classes": Counter(),
        "samples": [],
        "violations": 0,
        "corpus": 0,
        "out_of_time": False,
    }
    violation = None

    # replay tier: minimised inputs of repaired defects and of bugs planted while building the checks
    cdir = os.path.join(boot.VERIF, "corpus", pid)
    cwd = os.getcwd()
    os.chdir(boot.SCRATCH)
    if os.path.isdir(cdir):
        for name in sorted(os.listdir(cdir)):
            data = json.load(open(os.path.join(cdir, name)))
            case = norm(data.get("case", data))
            ev["corpus"] += 1
            try:
                with boot.silenced():
                    run_case(mod, case)
            except Violation as v:
                violation = {"case": case, "msg": f"[corpus {name}] {v}"}
                break
    os.chdir(cwd)

    errors = []
    if violation is None:
        n_total = int(mod.N[a.tier] * a.scale)
        nw = max(1, min(a.workers, n_total))
        ctx = mp.get_context("fork")
        stop = ctx.Event()
        procs, files = [], []
        deadline = t0 + BUDGET_S[a.tier]
        for w in range(nw):
            f = os.path.join(boot.SCRATCH, f"out{w}.json")
            s = int.from_bytes(hashlib.sha256(f"{pid}/{a.seed}/{w}/{a.tier}".encode()).digest()[:8], "big")
            n = n_total // nw + (1 if w < n_total % nw else 0)
            p = ctx.Process(target=worker, args=(modname, w, n, s, a.tier, deadline, stop, f))
            p.start()
            procs.append(p)
            files.append(f)
        hard = deadline + HANG_S + SHRINK_S[a.tier] + 60
        for p in procs:
            p.join(max(1, hard - time.time()))
            if p.is_alive():
                p.kill()
                p.join()
        for w, f in enumerate(files):
            if not os.path.exists(f):
                errors.append(f"worker {w} ended with exit code {procs[w].exitcode} and no result")
                continue
            o = json.load(open(f))
            ev["evaluations"] += o["evaluations"]
            ev["nontrivial"].update(o["nontrivial"])
            ev["classes"].update(o["classes"])
            ev["samples"].extend(o["samples"][:1])
            ev["out_of_time"] |= o["out_of_time"]
            if o["error"]:
                errors.append(o["error"])
            if o["violation"]:
                v = o["violation"]
                if violation is None or len(json.dumps(v["case"])) < len(json.dumps(violation["case"])):
                    violation = v

    ev["classes"] = dict(sorted(ev["classes"].items()))
    known = known_findings(pid)
    if violation is not None:
        h = hashlib.sha1(json.dumps(violation["case"], sort_keys=True).encode()).hexdigest()
        if h in known:
            violation = None
    for desc in known.values():
        print(f"KNOWN-FINDING: property={pid} {desc}")
    ev["violations"] = 1 if violation else 0
    write_evidence(pid, mod, a.tier, a.seed, t0, ev)
    if violation is not None:
        report(pid, violation)
        return 1
    if errors:
        print(f"{pid}: harness error\n" + "\n".join(errors), file=sys.stderr)
        return 2
    print(
        f"{pid}: held on {ev['evaluations']} generated cases ({len(ev['nontrivial'])} distinct non-trivial) and "
        f"{ev['corpus']} saved cases, {time.time() - t0:.1f} s"
    )
    return 0


if __name__ == "__main__":
    sys.exit(main())
