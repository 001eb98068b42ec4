"""Command line driver of the checks (see ../check)."""
import argparse
import concurrent.futures
import importlib
import json
import os
import subprocess
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import boot  # noqa: E402

VERIF = boot.VERIF
LEVEL = "exploration"


def load(prop):
    mod = importlib.import_module("pbt.checks." + prop.lower())
    return mod


def corpus_for(prop, sub):
    d = os.path.join(VERIF, "corpus", prop)
    out = []
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith(".json"):
                with open(os.path.join(d, f)) as fh:
                    j = json.load(fh)
                if j["sub"] == sub:
                    out.append(j["case"])
    return out


def orphan_watch(parent):
    """Ends a worker whose parent has gone."""
    while os.getppid() == parent:
        time.sleep(1.0)
    os._exit(3)


def worker(args):
    threading.Thread(target=orphan_watch, args=(os.getppid(), ), daemon=True).start()
    boot.setup_path()
    from pbt import core
    prop, sub_name, shard, seed, tier, budget, out = args
    mod = load(prop)
    sub = next(s for s in mod.SUBS if s.name == sub_name)
    try:
        res = core.run_sub(prop, sub, int(shard), int(seed), tier, float(budget), corpus_for(prop, sub_name))
    except BaseException:  # pylint: disable=broad-except
        res = {"error": traceback.format_exc(), "sub": sub_name, "shard": int(shard)}
    with open(out, "w") as f:
        json.dump(res, f)


def known_findings(prop):
    """finding lines of this property: 'finding: property=<id> case=<hash of sub+case> <what fails>'."""
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("finding: ") and f"property={prop} " in line:
                    out.append(line.strip())
    return out


def do_replay(prop, path):
    boot.setup_path()
    from pbt import core
    with open(path) as f:
        j = json.load(f)
    mod = load(j["property"])
    sub = next(s for s in mod.SUBS if s.name == j["sub"])
    try:
        core.run_case(sub, core.jsonable(j["case"]), core.Rec())
    except core.Violation as v:
        print(f"VIOLATION property={j['property']} replay={path}")
        print(v)
        return 1
    except core.Skip as s:
        print("case is outside the property's domain:", s)
        return 0
    print("the case passes")
    return 0


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--worker":
        worker(sys.argv[2:])
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--sub")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.setup:
        boot.ensure_deps()
        print("deps:", boot.ensure_deps())
        return 0
    if a.replay:
        return do_replay(a.prop, a.replay)
    tier = a.tier or (os.environ.get("VERIF_TIER") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    prop = a.prop.upper()
    t0 = time.monotonic()
    boot.setup_path()
    mod = load(prop)
    budget = 420 if tier == "quick" else 5400
    jobs = []
    tmp = os.path.join(VERIF, "replays", f".run-{prop}-{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    for s in mod.SUBS:
        if a.sub and s.name != a.sub:
            continue
        for sh in range(s.shards):
            out = os.path.join(tmp, f"{s.name}-{sh}.json")
            jobs.append((s, [prop, s.name, str(sh), str(seed), tier, str(budget), out]))

    def launch(job):
        s, args = job
        try:
            p = subprocess.run([sys.executable, "-B", os.path.abspath(__file__), "--worker"] + args, capture_output=True, text=True, timeout=2 * budget)
        except subprocess.TimeoutExpired:
            return {"error": f"worker did not end within {2 * budget} s", "sub": s.name}
        try:
            with open(args[-1]) as f:
                r = json.load(f)
        except Exception:  # pylint: disable=broad-except
            r = {"error": f"worker ended with {p.returncode}\n{p.stdout[-2000:]}\n{p.stderr[-4000:]}", "sub": s.name}
        r["wall"] = time.monotonic() - t0
        return r

    with concurrent.futures.ThreadPoolExecutor(max(1, a.jobs)) as ex:
        results = list(ex.map(launch, jobs))
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)

    errors = [r for r in results if "error" in r]
    good = [r for r in results if "error" not in r]
    viol = [r for r in good if r["violation"]]
    subs = {}
    allhash = set()
    samples = []
    for r in good:
        d = subs.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": 0, "skipped": 0, "slow": 0, "labels": {}, "rule": r["rule"], "truncated": False})
        d["evaluations"] += r["evaluations"]
        d["skipped"] += r["skipped"]
        d["slow"] += r["slow"]
        d["truncated"] |= r["truncated"]
        new = {r["sub"] + h for h in r["hashes"]} - allhash
        d["distinct_nontrivial"] += len(new)
        allhash |= new
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        if r["samples"] and len([s for s in samples if s["sub"] == r["sub"]]) < 2:
            samples += [{"sub": r["sub"], "case": c} for c in r["samples"][-2:]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in subs.values()),
            "distinct_nontrivial": len(allhash),
            "rule": " | ".join(f"{k}: {d['rule']}" for k, d in subs.items()),
            "samples": samples,
            "per_sub": subs,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for line in known_findings(prop):
        print("KNOWN-FINDING: " + line[len("finding: "):])
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for r in viol:
        v = r["violation"]
        path = os.path.join(VERIF, "replays", f"{prop}-{r['sub']}-{r['shard']}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "sub": r["sub"], "case": v["case"], "message": v["message"]}, f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  [{r['sub']}] {v['message']}")
        print("  case:", json.dumps(v["case"])[:1500])
    for r in errors:
        print(f"ERROR in {r.get('sub')}: {r['error']}", file=sys.stderr)
    tot = ev["coverage"]
    print(f"{prop} {tier} seed={seed}: {tot['evaluations']} cases, {tot['distinct_nontrivial']} distinct non-trivial, "
          f"{len(viol)} violations, {len(errors)} errors, {ev['wall_s']} s")
    if viol:
        return 1
    if errors:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
