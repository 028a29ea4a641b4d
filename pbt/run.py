"""Parent / worker / replay entry point."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("OE_REPO", "/repo")


def load(pid):
    import core  # noqa: F401  (sets up sys.path)
    import opt_einsum

    f = os.path.realpath(opt_einsum.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"opt_einsum imported from {f}, not from {REPO}")
    return importlib.import_module("props." + pid.lower())


def replay(pid, path, fuel):
    import core

    mod = load(pid)
    with open(path) as f:
        rec = json.load(f)
    sub = next(s for s in mod.SUBS if s.name == rec["sub"])
    try:
        for c in rec.get("history", []):
            try:
                core.run_one(next(s for s in mod.SUBS if s.name == c[0]), c[1])
            except (core.Violation, core.Inconclusive, core.CaseTimeout):
                pass
        core.run_one(sub, rec["case"], fuel=fuel)
    except core.Violation as e:
        print("REPRODUCED:", e)
        return 1
    except core.CaseTimeout:
        print("REPRODUCED: no result within the work bound of", core.FUEL_LIMIT, "executed lines")
        return 1
    except core.Inconclusive as e:
        print("inconclusive:", e)
        return 0
    print("not reproduced: the property holds on this case")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--fuel", action="store_true")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--sub", default=os.environ.get("OE_SUB"), help="run only these sub-checks (comma-separated; for development)")
    ap.add_argument("--out")
    ap.add_argument("--evidence-dir", default=os.path.join(VERIF, "evidence"))
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    cap = a.cap or (330.0 if a.tier == "quick" else 3300.0)

    if a.replay:
        return replay(a.pid, a.replay, a.fuel)

    if a.sub:
        os.environ["OE_SUB"] = a.sub

    if a.worker is not None:
        import core

        try:
            mod = load(a.pid)
        except Exception:
            # importing the code under test or the module failed
            with open(a.out, "w") as f:
                json.dump({"error": traceback.format_exc(), "import": True}, f)
            return 0
        if a.sub:
            mod.SUBS = [s for s in mod.SUBS if s.name in a.sub.split(",")]
        core.Worker(a.pid, mod, a.seed, a.tier, a.worker, a.workers, a.scale, cap, a.out).run()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)  # do not wait for library threads

    return parent(a, cap)


DEADLINE = [float("inf")]  # by when every confirmation must have ended


def confirm(pid, path, rec, td, tries=1, fuel=False, timeout=280):
    """does the recorded case fail again in a fresh process?"""
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    cmd = [sys.executable, os.path.abspath(__file__), pid, "--replay", path] + (["--fuel"] if fuel else [])
    for _ in range(tries):
        left = DEADLINE[0] - time.time()
        if left < 5:
            return False
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=min(timeout, left),
                               env=dict(os.environ, TMPDIR=td, HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(td, "hyp")))
        except subprocess.TimeoutExpired:
            return False
        if r.returncode == 1:
            rec["msg"] = next((ln for ln in r.stdout.splitlines() if ln.startswith("REPRODUCED")), rec["msg"])
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            return True
    return False


def confirm_history(pid, path, rec, v, td):
    """the failing case alone is fine: replay it after the cases that ran before it, and shrink that history."""
    t_end = min(time.time() + 250, DEADLINE[0])
    trail = v["trail"]
    rec["case"] = v["first"]
    last = [c for c in trail if c[0] == v["sub"]]
    tried = None
    for hist in (last[-8:], last[-200:], last, trail[-200:], trail):
        if hist == tried:
            continue
        tried = rec["history"] = hist
        if confirm(pid, path, rec, td, timeout=240):
            break
        if time.time() > t_end:
            return False
    else:
        return False
    for name in sorted({c[0] for c in hist}):  # whole sub-checks first
        rec["history"] = [c for c in hist if c[0] != name]
        if time.time() < t_end and confirm(pid, path, rec, td, timeout=60):
            hist = rec["history"]
    step = max(1, len(hist) // 2)
    while time.time() < t_end:
        k, progress = 0, False
        while k < len(hist) and time.time() < t_end:
            rec["history"] = hist[:k] + hist[k + step:]
            if confirm(pid, path, rec, td, timeout=60):
                hist, progress = rec["history"], True
            else:
                k += step
        if step == 1 and not progress:
            break
        step = max(1, step // 2)
    rec["history"] = hist
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return True


def parent(a, cap):
    t0 = time.time()
    DEADLINE[0] = t0 + cap + 450
    os.makedirs(a.evidence_dir, exist_ok=True)
    repdir = os.path.join(a.evidence_dir, "replays")
    os.makedirs(repdir, exist_ok=True)
    procs = []
    with tempfile.TemporaryDirectory(prefix="oepbt_") as td:
        for w in range(a.workers):
            out = os.path.join(td, f"w{w}.json")
            log = open(os.path.join(td, f"w{w}.log"), "w")
            cmd = [sys.executable, os.path.abspath(__file__), a.pid, "--worker", str(w), "--workers", str(a.workers),
                   "--tier", a.tier, "--seed", str(a.seed), "--scale", str(a.scale), "--cap", str(cap), "--out", out]
            env = dict(os.environ, TMPDIR=td, HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(td, "hyp"))
            procs.append((subprocess.Popen(cmd, stdout=log, stderr=log, env=env, start_new_session=True), out, log))
        hard = t0 + cap + 150
        results = [None] * a.workers
        confirmed, unconfirmed = None, []

        def try_confirm(v):
            rec = {"property": a.pid, "sub": v["sub"], "case": v["case"], "msg": v.get("msg", "timeout"), "seed": a.seed,
                   "tier": a.tier}
            path = os.path.join(repdir, f"{a.pid}_{v['sub']}.json")
            ok = confirm(a.pid, path, rec, td, tries=1 if v.get("timeout") else 3, fuel=bool(v.get("timeout")))
            if not ok and v.get("trail") and len(unconfirmed) < 2:
                ok = confirm_history(a.pid, path, rec, v, td)
            if ok:
                return path, rec
            unconfirmed.append(rec)
            return None

        while any(r is None for r in results) and not confirmed:
            for k, (p, out, log) in enumerate(procs):
                if results[k] is None and p.poll() is not None:
                    try:
                        with open(out) as f:
                            results[k] = json.load(f)
                    except Exception:
                        log.flush()
                        with open(log.name) as f:
                            tail = f.read()[-3000:]
                        results[k] = {"error": f"worker {k} died rc={p.returncode}\n{tail}", "died": True}
                    if results[k].get("violation") and not confirmed:
                        confirmed = try_confirm(results[k]["violation"])
            if time.time() > hard:
                break
            time.sleep(0.1)
        for p, _, log in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                p.wait()
            log.close()

        done = [r for r in results if r is not None]
        errs = [r["error"] for r in done if r.get("error")]
        for r in done:
            if r.get("timeout") and not confirmed:
                confirmed = try_confirm(dict(r["timeout"], timeout=True))

    mod_doc = {}
    try:
        mod = load(a.pid)
        mod_doc = {"rule": mod.RULE, "assumptions": getattr(mod, "ASSUMPTIONS", []), "subs": {s.name: s.rule for s in mod.SUBS}}
    except Exception as e:
        errs.append(f"load: {e}")

    ev = sum(r.get("evaluations", 0) for r in done)
    hashes = set()
    labels, per_sub, samples = {}, {}, []
    skipped = sum(r.get("skipped_after_cap", 0) for r in done)
    for r in done:
        hashes.update(r.get("nontrivial_hashes", []))
        for k, v in r.get("labels", {}).items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r.get("per_sub", {}).items():
            d = per_sub.setdefault(k, {"evaluations": 0, "nontrivial": 0, "max_wall_s": 0.0})
            d["evaluations"] += v["evaluations"]
            d["nontrivial"] += v["nontrivial"]
            d["max_wall_s"] = max(d["max_wall_s"], v["wall_s"])
    for k in sorted(per_sub):
        pool = [c for r in done for c in r.get("samples", {}).get(k, [])]
        step = max(1, len(pool) // 3)
        for c in pool[::step][:3]:
            samples.append({"sub": k, "case": c})
    evidence = {
        "property": a.pid,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(hashes),
            "rule": mod_doc.get("rule", ""),
            "sub_checks": {k: dict(per_sub[k], rule=mod_doc.get("subs", {}).get(k, "")) for k in sorted(per_sub)},
            "label_counts": dict(sorted(labels.items())),
            "skipped_after_time_cap": skipped,
            "inconclusive": sum(r.get("inconclusive", 0) for r in done),
            "unconfirmed_timeouts_or_flakes": [{"sub": u["sub"], "msg": u["msg"]} for u in unconfirmed],
            "samples": samples,
        },
        "assumptions": mod_doc.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if confirmed else 0,
    }
    tmp = os.path.join(a.evidence_dir, f".{a.pid}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(a.evidence_dir, f"{a.pid}.json"))

    print(f"{a.pid}: evaluations={ev} distinct_nontrivial={len(hashes)} skipped={skipped} "
          f"wall={evidence['wall_s']}s tier={a.tier} seed={a.seed}")
    if confirmed:
        path, rec = confirmed
        print(f"  sub-check {rec['sub']}: {rec['msg']}")
        if rec.get("history"):
            print(f"  after a history of {len(rec['history'])} earlier cases (in the replay file)")
        print(f"  minimal case: {json.dumps(rec['case'])[:1500]}")
        print(f"VIOLATION property={a.pid} replay={path}")
        return 1
    for kf in getattr(sys.modules.get("props." + a.pid.lower()), "known", lambda: [])():
        print(f"KNOWN-FINDING: property={a.pid} {kf}")
    if errs:
        # the code under test cannot even be imported -> every property is broken
        print("ERROR in the check:\n" + "\n".join(errs)[:4000], file=sys.stderr)
        return 2
    if any(r is None for r in results):
        print("ERROR: some workers never finished", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
