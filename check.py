#!/opt/venv/bin/python
"""check.py <ID> [--tier quick|thorough] [--replay FILE] [--runs N] [--determinism N]

Exit 0: held on everything explored.  Exit 1: with a VIOLATION line.  Anything else: the check failed to work.
"""
import sys, os, json, time, random, hashlib, argparse, importlib, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--determinism", type=int)
    ap.add_argument("--digests", type=int)
    ap.add_argument("--noevidence", action="store_true")
    ap.add_argument("--keepgoing", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.monotonic()
    import tempfile, shutil
    scratch = tempfile.mkdtemp(prefix="dst-%s-" % a.id)
    os.environ["MPLCONFIGDIR"] = scratch
    os.environ["HOME"] = scratch
    try:
        return go(a, tier, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def go(a, tier, t0, scratch):
    os.environ["DST_SCRATCH"] = scratch
    from dst import boot
    if os.environ.get("PYTHONHASHSEED") is None and not a.replay:
        pass
    boot.load()
    from dst import core
    prop = importlib.import_module("dst.props.%s" % a.id.lower())
    known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    known = [k for k in known if k["property"] == a.id and k.get("status") == "known"]

    def is_known(res):
        for k in known:
            if k["match"]["cls"] == res["cls"] and all(s in (res["msg"] or "") for s in k["match"].get("contains", [])):
                return k
        return None

    if a.replay:
        d = json.load(open(a.replay))
        res = core.run_one(prop, d["plan"])
        print("replay: status=%s class=%s" % (res["status"], res["cls"]))
        print(res["msg"])
        for l in res.get("schedtrace") or []:
            print("   ", l)
        same = res["status"] == "violation" and res["cls"] == d["cls"] and res["digest"] == d["digest"]
        print("replay %s the recorded failure" % ("reproduces exactly" if same else "does not reproduce"))
        if res["status"] == "violation":
            print("VIOLATION property=%s replay=%s" % (a.id, a.replay))
            return 1
        return 0 if res["status"] == "ok" else 2

    nruns = a.runs or (prop.RUNS[tier])
    master = "%d/%s" % (a.seed, a.id)

    def gen(i):
        rng = random.Random("%s/%d" % (master, i))
        p = prop.gen(rng, i, tier)
        p["run"] = i
        return json.loads(json.dumps(p))

    plans = ((i, gen(i)) for i in range(nruns))
    if a.digests:
        out = core.run_many(prop, ((i, gen(i)) for i in range(a.digests)), t0 + 3000)
        print(json.dumps({str(i): [out[i][1]["status"], out[i][1]["digest"]] for i in sorted(out)}))
        return 0
    if a.determinism:
        ref = None
        for hs, npr in (("0", "8"), ("0", "3"), ("12345", "8"), ("random", "5")):
            env = dict(os.environ, PYTHONHASHSEED=hs, DST_NPROC=npr)
            o = subprocess.run([sys.executable, os.path.abspath(__file__), a.id, "--digests", str(a.determinism),
                                "--tier", tier, "--seed", str(a.seed)], env=env, capture_output=True, text=True)
            d = json.loads(o.stdout.strip().splitlines()[-1])
            if ref is None:
                ref = d
            diff = [i for i in ref if d.get(i) != ref[i]]
            print("%s hashseed=%s workers=%s runs=%d different=%d %s" % (a.id, hs, npr, len(d), len(diff), diff[:10]))
        return 0

    limit = float(os.environ.get("DST_LIMIT", "520" if tier == "quick" else "3000"))
    found = {}
    errors = []
    knownhit = {}

    def on_result(key, plan, res):
        if res["status"] == "violation":
            k = is_known(res)
            if k is not None:
                knownhit.setdefault(k["id"], []).append(key)
            else:
                found.setdefault(res["cls"], []).append((key, plan, res))
        elif res["status"] != "ok":
            errors.append((key, plan, res))

    def stop():
        return not a.keepgoing and (len(found) > 0 or len(errors) > 3)

    out = core.run_many(prop, plans, t0 + limit, on_result=on_result, stop=stop)
    # batch oracle over all runs (statistical properties)
    batch_fail = None
    if hasattr(prop, "batch") and not found and not errors:
        batch_fail = prop.batch({k: out[k][1] for k in sorted(out)}, tier)
    t_explore = time.monotonic() - t0
    rc = 0
    lines = []
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for k in sorted(knownhit):
        kk = [x for x in known if x["id"] == k][0]
        print("KNOWN-FINDING: property=%s %s" % (a.id, kk["what"]))
    for k in known:
        if k["id"] not in knownhit and k.get("always"):
            print("note: known finding %s was not reached in this run" % k["id"])
    nviol = 0
    for cls in sorted(found):
        lst = sorted(found[cls], key=lambda t: t[0])
        key, plan, res = lst[0]
        nviol += 1
        mplan, mres, tries = core.minimise(prop, plan, res, budget_s=60 if tier == "quick" else 300)
        again = core.run_one(prop, mplan)
        if not (again["status"] == "violation" and again["cls"] == cls):
            # not reproducible after minimisation: fall back to the original plan
            mplan, mres = plan, core.run_one(prop, plan)
            if not (mres["status"] == "violation" and mres["cls"] == cls):
                print("error: run %d failed (%s) but does not repeat: nondeterminism in the check" % (key, cls))
                print(res["msg"])
                rc = 2
                continue
            again = mres
        name = "%s-%s.json" % (a.id, hashlib.sha1(json.dumps([cls, mplan], sort_keys=True).encode()).hexdigest()[:10])
        path = os.path.join(HERE, "replays", name)
        json.dump(dict(property=a.id, seed=a.seed, tier=tier, run=key, cls=cls, msg=again["msg"], digest=again["digest"],
                       plan=mplan, schedule_trace=again.get("schedtrace"), events=again["tail"],
                       original_plan=plan, minimise_tries=tries), open(path, "w"), indent=1)
        print("property %s violated in run %d (and %d more of this class): %s" % (a.id, key, len(lst) - 1, cls))
        print(again["msg"])
        for l in (again.get("schedtrace") or [])[:40]:
            print("    schedule:", l)
        lines.append("VIOLATION property=%s replay=%s" % (a.id, path))
        if not a.keepgoing and len(lines) >= 1:
            break
    if batch_fail is not None:
        nviol += 1
        cls, msg, keys = batch_fail
        path = os.path.join(HERE, "replays", "%s-batch-%s.json" % (a.id, hashlib.sha1(cls.encode()).hexdigest()[:8]))
        json.dump(dict(property=a.id, seed=a.seed, tier=tier, cls=cls, msg=msg, batch=keys, runs=nruns,
                       note="verdict over a batch of runs: repeat with check.py %s --seed %d --tier %s" % (a.id, a.seed, tier)),
                  open(path, "w"), indent=1)
        print(cls, msg)
        lines.append("VIOLATION property=%s replay=%s" % (a.id, path))
    for key, plan, res in errors[:3]:
        print("error in run %d: %s\n%s" % (key, res["cls"], res["msg"]))
    # ------------------------------------------------------------------ evidence
    counts, faults, states = {}, {}, set()
    nontrivial = set()
    ncpu = 0
    for k in out:
        r = out[k][1]
        for c, n in r["counts"].items():
            if isinstance(n, (int, float)):
                counts[c] = counts.get(c, 0) + n
        for c, n in r["faults"].items():
            faults[c] = faults.get(c, 0) + n
        states.update(r["states"])
        if r["nev"] >= getattr(prop, "MIN_EVENTS", 3):
            nontrivial.add(r["digest"])
    wall = time.monotonic() - t0
    samples = []
    for k in sorted(out)[:3]:
        samples.append(dict(run=k, plan=out[k][0], status=out[k][1]["status"], digest=out[k][1]["digest"],
                            counts={c: n for c, n in out[k][1]["counts"].items() if isinstance(n, (int, float))},
                            faults=out[k][1]["faults"], events=[e[:160] for e in out[k][1]["tail"][-6:]]))
    ev = dict(property=a.id, tier=tier, seed=a.seed, level=getattr(prop, "LEVEL", "exploration"),
              coverage=dict(evaluations=len(out), distinct_nontrivial=len(nontrivial), rule=prop.RULE, samples=samples,
                            runs_planned=nruns, seeds_per_hour=round(len(out) / max(t_explore, 1e-9) * 3600),
                            distinct_states=len(states), state_measure=getattr(prop, "STATES", "abstract states logged by the run"),
                            faults_fired=faults, totals=counts,
                            simulated_time="none: the library reads no clock; progress is counted in iterations, evaluations and source lines (see totals)",
                            real_components=getattr(prop, "REAL", "all library code under test"),
                            stubs=getattr(prop, "STUBS", "none"), known_findings_hit={k: len(v) for k, v in knownhit.items()}),
              assumptions=getattr(prop, "ASSUMPTIONS", ["seeded search samples schedules and faults: no proof"]),
              wall_s=round(wall, 2), violations=nviol)
    if not a.noevidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", "%s.json" % a.id), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d/%d runs, %d distinct, %d states, faults %s, %.1f s" % (a.id, tier, len(out), nruns, len(nontrivial), len(states), faults, wall))
    for l in lines:
        print(l)
    if lines:
        return 1
    if rc:
        return rc
    if errors:
        return 2
    if len(out) < max(1, nruns // 4):
        print("error: only %d of %d runs done in the time given" % (len(out), nruns))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
