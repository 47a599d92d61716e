#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--runs N] [--replay FILE]

Decides one property by seeded simulation of the cluster built from /repo's
working tree. Exit 0: held on everything explored. Exit 1: VIOLATION line.
Other exits: no answer (build or simulator trouble)."""
import argparse, collections, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.dont_write_bytecode = True
import mkoverlay
from plan import PLAN, REAL, STUB, ASSUME

REPO = os.environ.get("VERIF_REPO", "/repo")
GO = "/opt/veriftools/go1.25.14/bin"
CORES = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 8)
RUN_TIMEOUT = 150
MASK = (1 << 64) - 1


def mix(a, b):
    x = (a * 0x9E3779B97F4A7C15 + b + 0x632BE59BD9B4E019) & MASK
    x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & MASK
    x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & MASK
    return x ^ (x >> 31)


class NoAnswer(Exception):
    pass


def build(tmp):
    env = dict(os.environ, PATH=GO + ":" + os.environ.get("PATH", ""), GOTOOLCHAIN="local", GOPROXY="off",
               GOFLAGS="-mod=readonly", CGO_ENABLED="1", GOROOT=os.path.dirname(GO))
    if "VERIF_GOCACHE" in os.environ:
        env["GOCACHE"] = os.environ["VERIF_GOCACHE"]
    else:
        env["GOCACHE"] = os.path.join(tmp, "gocache")
    ov = mkoverlay.overlay(tmp, REPO)
    exe = os.path.join(tmp, "simrun")
    p = subprocess.run(["go", "build", "-tags", "verif", "-overlay", ov, "-o", exe, "./zzverif/simrun"], cwd=REPO, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        raise NoAnswer("the simulator does not build against this tree:\n" + p.stdout[-3000:])
    return exe


class Sim:
    def __init__(self, exe, tmp):
        self.exe, self.tmp, self.n = exe, tmp, 0
        self.env = {"PATH": "/usr/bin:/bin", "HOME": tmp, "TMPDIR": tmp, "GOMAXPROCS": "1", "GODEBUG": "asynctimerchan=0", "GOTRACEBACK": "single"}

    def _run(self, args):
        try:
            p = subprocess.run([self.exe] + args, env=self.env, cwd=self.tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=RUN_TIMEOUT)
        except subprocess.TimeoutExpired:
            return {"status": "timeout", "args": args}
        try:
            return json.loads(p.stdout.decode().strip().splitlines()[-1])
        except Exception:
            return {"status": "trouble", "args": args, "rc": p.returncode, "err": p.stderr.decode(errors="replace")[-1500:]}

    def gen(self, prop, scen, seed):
        return self._run(["gen", prop, scen, str(seed)])

    def ops(self, prop, scen, seed):
        return self._run(["ops", prop, scen, str(seed)])

    def case(self, c, trace=False):
        fd, path = tempfile.mkstemp(suffix=".json", dir=self.tmp)
        with os.fdopen(fd, "w") as f:
            json.dump(c, f)
        try:
            return self._run(["case", path] + (["trace"] if trace else []))
        finally:
            os.unlink(path)


def minimise(sim, case, rule, pool, deadline):
    """ddmin over the steps; every candidate is a complete run."""
    def bad(ops):
        r = sim.case(dict(case, ops=ops))
        return r.get("status") == "violation" and r.get("rule") == rule
    ops = case["ops"]
    n, tries = 2, 0
    while len(ops) >= 2 and time.time() < deadline:
        size = max(1, len(ops) // n)
        chunks = [(i, min(i + size, len(ops))) for i in range(0, len(ops), size)]
        cands = [ops[:a] + ops[b:] for a, b in chunks]
        res = list(pool.map(bad, cands))
        tries += len(cands)
        hit = next((i for i, x in enumerate(res) if x), None)
        if hit is not None:
            # drop every chunk that can go together, greedily
            keep = [True] * len(ops)
            a, b = chunks[hit]
            for k in range(a, b):
                keep[k] = False
            cur = [o for k, o in enumerate(ops) if keep[k]]
            for i in range(hit + 1, len(chunks)):
                if not res[i] or time.time() > deadline:
                    continue
                k2 = keep[:]
                for k in range(*chunks[i]):
                    k2[k] = False
                cand = [o for k, o in enumerate(ops) if k2[k]]
                tries += 1
                if bad(cand):
                    keep, cur = k2, cand
            ops = cur
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(ops), n * 2)
    return ops, tries


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def matches(k, r):
    return k.get("status") == "known" and k["rule"] == r.get("rule") and re.search(k["match"], r.get("detail", "") or "")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        if a.setup:  # nothing to prepare: every check builds from /repo itself; this only shows that the build works
            build(tmp)
            print("simulator builds")
            return 0
        return work(a, seed, t0, tmp)
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def work(a, seed, t0, tmp):
    exe = build(tmp)
    tb = time.time() - t0
    sim = Sim(exe, tmp)
    if a.replay:
        c = json.load(open(a.replay))
        r = sim.case(c, True)
        for l in r.get("trace") or []:
            print(l)
        print("status=%s rule=%s log=%s sched=%s" % (r.get("status"), r.get("rule"), r.get("log"), r.get("sched")))
        want = c.get("result", {})
        if r.get("status") == "violation":
            same = (r.get("log"), r.get("sched")) == (want.get("log"), want.get("sched"))
            print("the recorded run is reproduced exactly" if same else "the recorded run differs (the tree may have changed)")
            print("VIOLATION property=%s replay=%s" % (r["property"], os.path.abspath(a.replay)))
            return 1
        return 0 if r.get("status") in ("ok", "other") else 2
    plan = PLAN[a.prop]
    cap = {"quick": 240, "thorough": 3 * 3600}[a.tier]
    known = [k for k in known_findings() if k["property"] == a.prop and k.get("status") == "known"]
    jobs = []
    for scen, (q, th) in plan["scenarios"].items():
        n = max(1, int((q if a.tier == "quick" else th) * a.scale))
        sid = int(hashlib.sha256(scen.encode()).hexdigest()[:12], 16)
        jobs += [(i / n, scen, mix(mix(seed, sid), i) >> 2) for i in range(n)]
    jobs.sort()  # spread the scenarios over the budget
    results, bad, other, trouble, knownhit, skipped = [], [], [], [], collections.Counter(), 0
    stop = False
    deadline = t0 + tb + cap

    def one(j):
        if stop or time.time() > deadline:
            return None
        return sim.gen(a.prop, j[1], j[2])

    with cf.ThreadPoolExecutor(CORES) as pool:
        for j, r in zip(jobs, pool.map(one, jobs)):
            if r is None:
                skipped += 1
                continue
            st = r.get("status")
            if st == "violation":
                k = next((k for k in known if matches(k, r)), None)
                if k is not None:
                    knownhit[k["id"]] += 1
                    results.append(r)
                    continue
                bad.append((j, r))
                if len(bad) >= 3:
                    stop = True
            elif st in ("ok", "other"):
                results.append(r)
                if st == "other":
                    other.append((j, r))
            else:
                trouble.append((j, r))
                if len(trouble) > max(5, len(jobs) // 50):
                    stop = True
        tr = time.time()
        # the same seed must be the same execution
        det = 0
        sample = [(j, r) for j, r in zip(jobs, results) if r["status"] == "ok"][:0]
        byseed = {r["seed"]: r for r in results}
        again = [j for j in jobs if j[2] in byseed][:: max(1, len(jobs) // 8)][:8]
        for j, r in zip(again, pool.map(lambda j: sim.gen(a.prop, j[1], j[2]), again)):
            o = byseed[j[2]]
            if (r.get("log"), r.get("sched")) == (o["log"], o["sched"]):
                det += 1
            else:
                trouble.append((j, {"status": "nondeterminism", "scenario": j[1], "seed": j[2]}))
        viol = None
        for j, r in bad:
            case = sim.ops(a.prop, j[1], j[2])
            if "ops" not in case:
                continue
            r2 = sim.case(case)
            if r2.get("status") != "violation" or r2.get("rule") != r["rule"]:
                trouble.append((j, {"status": "unreproduced", "was": r.get("rule"), "now": r2.get("rule") or r2.get("status")}))
                continue
            ops, tries = minimise(sim, case, r["rule"], pool, time.time() + (60 if a.tier == "quick" else 600))
            best = dict(case, ops=ops)
            f, g = sim.case(best, True), sim.case(best, True)
            if f.get("status") != "violation":
                best = case
                f, g = sim.case(best, True), sim.case(best, True)
            if (f.get("log"), f.get("sched")) != (g.get("log"), g.get("sched")):
                trouble.append((j, {"status": "replay-differs"}))
            best.update(rule=f["rule"], detail=f["detail"], trace=f.get("trace"), result={k: f.get(k) for k in ("log", "sched", "step", "sim_s")},
                        steps_before=len(case["ops"]), minimise_runs=tries)
            d = os.path.join(HERE, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-%d.json" % (a.prop, j[1], j[2]))
            with open(path, "w") as fh:
                json.dump(best, fh, indent=1)
            viol = (path, f, len(case["ops"]), len(ops))
            break
        if bad and not viol:
            print("NO ANSWER: a violation was seen that a replay does not reproduce: %s" % [x[1] for x in trouble][:3])
    evidence(a, seed, t0, tb, tr, jobs, results, bad, viol, other, trouble, det, len(again), skipped, knownhit, plan)
    for k in known:
        print("KNOWN-FINDING: property=%s %s (seen in %d of %d runs)" % (a.prop, k["what"], knownhit[k["id"]], len(results)))
    print("%s: %d runs (%d skipped), %.1f simulated hours, build %.0f s, runs %.0f s, %d/%d reruns identical, other-property stops %d, trouble %d" % (
        a.prop, len(results), skipped, sum(r["sim_s"] for r in results) / 3600, tb, tr - t0 - tb, det, len(again), len(other), len(trouble)))
    for j, r in trouble[:5]:
        print("TROUBLE %s seed %d: %s" % (j[1], j[2], json.dumps(r)[:1500]))
    for j, r in other[:3]:
        print("NOTE %s seed %d stopped on a rule of %s: %s: %s" % (j[1], j[2], r.get("property"), r.get("rule"), r.get("detail")))
    if viol:
        path, f, n0, n1 = viol
        print("rule %s: %s" % (f["rule"], f["detail"]))
        print("minimised from %d to %d steps; replay with: python3 %s %s --replay %s" % (n0, n1, os.path.join(HERE, "check.py"), a.prop, path))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if bad:
        return 2
    if trouble and len(trouble) * 20 > len(results):
        print("NO ANSWER: too many runs failed")
        return 2
    if len(results) < 5:
        print("NO ANSWER: too few runs")
        return 2
    return 0


FAULTS = ("partition", "disconnect", "rpc-", "p2p-", "crash", "kill", "disk-", "clean-restart", "torn", "ghost", "skew", "byz", "power", "wire-")


def evidence(a, seed, t0, tb, tr, jobs, results, bad, viol, other, trouble, det, again, skipped, knownhit, plan):
    cnt, chk = collections.Counter(), collections.Counter()
    states, scheds, logs = set(), set(), set()
    for r in results + [b[1] for b in bad]:
        cnt.update(r.get("counts") or {})
        chk.update(r.get("checks") or {})
        states.update(r.get("states") or [])
        scheds.add(r.get("sched"))
        logs.add(r.get("log"))
    nontrivial = set(r["log"] for r in results if any((r.get("checks") or {}).get(k) for k in plan["rules"]) and (r.get("counts") or {}).get("rpc", 1))
    wall = max(1e-6, tr - t0 - tb)
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": plan.get("level", "exploration"),
        "coverage": {
            "evaluations": len(results) + len(bad),
            "distinct_nontrivial": len(nontrivial),
            "rule": "A case is one simulated run: a seed makes a deployment, a list of steps (blocks, transactions, faults, restarts) and every scheduling, delay and fault decision. "
                    "It is non-trivial when it evaluated at least one of the rules [%s]; two are distinct when their whole recorded histories differ." % ", ".join(plan["rules"]),
            "samples": [{"scenario": r["scenario"], "seed": r["seed"], "sim_s": round(r["sim_s"], 1), "steps": r["step"], "scheduling_choices": r["choices"], "checks": r["checks"], "counts": r["counts"]} for r in results[:3]],
            "runs_per_hour": round(3600 * len(results) / wall),
            "simulated_hours": round(sum(r["sim_s"] for r in results) / 3600, 2),
            "runs_by_scenario": dict(collections.Counter(r["scenario"] for r in results)),
            "faults_injected": {k: v for k, v in sorted(cnt.items()) if k.startswith(FAULTS)},
            "steps_executed": {k[3:]: v for k, v in sorted(cnt.items()) if k.startswith("op-")},
            "other_counts": {k: v for k, v in sorted(cnt.items()) if not k.startswith("op-") and not k.startswith(FAULTS)},
            "rule_evaluations": dict(sorted(chk.items())),
            "distinct_schedules": len(scheds), "distinct_schedules_measure": "hash of every choice of the goroutine scheduler",
            "distinct_histories": len(logs),
            "distinct_states": len(states), "distinct_states_measure": "fingerprints of chain shape at check points (heights, confirmed heights, forks known)",
            "scheduling_choices": sum(r.get("choices", 0) for r in results),
            "reruns_identical": "%d of %d" % (det, again),
            "stopped_on_other_property": len(other), "simulator_trouble": len(trouble), "skipped_for_time": skipped,
            "known_findings_seen": dict(knownhit),
            "real_code": plan.get("only_real", REAL + plan.get("real", [])), "stubs": plan.get("only_stub", STUB + plan.get("stub", [])),
        },
        "assumptions": ASSUME + plan.get("assume", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if viol else 0,
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, a.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)


if __name__ == "__main__":
    sys.exit(main())
