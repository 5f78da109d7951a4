#!/usr/bin/env python3
"""Decides one property by seeded simulation.

  check.py PROPERTY            (VERIF_TIER, VERIF_SEED from the environment)
  check.py replay FILE         rebuilds and replays one execution

Exit 0: the property held in every simulated run. Exit 1 with a VIOLATION
line: it is broken; the replay file reproduces it. Anything else is an error
of the check itself.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, collections

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
import props as P

WORKERS = int(os.environ.get("VERIF_WORKERS", str(os.cpu_count() or 8)))
MODULE = "github.com/flachnetz/dd-zipkin-proxy"


class Trouble(Exception):
    pass


def sim_env():
    return {"GOMAXPROCS": "1", "GOGC": "off", "GODEBUG": "asyncpreemptoff=1,gcstoptheworld=2", "HOME": "/root",
            "PATH": "/usr/bin:/bin", "TZ": "UTC", "GOTRACEBACK": "single"}


def classify_crash(text):
    """Tells whether a Go crash happened in the code under test. Returns (is_repo, description)."""
    lines = text.splitlines()
    head = ""
    at = None
    for i, l in enumerate(lines):
        if l.startswith(("panic:", "fatal error:", "SIGQUIT:", "runtime: goroutine stack exceeds")) and at is None:
            head, at = l, i
        if at is not None and l.startswith("goroutine "):
            at = i
            break
    if at is None:
        return None, text[-400:]
    frames = []
    for l in lines[at + 1:]:
        if not l.strip():
            if frames:
                break
            continue
        if l.startswith(("\t", "...")) or l.startswith("created by"):
            continue
        frames.append(re.sub(r"\(0x[^)]*\)$|\([^()]*\)$", "", l.strip()))
    repo = next((k for k, f in enumerate(frames) if f.startswith(MODULE)), None)
    mine = next((k for k, f in enumerate(frames) if f.startswith("main.")), None)
    is_repo = repo is not None and (mine is None or repo < mine)
    where = frames[repo] if repo is not None else (frames[0] if frames else "?")
    return is_repo, "%s in %s" % (head[:200], where)


class Sim:
    def __init__(self, binary, tmp):
        self.bin, self.tmp, self.n = binary, tmp, 0

    def _exec(self, args, timeout):
        p = subprocess.Popen([self.bin] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=sim_env(),
                             cwd=self.tmp, start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            # a run takes seconds: ask where it is
            os.killpg(p.pid, signal.SIGQUIT)
            try:
                out, err = p.communicate(timeout=20)
                if p.returncode == 2:
                    return -1, "", err.decode("utf-8", "replace")
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
            raise Trouble("a simulated run exceeded %d s of real time: %s" % (timeout, " ".join(args)))
        return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")

    def result(self, prop, args, timeout):
        rc, out, err = self._exec(args, timeout)
        if rc == 0:
            try:
                return json.loads(out.splitlines()[-1])
            except Exception as e:
                raise Trouble("unreadable result of %s: %s %s" % (args, e, err[-1000:]))
        if rc in (2, -1):
            is_repo, what = classify_crash(err)
            if rc == -1:
                if is_repo:
                    what = "the code runs without end" + what[what.index(" in "):]
                else:
                    raise Trouble("a simulated run exceeded %d s of real time: %s\n%s" % (timeout, " ".join(args), err[:3000]))
            if is_repo:
                return {"violations": [{"prop": prop, "kind": "crash", "msg": what}], "crash": err[:4000],
                        "probes": {}, "fired": {}, "sim_seconds": 0, "events": 0, "sched_hash": "", "event_hash": "",
                        "stats": {}}
        raise Trouble("simulator ended with code %d for %s:\n%s" % (rc, args, err[-3000:]))

    def one(self, prop, seed, timeout):
        return self.result(prop, ["one", prop, str(seed)], timeout)

    def gen(self, prop, seed):
        rc, out, err = self._exec(["gen", prop, str(seed)], 60)
        if rc != 0:
            raise Trouble("gen: " + err[-1000:])
        return json.loads(out)

    def plan(self, plan, timeout, log=False):
        self.n += 1
        path = os.path.join(self.tmp, "plan%d-%d.json" % (os.getpid(), id(plan)))
        with open(path, "w") as f:
            json.dump(plan, f)
        try:
            return self.result(plan["prop"], ["run", path] + (["-v"] if log else []), timeout)
        finally:
            os.unlink(path)


def load_known():
    known = []
    with open(VERIF + "/known-findings.txt") as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding:"):
                m = re.match(r"finding: property=(\S+) kind=(\S+) match=/(.*)/ (.*)$", line)
                if not m:
                    raise Trouble("bad line in known-findings.txt: " + line)
                known.append(m.groups())
    return known


def split_known(prop, result, known):
    """Returns (new violations, descriptions of listed findings that showed)."""
    new, listed = [], []
    for v in result["violations"] or []:
        hit = next((k for k in known if k[0] == prop and k[1] == v["kind"] and re.search(k[2], v["msg"])), None)
        if hit:
            listed.append(hit)
        else:
            new.append(v)
    return new, listed


def signature(v):
    # the identity of a violation for minimisation: what kind of observation it is
    if v["kind"] == "crash":
        return "crash " + re.sub(r"0x[0-9a-f]+|\d+", "#", v["msg"])
    return v["kind"]


# ------------------------------------------------------------------ minimiser

def minimise(sim, plan, sig, known, budget, timeout):
    t_end = time.time() + budget
    tried = [0]

    def fails(p):
        tried[0] += 1
        try:
            r = sim.plan(p, timeout)
        except Trouble:
            return False
        new, _ = split_known(p["prop"], r, known)
        return any(signature(v) == sig for v in new)

    def first(cands):
        """First candidate (in order) that still fails; candidates run in parallel."""
        cands = list(cands)
        for i in range(0, len(cands), WORKERS):
            if time.time() > t_end:
                return None
            batch = cands[i:i + WORKERS]
            with cf.ThreadPoolExecutor(WORKERS) as ex:
                res = list(ex.map(fails, batch))
            for c, ok in zip(batch, res):
                if ok:
                    return c
        return None

    def clone(p):
        return json.loads(json.dumps(p))

    def shrink_list(p, get, put):
        n = max(1, len(get(p)) // 2)
        while len(get(p)) > 0 and time.time() < t_end:
            items = get(p)
            cands = []
            for i in range(0, len(items), n):
                c = clone(p)
                put(c, items[:i] + items[i + n:])
                cands.append(c)
            r = first(cands)
            if r is not None:
                p = r
                n = min(n, max(1, len(get(p)) // 2))
            elif n == 1:
                break
            else:
                n = max(1, n // 2)
        return p

    for rnd in range(3):
        before = json.dumps(plan)
        plan = shrink_list(plan, lambda p: p["faults"], lambda p, v: p.__setitem__("faults", v))
        plan = shrink_list(plan, lambda p: p["ops"], lambda p, v: p.__setitem__("ops", v))
        for i in range(len(plan["ops"])):
            if plan["ops"][i].get("spans") and len(plan["ops"][i]["spans"]) > 1:
                def put(p, v, i=i):
                    p["ops"][i]["spans"] = v
                plan = shrink_list(plan, lambda p, i=i: p["ops"][i]["spans"], put)
        # simpler scheduler and knobs
        for key, val in (("mode", 0), ("yield_mean", 0), ("stall_ppm", 0), ("pool_miss", 0)):
            if plan["sched"].get(key):
                c = clone(plan)
                c["sched"][key] = val
                plan = first([c]) or plan
        for k in sorted(plan.get("knobs") or {}):
            c = clone(plan)
            del c["knobs"][k]
            plan = first([c]) or plan
        # simpler ops
        for i in range(len(plan["ops"])):
            for k in ("gzip", "chunked", "chunk", "gap", "conn", "cut", "flip", "raw"):
                if plan["ops"][i].get(k):
                    c = clone(plan)
                    c["ops"][i].pop(k)
                    plan = first([c]) or plan
            while plan["ops"][i].get("kind") == "pub" and plan["ops"][i].get("n", 0) > 1 and time.time() < t_end:
                c = clone(plan)
                c["ops"][i]["n"] //= 2
                r = first([c])
                if r is None:
                    break
                plan = r
            for j in range(len(plan["ops"][i].get("spans") or [])):
                for k in ("tags", "ann", "kind", "p", "svc", "n", "d", "long_n", "long_v"):
                    if plan["ops"][i]["spans"][j].get(k):
                        c = clone(plan)
                        c["ops"][i]["spans"][j].pop(k)
                        plan = first([c]) or plan
                if len(plan["ops"][i]["spans"][j].get("tags") or []) > 1:
                    def put(p, v, i=i, j=j):
                        p["ops"][i]["spans"][j]["tags"] = v
                    plan = shrink_list(plan, lambda p, i=i, j=j: p["ops"][i]["spans"][j]["tags"], put)
                if time.time() > t_end:
                    break
        if json.dumps(plan) == before or time.time() > t_end:
            break
    return plan, tried[0]


# ------------------------------------------------------------------ the check

def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    base = int(os.environ.get("VERIF_SEED", "1"))
    cfg = P.PROPS[prop]
    os.makedirs(VERIF + "/.build", exist_ok=True)
    out = tempfile.mkdtemp(prefix="%s-" % prop, dir=VERIF + "/.build")
    try:
        return run_check(prop, tier, base, cfg, out, t0)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def run_check(prop, tier, base, cfg, out, t0):
    known = load_known()
    print("seed %d tier %s property %s" % (base, tier, prop), flush=True)
    binary = B.build(out)
    t_build = time.time() - t0
    sim = Sim(binary, out)
    runs = cfg[tier]["runs"]
    cap = cfg[tier]["cap_s"]
    timeout = cfg.get("timeout", 180)
    workers = min(WORKERS, cfg.get("workers", WORKERS))
    t1 = time.time()
    seeds = [base * 1000003 + i for i in range(runs)]

    fired, probes, listed_seen = collections.Counter(), collections.Counter(), {}
    scheds, events = set(), set()
    n = nontrivial = sims = choices = steps = 0
    samples, found = [], None
    twice = []

    def job(seed):
        if time.time() - t1 > cap:
            return seed, None
        return seed, sim.one(prop, seed, timeout)

    with cf.ThreadPoolExecutor(workers) as ex:
        pending = {}
        it = iter(seeds)
        order = collections.deque()
        done = False
        while True:
            while len(order) < workers * 3 and not done:
                s = next(it, None)
                if s is None:
                    done = True
                    break
                order.append(ex.submit(job, s))
            if not order:
                break
            seed, r = order.popleft().result()
            if r is None:
                continue
            n += 1
            new, listed = split_known(prop, r, known)
            for k in listed:
                listed_seen[k] = seed
            fired.update(r["fired"] or {})
            probes.update(r["probes"] or {})
            sims += r["sim_seconds"]
            st = r.get("stats") or {}
            choices += st.get("Choices", 0)
            steps += st.get("Steps", 0)
            key = (r["sched_hash"], r["event_hash"])
            if key not in scheds:
                scheds.add(key)
                if st.get("Choices", 0) > 0 and all((r["probes"] or {}).get(p, 0) > 0 for p in cfg["nontrivial"]):
                    nontrivial += 1
            events.add(r["event_hash"])
            if len(twice) < cfg.get("recheck", 12):
                twice.append((seed, key))
            if new:
                found = (seed, r, new)
                for o in order:
                    o.cancel()
                break
    t_run = time.time() - t1

    # determinism: the same seed is the same execution
    for seed, key in ([] if found else twice):
        r2 = sim.one(prop, seed, timeout)
        if (r2["sched_hash"], r2["event_hash"]) != key:
            raise Trouble("seed %d is not deterministic: %s then %s" % (seed, key, (r2["sched_hash"], r2["event_hash"])))

    replay = None
    if found:
        replay = report(prop, sim, cfg, known, found, tier, timeout)
    else:
        for k in known:
            if k[0] == prop:
                print("KNOWN-FINDING: property=%s %s%s" % (prop, k[3], "" if k in listed_seen else " (not met in this batch)"))
        missing = [p for p in cfg["nontrivial"] + cfg.get("must_reach", []) if probes[p] + fired[p] == 0]
        if missing and tier == "quick" and n >= runs:
            raise Trouble("the batch never reached: %s" % ", ".join(missing))
        for s in seeds[:2]:
            plan = sim.gen(prop, s)
            samples.append({"seed": s, "ops": len(plan["ops"]), "faults": plan["faults"][:8], "sched": plan["sched"],
                            "knobs": plan.get("knobs"),
                            "first_ops": [brief(o) for o in plan["ops"][:3]]})

    ev = {
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": n, "distinct_nontrivial": nontrivial,
            "rule": "one evaluation is one simulated execution of a plan generated from its seed (workload, faults, scheduler "
                    "policy). Distinct: its schedule hash (sequence of goroutines dispatched) and history hash were not seen "
                    "before in this batch. Non-trivial: the scheduler had real choices and the run reached " +
                    (", ".join(cfg["nontrivial"]) or "its oracle") + ".",
            "samples": samples or [{"seed": seeds[0]}],
            "simulated_seconds": round(sims, 1),
            "runs_per_hour": int(n / max(t_run, 1e-3) * 3600),
            "simulated_hours_per_hour": round(sims / max(t_run, 1e-3), 1),
            "seeds": [seeds[0], seeds[min(n, runs) - 1] if n else seeds[0]],
            "distinct_schedules": len(scheds), "distinct_histories": len(events),
            "scheduling_decisions": steps, "scheduling_choices": choices,
            "faults_fired": dict(sorted(fired.items())), "probes": dict(sorted(probes.items())),
            "determinism_rechecks": 0 if found else len(twice),
            "real_components": cfg["real"], "stubs": cfg["stub"],
            "build_s": round(t_build, 1),
        },
        "assumptions": P.ASSUMPTIONS + cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if found else 0,
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if found:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    print("%s: held in %d runs (%d distinct and non-trivial), %.0f simulated seconds, %.0fs" %
          (prop, n, nontrivial, sims, time.time() - t0))
    return 0


def brief(op):
    o = {k: v for k, v in op.items() if k not in ("spans", "raw", "arr")}
    if op.get("spans"):
        o["n_spans"] = len(op["spans"])
        o["span0"] = {k: (v if len(str(v)) < 200 else str(v)[:200]) for k, v in op["spans"][0].items()}
    return o


def report(prop, sim, cfg, known, found, tier, timeout):
    seed, r, new = found
    v = new[0]
    sig = signature(v)
    plan = sim.gen(prop, seed)
    print("violation in seed %d: [%s] %s" % (seed, v["kind"], v["msg"]), flush=True)
    r1 = sim.plan(plan, timeout)
    if not any(signature(x) == sig for x in split_known(prop, r1, known)[0]):
        raise Trouble("the plan of seed %d does not reproduce the violation" % seed)
    size = lambda p: (len(p["ops"]), sum(len(o.get("spans") or []) for o in p["ops"]), len(p["faults"]))
    before = size(plan)
    plan, tried = minimise(sim, plan, sig, known, cfg.get("minimise_s", 90 if tier == "quick" else 240), timeout)
    a = sim.plan(plan, timeout, log=True)
    b = sim.plan(plan, timeout, log=True)
    av = [x for x in split_known(prop, a, known)[0] if signature(x) == sig]
    if not av or a["violations"] != b["violations"] or a["event_hash"] != b["event_hash"]:
        raise Trouble("the minimised plan does not replay exactly")
    os.makedirs(VERIF + "/evidence/replays", exist_ok=True)
    path = "%s/evidence/replays/%s-%d.json" % (VERIF, prop, seed)
    plan["violation"] = av[0]
    plan["found"] = {"seed": seed, "message": v["msg"], "size_before": before, "size_after": size(plan), "tries": tried}
    if a.get("crash"):
        plan["crash"] = a["crash"]
    plan["trace"] = (a.get("log") or [])[-400:]
    with open(path, "w") as f:
        json.dump(plan, f, indent=1)
        f.write("\n")
    print("minimised from (ops, spans, faults) %s to %s in %d runs: [%s] %s" %
          (before, size(plan), tried, av[0]["kind"], av[0]["msg"]))
    return path


def replay(path):
    os.makedirs(VERIF + "/.build", exist_ok=True)
    out = tempfile.mkdtemp(prefix="replay-", dir=VERIF + "/.build")
    try:
        sim = Sim(B.build(out), out)
        with open(path) as f:
            plan = json.load(f)
        r = sim.plan(plan, 600, log=True)
        for l in r.get("log") or []:
            print(l)
        if r.get("crash"):
            print(r["crash"])
        for v in r["violations"] or []:
            print("[%s] %s" % (v["kind"], v["msg"]))
        if r["violations"]:
            print("VIOLATION property=%s replay=%s" % (plan["prop"], path))
            return 1
        print("no violation")
        return 0
    finally:
        shutil.rmtree(out, ignore_errors=True)


def main():
    try:
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
        return check(sys.argv[1])
    except (Trouble, B.BuildError) as e:
        print("CHECK-ERROR %s" % e)
        return 3


if __name__ == "__main__":
    sys.exit(main())
