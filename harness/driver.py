"""Driver (CPython 3): starts Jython workers that execute the real code under
the property's monitor, merges what they observed, writes the evidence file
and gives the verdict.

exit 0  every execution explored satisfied the property
exit 1  a violation was observed (and its line printed)
exit 2  no verdict (harness trouble, or the monitor observed nothing)
"""
import glob, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
HANG_S = float(os.environ.get("VERIF_HANG_S", "100"))      # heartbeat limit
MAXWALL = {"quick": 840, "thorough": 4 * 3600}


def known_findings(prop):
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                fields = line.split(None, 3)
                kind = fields[2].split("=", 1)[1]
                known[kind] = fields[3] if len(fields) > 3 else ""
    return known


class Worker(object):
    def __init__(self, prop, tier, seed, n, total, scratch, only=None):
        self.dir = os.path.join(scratch, "w%s" % n)
        os.makedirs(os.path.join(self.dir, "tmp"))
        self.out = os.path.join(self.dir, "out.json")
        self.beat = os.path.join(self.dir, "beat")
        self.log = os.path.join(self.dir, "log")
        env = dict(os.environ, TMPDIR=os.path.join(self.dir, "tmp"),
                   JYTHONPATH="/repo/lib:/opt/jy/lib",
                   JAVA_TOOL_OPTIONS="-Xmx3g")
        cmd = ["jython2", os.path.join(HERE, "worker.py"), prop, tier,
               str(seed), str(n), str(total), self.dir]
        if only:
            cmd += [only]
        self.proc = subprocess.Popen(cmd, env=env, cwd=self.dir,
                                     stdin=subprocess.DEVNULL,
                                     stdout=open(self.log, "wb"),
                                     stderr=subprocess.STDOUT,
                                     start_new_session=True)
        self.last = (None, time.time())

    def stuck(self):
        try:
            cur = open(self.beat).read()
        except OSError:
            cur = ""
        if cur != self.last[0]:
            self.last = (cur, time.time())
        return time.time() - self.last[1] > HANG_S

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def result(self):
        try:
            with open(self.out, encoding="utf-8") as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def tail(self):
        try:
            return open(self.log, errors="replace").read()[-2500:]
        except OSError:
            return ""


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in MAXWALL:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    only = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        rep = json.load(open(sys.argv[3]))
        tier, seed, only = rep["tier"], rep["seed"], rep["case"]
    t0 = time.time()
    total = 1 if only else int(os.environ.get("VERIF_JOBS", "6"))
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    violations, problems, notes = [], [], []
    merged = dict(cases=0, observed={}, samples=[], sigs=set(), groups={})
    meta = {}
    try:
        workers = [Worker(prop, tier, seed, n, total, scratch, only)
                   for n in range(total)]
        live = list(workers)
        while live:
            time.sleep(0.1)
            for w in list(live):
                if w.proc.poll() is not None:
                    live.remove(w)
                elif time.time() - t0 > MAXWALL[tier]:
                    w.kill()
                    live.remove(w)
                    problems.append("wall limit reached")
                elif w.stuck():
                    case = w.last[0]
                    w.kill()
                    live.remove(w)
                    if not case or case == "start":
                        problems.append("worker never started: " + w.tail())
                        continue
                    # confirm alone, in a fresh process with the machine idle
                    for o in live:
                        os.killpg(o.proc.pid, signal.SIGSTOP)
                    c = Worker(prop, tier, seed, "confirm%d" % len(violations),
                               1, scratch, case)
                    while c.proc.poll() is None and not c.stuck():
                        time.sleep(0.1)
                    hung = c.proc.poll() is None
                    if hung:
                        c.kill()
                        violations.append(dict(case=case, kind="hang", msg=
                            "no termination within %d s, twice" % HANG_S))
                    else:
                        problems.append("case %s slow, not confirmed" % case)
                        r = c.result()
                        if r:
                            violations += r["violations"]
                    for o in live:
                        o.last = (o.last[0], time.time())
                        os.killpg(o.proc.pid, signal.SIGCONT)
                    if hung:
                        # verdict reached: the other workers are probably
                        # stuck on the same thing
                        for o in list(live):
                            o.kill()
                            live.remove(o)
                        break
        for w in workers:
            r = w.result()
            if r is None:
                if not violations:
                    problems.append("worker gave no result: " + w.tail())
                continue
            meta = r["meta"]
            merged["cases"] += r["cases"]
            for k, v in r["observed"].items():
                merged["observed"][k] = merged["observed"].get(k, 0) + v
            for k, v in r["groups"].items():
                merged["groups"][k] = merged["groups"].get(k, 0) + v
            merged["sigs"].update(r["sigs"])
            merged["samples"] += r["samples"]
            violations += r["violations"]
            problems += r["problems"]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = known_findings(prop)
    new, seen_known = [], set()
    for v in violations:
        if v["kind"] in known:
            seen_known.add(v["kind"])
        else:
            new.append(v)
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))

    wall = time.time() - t0
    if not only:
        need = meta.get("required", [])
        for key in need:
            if not merged["observed"].get(key):
                problems.append("monitor never observed %r" % key)
        if merged["cases"] == 0 or not merged["sigs"]:
            problems.append("nothing observed")
        # one sample per group first
        byg, rest = {}, []
        for s in merged["samples"]:
            byg.setdefault(s.get("group"), []).append(s)
        picked = [v[0] for _, v in sorted(byg.items())]
        evidence = dict(
            property=prop, tier=tier, seed=seed, level=meta.get("level", "exploration"),
            coverage=dict(
                evaluations=merged["cases"],
                distinct_nontrivial=len(merged["sigs"]),
                rule=meta.get("rule", ""),
                samples=picked or merged["samples"][:5],
                cases_per_group=merged["groups"],
                monitor_observations=merged["observed"],
                inconclusive=problems[:10],
                known_findings_seen=sorted(seen_known)),
            assumptions=meta.get("assumptions", []),
            wall_s=round(wall, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, sort_keys=True)

    if new:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        kinds = {}
        for v in new:
            kinds.setdefault(v["kind"], []).append(v)
        for kind, vs in sorted(kinds.items()):
            v = vs[0]
            name = "%s-%s.json" % (prop, "".join(
                c if c.isalnum() else "_" for c in kind)[:50])
            path = os.path.join(rdir, name)
            with open(path, "w") as f:
                json.dump(dict(v, property=prop, tier=tier, seed=seed,
                               rerun="bash /verif/run.sh %s --replay %s" % (prop, path)),
                          f, indent=1)
            print("  [%s] x%d case %s: %s" % (kind, len(vs), v["case"],
                                              v["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if problems:
        print("INCONCLUSIVE property=%s" % prop)
        for p in problems[:10]:
            print("  " + p[:3000])
        sys.exit(2)
    print("OK property=%s cases=%d distinct=%d wall=%.1fs %s" % (
        prop, merged["cases"], len(merged["sigs"]), wall,
        json.dumps(merged["groups"], sort_keys=True)))


main()
