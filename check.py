#!/usr/bin/env python3
"""check.py PROPERTY           - decides a property by seeded simulation of /repo's working tree
   check.py --replay FILE       - runs a replay file and explains what happens
   check.py --selftest [SECS]   - determinism: every run twice, in different processes and at other worker counts

Exit 0: held on everything explored. Exit 1: "VIOLATION property=<id> replay=<path>".
Anything else is an error of the check."""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", HERE + "/build")
sys.path.insert(0, HERE + "/tools")
import meta

def fail(msg, code=3):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(code)

def build():
    t = time.time()
    p = subprocess.run([HERE + "/build.sh", BUILD, REPO], capture_output=True, text=True)
    if p.returncode:
        print(p.stdout[-2000:] + p.stderr[-6000:])
        fail("the simulator doesn't build against %s" % REPO, 2)
    return time.time() - t

def unescape(s):
    def f(m):
        c = m.group(1)
        return {"s": " ", "n": "\n", "e": "", "\\": "\\"}.get(c[0], chr(int(c[1:], 16)) if c[0] == "x" else c)
    return re.sub(r"\\(x[0-9a-f]{2}|.)", f, s)

def fields(text):
    d = {}
    for l in text.splitlines():
        k, _, v = l.partition(" ")
        d[k] = v
    return d

def run(args, timeout):
    try:
        return subprocess.run([BUILD + "/sim"] + args, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        fail("the simulator didn't finish within %d s: %s" % (timeout, " ".join(args)))

def replay(path):
    p = run(["replay", path], 200)
    return p.returncode, fields(p.stdout)

def symbols(pcs):
    """Return addresses to function and line."""
    pcs = [p for p in pcs if p]
    if not pcs:
        return []
    back = ["%x" % (int(p, 16) - 1) for p in pcs]
    try:
        o = subprocess.run(["addr2line", "-Cfpe", BUILD + "/sim"] + back, capture_output=True, text=True, timeout=60).stdout
    except Exception:
        return pcs
    r = []
    for l in o.splitlines():
        l = re.sub(r"\(discriminator \d+\)", "", l)
        r.append(l.replace(REPO + "/", "").replace(HERE + "/", "").strip()[:220])
    return r

def explain(d):
    out = ["  workload %s, %s" % (d.get("workload"), d.get("kind"))]
    out += ["  " + l for l in unescape(d.get("msg", "")).splitlines()]
    for k, name in (("stack0", "at"), ("stack1", "other thread at")):
        s = symbols(d.get(k, "").split())
        if s:
            out.append("  %s:" % name)
            out += ["    " + x for x in s[:14]]
    return "\n".join(out)

def known():
    r = []
    try:
        for l in open(HERE + "/known_findings.txt"):
            m = re.match(r"finding: property=(\S+) workload=(\S+) kind=(\S+) match=/(.*)/ (.*)", l)
            if m:
                r.append(dict(zip(("property", "workload", "kind", "match", "text"), m.groups())))
    except OSError:
        pass
    return r

def search(prop, seed0, seconds, out, workload=None, workers=None, count=None):
    n = workers or os.cpu_count() or 4
    procs = []
    for k in range(n):
        env = dict(os.environ, SIM_CPU=str(k))
        # the seeds are consecutive and belong to the workers in turn
        a = [BUILD + "/sim", "batch", prop, str(seed0 + k), str(n), str(count or 10 ** 12), str(seconds), out]
        if workload:
            a.append(workload)
        procs.append(subprocess.Popen(a, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
    end = time.time() + seconds + 240
    err = b""
    for p in procs:
        try:
            err += p.communicate(timeout=max(1, end - time.time()))[1]
        except subprocess.TimeoutExpired:
            for q in procs:
                q.kill()
            fail("a worker didn't finish in time")
    s = {"wl": {}, "probe": {}, "probeRuns": {}, "n": {}, "sample": None, "why": []}
    sets = [set(), set(), set()]
    done = 0
    for f in os.listdir(out):
        if f.startswith("summary-"):
            for k, v in fields(open(os.path.join(out, f), errors="replace").read()).items():
                if k == "end": done += 1
                elif k == "sample": s["sample"] = s["sample"] or unescape(v)
                elif k == "why": s["why"].append(unescape(v))
                elif k == "wall": s["n"]["wall"] = max(s["n"].get("wall", 0), float(v))
                elif ":" in k:
                    a, b = k.split(":", 1)
                    b = unescape(b)
                    s[a][b] = s[a].get(b, 0) + int(v)
                elif k.startswith("max"): s["n"][k] = max(s["n"].get(k, 0), int(v))
                else: s["n"][k] = s["n"].get(k, 0) + int(v)
        if f.startswith("hashes-"):
            d = open(os.path.join(out, f), "rb").read()
            c = struct.unpack("<3Q", d[:24])
            at = 24
            for i in range(3):
                sets[i].update(struct.unpack("<%dQ" % c[i], d[at:at + 8 * c[i]]))
                at += 8 * c[i]
    if done != n:
        fail("%d of %d workers ended early: %s" % (n - done, n, err.decode(errors="replace")[-2000:]))
    s["distinct"] = [len(x) for x in sets]
    return s

def evidence(prop, tier, seed, s, wall, build_s, violations, findings, reported):
    n = s["n"]
    m = meta.PROPS[prop]
    hours = max(n.get("wall", 0), 1e-3) / 3600
    sched = ["sequential", "uniform preemption", "preemption at synchronisation operations",
             "preemption at shared memory accesses", "PCT priorities"]
    e = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n["runs"],
            "distinct_nontrivial": s["distinct"][1],
            "rule": m["rule"] + " A run is non-trivial if it had a preemption, a blocked thread or an injected fault, or if its workload "
                    "marked it as exercising the property; runs are distinct if the hash of every simulated step differs.",
            "samples": [s["sample"] or ""],
            "runs_per_hour": int(n["runs"] / hours),
            "seeds_per_hour": int(n["runs"] / hours),
            "seeds": "%d onwards, consecutive" % s["seed0"],
            "repeated_runs_with_equal_hash": n["rechecked"],
            "simulated_steps": n["steps"],
            "instrumented_events": n["events"], "most_in_a_run": n["maxEvents"],
            "bound_on_progress": "%d instrumented events a run" % 300000000,
            "simulated_time": "no code under test reads a clock; simulated time is counted in scheduler steps (simulated_steps); timed waits that expired: %d" % n["simTime"],
            "context_switches": n["switches"], "preemptions": n["preemptions"], "blocked": n["blocks"],
            "faults_injected": dict({"failed allocations": n["allocFaults"], "exceptions from user code (copies, moves, targets, functors)": n["userFaults"],
                                "runs with a fault": n["faultRuns"]},
                                **{k[6:].strip(): v for k, v in s["probe"].items() if k.startswith("fault:")}),
            "fault_points_passed": {"allocations": n["armedAllocs"], "workload": n["userPoints"]},
            "distinct_interleavings": {"count": s["distinct"][0], "measure": "sequence of (from, to, code location) of all context switches, with the workload"},
            "distinct_outcomes": {"count": s["distinct"][2], "measure": "workload-defined hash of what was observed"},
            "schedules": {sched[i]: n.get("sched%d" % i, 0) for i in range(5)},
            "workloads": s["wl"],
            "reached": {k: v for k, v in s["probe"].items() if not k.startswith("fault:")}, "reached_in_runs": s["probeRuns"],
            "components": {"real": meta.REAL, "stub": m.get("stub", meta.STUB)},
            "known_findings": findings,
            "build_s": round(build_s, 1),
        },
        "assumptions": meta.ASSUMPTIONS + m.get("assumptions", []),
        "wall_s": round(wall, 1),
        "violations": violations,
    }
    if reported:
        e["coverage"]["violation"] = reported
    os.makedirs(HERE + "/evidence", exist_ok=True)
    tmp = HERE + "/evidence/.%s.tmp" % prop
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")
    os.rename(tmp, HERE + "/evidence/%s.json" % prop)

def settle(prop, out, minutes):
    """A violation was found: minimise it, and make sure it repeats."""
    v = sorted((f for f in os.listdir(out) if f.startswith("violation-") and f.endswith(".plan")),
               key=lambda f: os.path.getsize(os.path.join(out, f)))
    if not v:
        return None
    base = os.path.join(out, v[0][:-5])
    seed = v[0][len("violation-"):-5]
    os.makedirs(HERE + "/replays", exist_ok=True)
    dst = HERE + "/replays/%s-%s.plan" % (prop, seed)
    want = fields(open(base + ".txt", errors="replace").read())
    p = run(["minimize", base + ".plan", base + ".orig", dst, str(minutes * 60)], minutes * 60 + 400)
    if p.returncode:
        shutil.copy(base + ".orig", dst)
    r1, d1 = replay(dst)
    r2, d2 = replay(dst)
    if r1 != 1 or r2 != 1 or d1["hash"] != d2["hash"] or d1["kind"] != want["kind"]:
        # fall back to the run as it was found
        shutil.copy(base + ".orig", dst)
        r1, d1 = replay(dst)
        r2, d2 = replay(dst)
        if r1 != 1 or r2 != 1 or d1["hash"] != d2["hash"]:
            fail("the violation of seed %s doesn't repeat (%s / %s)" % (seed, d1.get("kind"), d2.get("kind")))
    with open(dst, "a") as f: # after the end marker: for people
        f.write("\n" + "\n".join("# " + l for l in explain(d1).splitlines()) + "\n")
    return dst, d1

def check(prop):
    if prop not in meta.PROPS:
        fail("unknown property " + prop)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    seconds = float(os.environ.get("VERIF_SECONDS") or meta.SECONDS[tier])
    print("property %s, seed %d, %s: %s" % (prop, seed, tier, meta.PROPS[prop]["title"]))
    sys.stdout.flush()
    build_s = build()
    seed0 = seed * 10 ** 9
    tmp = tempfile.mkdtemp(prefix="refsim")
    try:
        findings, bad = [], None
        for k in [k for k in known() if k["property"] == prop]:
            # recorded defects have a workload of their own
            out = tmp + "/known"
            os.makedirs(out)
            search(prop, seed0, 20, out, workload=k["workload"], workers=1, count=3)
            v = settle(prop, out, 0.2)
            if v and v[1]["kind"] == k["kind"] and re.search(k["match"], unescape(v[1]["msg"])):
                print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
                findings.append(k["text"])
                os.unlink(v[0])
            elif v:
                bad = v
            shutil.rmtree(out)
        out = tmp + "/search"
        os.makedirs(out)
        s = search(prop, seed0, seconds, out)
        s["seed0"] = seed0
        v = bad or settle(prop, out, 0.75 if tier == "quick" else 5)
        if not v and (s["n"]["broken"] or s["n"]["runs"] < 50):
            keep = HERE + "/build/broken"
            os.makedirs(keep, exist_ok=True)
            for f in os.listdir(out):
                if f.startswith("broken"): shutil.copy(os.path.join(out, f), keep)
            fail("%d runs, %d broken: %s" % (s["n"]["runs"], s["n"]["broken"], "; ".join(s["why"])))
        n = s["n"]
        evidence(prop, tier, seed, s, time.time() - t0, build_s, 1 if v else 0, findings,
                 {"replay": v[0], "kind": v[1]["kind"], "message": unescape(v[1]["msg"])} if v else None)
        print("%d runs in %.0f s (build %.0f s): %d distinct executions, %d distinct interleavings, %d context switches, %d failed allocations, faults in %d runs"
              % (n["runs"], n["wall"], build_s, s["distinct"][1], s["distinct"][0], n["switches"], n["allocFaults"], n["faultRuns"]))
        if v:
            print(explain(v[1]))
            print("replay with: %s/check.py --replay %s" % (HERE, v[0]))
            print("VIOLATION property=%s replay=%s" % (prop, v[0]))
            sys.stdout.flush()
            sys.exit(1)
        print("held on everything explored")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        build()
        r, d = replay(a[1])
        print("status", d.get("status"))
        if r == 1:
            print(explain(d))
            print("VIOLATION property=%s replay=%s" % (d.get("property"), a[1]))
        sys.exit(r)
    if a[:1] == ["--selftest"]:
        import selftest
        build()
        sys.exit(selftest.main(BUILD + "/sim", float(a[1]) if len(a) > 1 else 60))
    if a[:1] == ["--build"]:
        print("built in %.0f s" % build())
        return
    if len(a) != 1:
        print(__doc__)
        sys.exit(2)
    check(a[0])

main()
