"""Determinism: the same plan gives the same execution in whatever process."""
import os, subprocess, sys, tempfile, time, random

def replay(sim, plan, pre, env):
    p = subprocess.run(pre + [sim, "replay", plan], capture_output=True, text=True, errors="replace", env=env, timeout=200)
    d = {}
    for l in p.stdout.splitlines():
        k, _, v = l.partition(" ")
        d[k] = v
    return p.returncode, d.get("status"), d.get("hash"), d.get("steps"), d.get("events"), d.get("msg")

def main(sim, seconds):
    listed = [l.split() for l in subprocess.run([sim, "list"], capture_output=True, text=True).stdout.splitlines()]
    listed = [(l[0], l[1]) for l in listed if len(l) >= 2]
    end, n, bad, seed = time.time() + seconds, 0, 0, 5
    tmp = tempfile.mkdtemp(prefix="refself")
    try:
        while time.time() < end:
            seed += 1
            for prop, wl in listed:
                plan = tmp + "/p.plan"
                with open(plan, "w") as f:
                    subprocess.run([sim, "gen", prop, str(seed), wl], stdout=f)
                a = replay(sim, plan, [], dict(os.environ, SIM_CPU="0"))
                # another processor, another size of the environment, other addresses
                b = replay(sim, plan, [], dict(os.environ, SIM_CPU=str(seed % (os.cpu_count() or 1)), PADDING="x" * (seed * 37 % 4000)))
                n += 1
                if a != b:
                    bad += 1
                    print("seed %d of %s %s differs:\n  %s\n  %s" % (seed, prop, wl, a, b))
            if bad > 5: break
    finally:
        for f in os.listdir(tmp): os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    print("%d plans of %d workloads run twice each, %d differ" % (n, len(listed), bad))
    return 1 if bad else 0
