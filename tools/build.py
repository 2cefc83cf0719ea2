#!/usr/bin/env python3
"""Builds the simulator: library sources of the repository and workloads with
the instrumentation that hands every memory access and synchronisation operation
to the simulation runtime, and the runtime itself without."""
import hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

here, repo, out = sys.argv[1:4]
os.makedirs(out, exist_ok=True)
INST = ("-std=c++11 -O1 -g1 -fno-omit-frame-pointer -fsanitize=thread -fno-builtin-memcmp -fno-builtin-strlen -D_GLIBCXX_EXTERN_TEMPLATE=0 "
        "-DREFLECT_USE_EXCEPTIONS=1 -Wno-tsan -w").split()
HOST = "-std=c++11 -O2 -g1 -w".split()
WRAP = ("pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_clocklock pthread_mutex_unlock "
        "pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock "
        "pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast pthread_once "
        "__cxa_thread_atexit __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __cxa_allocate_exception "
        "memcpy memmove memset memcmp strlen memchr sched_yield nanosleep clock_nanosleep usleep").split()

def library():
    """The sources that make up the library: what CMakeLists.txt lists, plus new
    files next to them."""
    import re
    src = os.path.join(repo, "src")
    files = []
    for d, dirs, names in os.walk(src):
        dirs.sort()
        rel = os.path.relpath(d, src)
        if "config" in rel.split(os.sep):
            continue
        for n in sorted(names):
            if n.endswith(".cpp"):
                files.append(os.path.join(d, n))
    # .cpp files that are included by others aren't translation units of their own
    text = ""
    for f in files:
        text += open(f, errors="replace").read()
    inc = set(os.path.normpath(os.path.join(src, m)) for m in re.findall(r'#include\s+"([^"]+\.cpp)"', text))
    inc |= set(os.path.normpath(os.path.join(os.path.dirname(f), m)) for f in files
               for m in re.findall(r'#include\s+"([^"]+\.cpp)"', open(f, errors="replace").read()))
    return [f for f in files if os.path.normpath(f) not in inc]

jobs = []
for f in library():
    o = "lib_" + os.path.relpath(f, repo).replace("/", "_")[:-4] + ".o"
    jobs.append((f, o, INST))
for f in sorted(os.listdir(here + "/wl")):
    if f.endswith(".cpp"):
        jobs.append((here + "/wl/" + f, "wl_" + f[:-4] + ".o", INST))
for f in ("rt", "plan", "main"):
    jobs.append((here + "/sim/" + f + ".cpp", f + ".o", HOST))
# the slow ones first
cost = {"lib_src_utils_json_json.o": 9, "lib_src_reflect.o": 8}
jobs.sort(key=lambda j: -(cost.get(j[1], 0) + os.path.getsize(j[0]) / 1500. * (3 if j[1].startswith("wl_") else 1)))

def headers():
    h = hashlib.sha256()
    for root in (repo + "/src", here + "/wl", here + "/sim"):
        for d, dirs, names in sorted(os.walk(root)):
            for n in sorted(names):
                if root.startswith(here) and n.endswith(".cpp"):
                    continue
                h.update(n.encode()); h.update(open(os.path.join(d, n), "rb").read())
    return h.hexdigest()
hdr = headers()

def compile(job):
    f, o, flags = job
    o = os.path.join(out, o)
    key = hashlib.sha256((hdr + " ".join(flags)).encode() + open(f, "rb").read()).hexdigest()
    try:
        if open(o + ".key").read() == key and os.path.exists(o):
            return None
    except OSError:
        pass
    p = subprocess.run(["g++"] + flags + ["-I" + repo + "/src", "-c", f, "-o", o], capture_output=True, text=True)
    if p.returncode:
        return "%s\n%s" % (f, p.stderr[-4000:])
    open(o + ".key", "w").write(key)
    return None

with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
    errs = [e for e in ex.map(compile, jobs) if e]
if errs:
    sys.stderr.write("\n".join(errs) + "\n")
    sys.exit(2)
objs = [os.path.join(out, j[1]) for j in jobs]
link = ["g++", "-static", "-no-pie", "-g1"] + objs + ["-o", out + "/sim.new", "-lpthread"] + ["-Wl,--wrap=" + w for w in WRAP]
p = subprocess.run(link, capture_output=True, text=True)
if p.returncode:
    sys.stderr.write(p.stderr[-6000:] + "\n")
    sys.exit(2)
os.rename(out + "/sim.new", out + "/sim")
