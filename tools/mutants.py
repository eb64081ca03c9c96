#!/usr/bin/env python3
"""Development aid: applies each mutant below to a scratch copy of /repo and runs the
checks of the properties it should break; lists the ones no check reports.
usage: mutants.py [-j N] [--tests] [ID-regex]"""
import os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
if not VERIF.startswith("/tmp/"):  # run from a snapshot so that editing can go on
    snap = "/tmp/mutsnap.%d" % os.getpid()
    shutil.copytree(VERIF, snap, ignore=shutil.ignore_patterns("run", ".git", "seeded", "evidence"))
    rc = subprocess.run([sys.executable, snap + "/tools/mutants.py"] + sys.argv[1:]).returncode
    shutil.rmtree(snap); sys.exit(rc)
N = "src/naive/"
M = []
def m(i, f, old, new, props): M.append((i, f, old, new, props.split()))
exec(open(os.path.join(HERE, "mutants_list.py")).read())

def one(mu):
    i, f, old, new, props = mu
    root = "/tmp/mut/%d.%s" % (os.getpid(), i)
    shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
    os.makedirs(root + "/repo")
    subprocess.run("git -C /repo archive HEAD src include config.h.in | tar x -C %s/repo" % root, shell=True, check=True)
    p = root + "/repo/" + f
    t = open(p).read()
    if t.count(old) < 1:
        shutil.rmtree(root); return i, "NO-MATCH", 0
    t = t.replace(old, new, 1); open(p, "w").write(t)
    os.makedirs(root + "/build")
    for x in ("xsym", "xsym.stamp", "rt.o"):
        shutil.copy(VERIF + "/build/" + x, root + "/build/")
    t0 = time.time(); out = []
    for pr in props:
        env = dict(os.environ, XSYM_REPO=root + "/repo", XSYM_BUILD=root + "/build", XSYM_EVIDENCE=root)
        r = subprocess.run(["python3", VERIF + "/run.py", pr, "-v"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        o = r.stdout.decode(errors="replace")
        open("/tmp/mut/%s.%s.log" % (i, pr), "w").write(o)
        bad = re.findall(r"(?m)^(\S+) +(?:not-encodable|engine-failed|compile-failed|unsupported|failed)", o)
        out.append("%s=%d%s" % (pr, r.returncode, "(" + ",".join(bad) + ")" if bad else ""))
    shutil.rmtree(root)
    return i, " ".join(out), time.time() - t0

if __name__ == "__main__":
    a = sys.argv[1:]; j = 3
    if "--from" in a: k = a.index("--from"); f = a[k + 1]; del a[k:k + 2]; M = M[[x[0] for x in M].index(f):]
    if "-j" in a: k = a.index("-j"); j = int(a[k + 1]); del a[k:k + 2]
    sel = [x for x in M if not a or re.fullmatch(a[0], x[0])]
    os.makedirs("/tmp/mut", exist_ok=True)
    with ThreadPoolExecutor(j) as ex:
        for i, o, t in ex.map(one, sel):
            caught = "=1" in o
            print("%-7s %-28s %s  %.0fs" % ("caught" if caught else ("????" if "NO-MATCH" in o else "MISSED"), i, o, t), flush=True)
