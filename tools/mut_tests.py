#!/usr/bin/env python3
"""Which changes of mutants_list.py survive the existing tests (private mount namespace, nothing outside /tmp/mt is touched)."""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = []; N = "src/naive/"
def m(i, f, old, new, props): M.append((i, f, old, new, props))
exec(open(V + "/tools/mutants_list.py").read())
ROOT = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, stdout=subprocess.PIPE).stdout.decode()[:7]
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def orig(f, old, new):
    t = open("/repo/" + f).read(); i = t.index(old)
    a = t[:i].count("\n") + 1; b = t[:i + len(old)].count("\n") + 1
    tn = t.replace(old, new, 1)
    import difflib
    rem = []
    for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, t.split("\n"), tn.split("\n"), autojunk=False).get_opcodes():
        if tag in ("replace", "delete"): rem += range(i1 + 1, i2 + 1)
    bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", f], stdout=subprocess.PIPE).stdout.decode().split("\n")
    return "%d/%d" % (sum(1 for r in rem if bl[r - 1].startswith("^" + ROOT)), len(rem))

def one(x):
    i, f, old, new, props = x
    w = "/tmp/mt/" + i
    shutil.rmtree(w, ignore_errors=True); os.makedirs("/tmp/mt", exist_ok=True)
    try:
        o = orig(f, old, new)
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        p = w + "/" + f; t = open(p).read(); open(p, "w").write(t.replace(old, new, 1))
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && bash /opt/vp/test.sh /repo/_build/out.json > /repo/_build/log.txt 2>&1" % w])
        j = json.load(open(w + "/_build/out.json"))
        bad = sorted(BASE - set(j["passed"]))
        res = "nobuild" if not j["passed"] else "PASS" if not bad else "fails " + " ".join(bad)[:100]
    except Exception as e:
        o = "?"; res = "error " + repr(e)[:100]
    shutil.rmtree(w, ignore_errors=True)
    return i, props, o, res

a = sys.argv[1:]; j = 2
if "-j" in a: k = a.index("-j"); j = int(a[k + 1]); del a[k:k + 2]
ids = set(open(a[0]).read().split())
with ThreadPoolExecutor(j) as ex:
    for r in ex.map(one, [x for x in M if x[0] in ids]): print("%-26s %-12s orig %-5s %s" % r, flush=True)
