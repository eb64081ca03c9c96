#!/usr/bin/env python3
"""mkseed.py SPEC...: plants bugs from specs (FILE, OLD, NEW or EDITS, PROP, NEEDS, BREAKS, DEMO) in a private copy of /repo
(mount namespace), runs the demonstration without and with the change, the tests and the check, then stores seeded/<name>."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = open(V + "/seeded/sem-notify-one/demo.sh").read()
nocheck = "--nocheck" in sys.argv
for spec in [a for a in sys.argv[1:] if not a.startswith("--")]:
    i = os.path.basename(spec)[:-3]; ns = {}; exec(open(spec).read(), ns)
    w = "/tmp/ms/" + i; shutil.rmtree(w, ignore_errors=True); os.makedirs("/tmp/ms", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    subprocess.run(["git", "-C", w, "checkout", "-q", "--", "."], check=True)
    d = V + "/seeded/" + i; os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(ns["DEMO"]); open(d + "/demo.sh", "w").write(ns.get("DEMO_SH", DEMO_SH))
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"))
    for f, o, n in ns.get("EDITS") or [(ns["FILE"], ns["OLD"], ns["NEW"])]:
        t = open(w + "/" + f).read(); assert t.count(o) >= 1, (i, f, o); open(w + "/" + f, "w").write(t.replace(o, n, 1))
    diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE).stdout.decode()
    open(d + "/patch.diff", "w").write(diff)
    subprocess.run(["git", "-C", w, "checkout", "-q", "--", "."], check=True)
    def inns(c): return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && (%s) > /tmp/ms/%s.log 2>&1" % (w, c, i)]).returncode
    n = int(ns.get("N", 3))
    inns("bash /opt/vp/build.sh")
    clean = [inns("timeout 300 bash %s/demo.sh" % d) for _ in range(n)]
    subprocess.run(["git", "-C", w, "apply", d + "/patch.diff"], check=True)
    b = inns("bash /opt/vp/build.sh")
    if b: print(i, "BUILD FAILED"); continue
    bad = [inns("timeout 300 bash %s/demo.sh" % d) for _ in range(n)]
    inns("bash /opt/vp/test.sh /repo/_build/out.json")
    fails = sorted(BASE - set(json.load(open(w + "/_build/out.json"))["passed"]))
    res = "-"
    if not nocheck:
        os.makedirs(w + "/xb")
        for x in ("xsym", "xsym.stamp", "rt.o"): shutil.copy(V + "/build/" + x, w + "/xb/")
        r = subprocess.run(["python3", V + "/run.py", ns["PROP"], "-v"], env=dict(os.environ, XSYM_REPO=w, XSYM_BUILD=w + "/xb", XSYM_EVIDENCE=w + "/xb"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        open("/tmp/ms/%s.check" % i, "wb").write(r.stdout); res = "caught" if r.returncode == 1 else "NOT CAUGHT"
    bl = 0
    ok = not any(clean) and all(bad) and not fails
    print("%-20s %s %s clean=%s patched=%s tests=%s %s" % (i, ns["PROP"], "OK" if ok else "BAD", clean, bad, "pass" if not fails else fails[:3], res), flush=True)
    shutil.rmtree(w, ignore_errors=True)
