#!/usr/bin/env python3
"""Reverts each repair of known_findings.txt in a scratch clone and runs the property's check: it has to report the violation again."""
import os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = re.findall(r"(?m)^fixed: property=(C\d+) ([0-9a-f]{7})", open(V + "/known_findings.txt").read())
for prop, c in F:
    if sys.argv[1:] and not re.fullmatch(sys.argv[1], prop + ":" + c): continue
    w = "/tmp/rf/%s.%s" % (prop, c); shutil.rmtree(w, ignore_errors=True); os.makedirs("/tmp/rf", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    r = subprocess.run(["git", "-C", w, "revert", "-n", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    how = "revert"
    if r.returncode: # later changes on top: take the tree as of before the repair
        subprocess.run(["git", "-C", w, "revert", "--abort"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT); subprocess.run(["git", "-C", w, "checkout", "-qf", c + "^"], check=True); how = "parent"
    os.makedirs(w + "/xb")
    for x in ("xsym", "xsym.stamp", "rt.o"): shutil.copy(V + "/build/" + x, w + "/xb/")
    r = subprocess.run(["python3", V + "/run.py", prop, "-v"], env=dict(os.environ, XSYM_REPO=w, XSYM_BUILD=w + "/xb", XSYM_EVIDENCE=w + "/xb"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = r.stdout.decode(errors="replace"); open("/tmp/rf/%s.%s.log" % (prop, c), "w").write(o)
    m = re.findall(r"CONFIRMED: (.*?) ->", o)
    print("%s %s %-6s exit=%d %s" % (prop, c, how, r.returncode, m[:2]), flush=True)
    shutil.rmtree(w, ignore_errors=True)
