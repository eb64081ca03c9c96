#!/usr/bin/env python3
"""mut1.py ID PROP REGEX: runs single scenarios against one change of mutants_list.py."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {}; N = "src/naive/"
def m(i, f, old, new, props): M[i] = (f, old, new)
exec(open(V + "/tools/mutants_list.py").read())
i, pr, rx = sys.argv[1:4]
root = "/tmp/m1/" + i
shutil.rmtree(root, ignore_errors=True); os.makedirs(root + "/repo"); os.makedirs(root + "/build")
subprocess.run("git -C /repo archive HEAD src include config.h.in | tar x -C %s/repo" % root, shell=True, check=True)
f, old, new = M[i]; p = root + "/repo/" + f; t = open(p).read()
assert old in t
open(p, "w").write(t.replace(old, new, 1))
for x in ("xsym", "xsym.stamp", "rt.o"): shutil.copy(V + "/build/" + x, root + "/build/")
r = subprocess.run(["python3", V + "/run.py", pr, "--only", rx, "-v"] + sys.argv[4:], env=dict(os.environ, XSYM_REPO=root + "/repo", XSYM_BUILD=root + "/build", XSYM_EVIDENCE=root))
sys.exit(r.returncode)
