#!/usr/bin/env python3
"""Decides one property: encodes the real code of /repo symbolically, asks the
solver for a violation within the stated bounds, replays every answer natively.

usage: run.py PROPERTY [--tier quick|thorough] [--only SCENARIO] [--strict] [-v]
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import scenarios
REPO = os.environ.get("XSYM_REPO", "/repo")
BUILD = os.environ.get("XSYM_BUILD", os.path.join(HERE, "build"))
CLANG, OPT = "clang++-18", "opt-18"
CONFIG = {"BUILD_XDISPATCH2_BACKEND_NAIVE", "BUILD_XDISPATCH2_BACKEND_QT5", "XDISPATCH2_HAVE_PRCTL", "XDISPATCH2_HAVE_SETPRIORITY",
          "XDISPATCH2_HAVE_SYSCONF", "XDISPATCH2_HAVE_SYSCONF_SC_NPROCESSORS_ONLN", "XDISPATCH2_HAVE_SOCKETPAIR", "XDISPATCH2_HAVE_DLSYM",
          "XDISPATCH2_HAVE_IMMINTRIN_H", "XDISPATCH2_BUILD_SHARED"}
QT = ["-DQT_CORE_LIB", "-DQT_NO_DEBUG"] + [x for d in ("", "/QtCore") for x in ("-isystem", "/usr/include/x86_64-linux-gnu/qt5" + d)]
PASSES = "function(sroa,early-cse,simplifycfg,dce,mergereturn,loop-simplify)"
PROOT = os.path.join(BUILD, "run")
DEADLINE = None  # a quick check answers in time, whatever is not decided by then is listed as incomplete


def sh(cmd, timeout=None, cwd=None):
    if DEADLINE:
        left = DEADLINE - time.time()
        if left <= 0:
            return 124, "out of time"
        timeout = min(timeout or left, left)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") + "\ntimeout"


def ensure_engine():
    src = [os.path.join(HERE, "engine", f) for f in sorted(os.listdir(os.path.join(HERE, "engine")))]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    stamp = os.path.join(BUILD, "xsym.stamp")
    if os.path.exists(os.path.join(BUILD, "xsym")) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    rc, out = sh(["bash", os.path.join(HERE, "engine", "build.sh"), BUILD], timeout=600)
    if rc:
        raise SystemExit("engine build failed:\n" + out)
    rc, out = sh([CLANG, "-g", "-O1", "-std=c++17", "-c", os.path.join(HERE, "engine", "rt_replay.cpp"), "-o", os.path.join(BUILD, "rt.o")])
    if rc:
        raise SystemExit("replay runtime build failed:\n" + out)
    open(stamp, "w").write(h)


def make_config(inc):
    os.makedirs(os.path.join(inc, "xdispatch"), exist_ok=True)
    def sub(m):
        return ("#define " + m.group(1) + " " + m.group(2)) if m.group(1) in CONFIG else "/* #undef " + m.group(1) + " */"
    t = open(os.path.join(REPO, "config.h.in")).read()
    t = re.sub(r"#cmakedefine[ \t]+(\w+)[ \t]*([^\n]*)", sub, t)
    open(os.path.join(inc, "xdispatch", "config.h"), "w").write(t)
    # the members of std::string are encoded too instead of being external
    os.makedirs(os.path.join(inc, "bits"), exist_ok=True)
    open(os.path.join(inc, "bits", "c++config.h"), "w").write("#include_next <bits/c++config.h>\n#undef _GLIBCXX_EXTERN_TEMPLATE\n#define _GLIBCXX_EXTERN_TEMPLATE -1\n")


def run_scenario(prop, s, tier, verbose):
    t0 = time.time()
    d = os.path.join(PROOT, prop, s.name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    inc = os.path.join(d, "inc")
    make_config(inc)
    r = {"scenario": s.name, "about": s.about, "status": "ok", "notes": [], "confirmed": [], "unconfirmed": [], "witnesses": [], "dir": d, "bounds": ""}
    raw, bc, ins = (os.path.join(d, x) for x in ("raw.bc", "p.bc", "i.bc"))
    cmd = [CLANG, "-std=gnu++14", "-O1", "-g", "-fPIC", "-fvisibility=hidden", "-DNDEBUG", "-DXDISPATCH_MAKEDLL",
           "-D_GLIBCXX_TSAN=1", "-I" + inc, "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(HERE, "harness", "qtstub"), "-I" + os.path.join(HERE, "harness", "ldstub"), "-w",
           "-fsanitize=address,return", "-fsanitize-trap=return", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", os.path.join(HERE, "harness", "scn", s.src), "-o", raw]
    cmd += ["-D" + x for x in s.defs] + (QT if s.qt else [])
    rc, out = sh(cmd, 120)
    if rc == 0:
        rc, out = sh([OPT, "-passes=" + PASSES, raw, "-o", bc], 120)
    if rc:
        r["status"] = "not-encodable"
        r["notes"].append("translation to IR failed: " + " | ".join([l for l in out.splitlines() if "error" in l][:3] or out.splitlines()[-3:]))
        r["wall"] = round(time.time() - t0, 2)
        return r
    opts = s.topts if tier == "thorough" and s.topts else s.opts
    limit = s.ttime if tier == "thorough" else s.time
    r["bounds"] = opts
    rc, out = sh([os.path.join(BUILD, "xsym"), "--bc", bc, "--out", d, "--instr", ins, "--time", str(limit), "--unlocks"] + opts.split() + os.environ.get("XSYM_OPTS", "").split() + (["-v"] if verbose else []), limit * 4 + 300)
    if verbose:
        open(os.path.join(d, "log"), "w").write(out)
    rf = os.path.join(d, "result.json")
    if rc or not os.path.exists(rf):
        r["status"] = "engine-failed"
        r["notes"].append("engine: " + out.strip()[-300:])
        r["wall"] = round(time.time() - t0, 2)
        return r
    e = json.load(open(rf))
    r["engine"] = e
    reach = [x for x in e["reach"]]
    r["unreached"] = [x["label"] for x in reach if x["res"] != "sat"]
    for k in ("timed_out", "query_unknown"):
        if e[k]:
            r["status"] = "incomplete"
            r["notes"].append(k)
    if e["unsupported"]:
        r["notes"].append("unsupported: " + "; ".join(e["unsupported"][:6]))
    replay = os.path.join(d, "replay")
    if e["bads"] or e["cuts"] or [x for x in reach if x["res"] == "sat"]:
        rc, out = sh([CLANG, "-g", "-O0", "-w", "-fsanitize=address", "-c", ins, "-o", os.path.join(d, "i.o")], 200)
        if rc == 0:
            link = [CLANG, "-fsanitize=address", "-Wl,--no-demangle", os.path.join(d, "i.o"), os.path.join(BUILD, "rt.o"), "-o", replay, "-lpthread"] + (["-lQt5Core"] if s.qt else []) + s.libs
            rc, out = sh(link, 200)
            missing = sorted(set(re.findall(r"undefined reference to `([^']+)'", out))) if rc else []
            if missing:
                # never reached in the scenario (the engine would have said so): trap
                st = os.path.join(d, "missing.s")
                with open(st, "w") as f:
                    for m in missing:
                        f.write('.globl "%s"\n"%s":\n' % (m, m))
                    f.write("ud2\n.section .note.GNU-stack\n")
                rc, out = sh(link + [st], 200)
        if rc:
            r["notes"].append("replay build failed: " + out[-300:])
            r["status"] = "incomplete" if e["bads"] else r["status"]
            replay = None
    for b in e["bads"]:
        rc, out = sh([replay, b["trace"]], 90) if replay else (99, "")
        line = [l for l in out.splitlines() if re.match(r"VIOLATION-CONFIRMED|USE-AFTER-FREE|DIVERGENCE|NOT-REPRODUCED|WITNESS|==\d+==ERROR|AddressSanitizer", l)]
        b["native"] = line[0][:300] if line else "exit %d" % rc
        b["rc"] = rc
        if rc in (10, 12, 66):
            b["replay_cmd"] = "%s %s v" % (replay, b["trace"])
            r["confirmed"].append(b)
        else:
            r["unconfirmed"].append(b)
    for x in reach:
        if x["res"] != "sat" or not replay:
            continue
        rc, out = sh([replay, x["trace"]], 90)
        r["witnesses"].append({"label": x["label"], "trace": x["trace"], "ok": rc == 0, "native": out.strip().splitlines()[-1][:200] if out.strip() else str(rc)})
    # executions cut at a loop bound: carried on natively under fair schedules they have to end
    hung = set()
    r["cuts"] = []
    for c in e["cuts"] if s.live else []:
        if c["where"] in hung or not replay:
            continue
        ends = []
        for seed in ("s1", "s2", "s3"):
            rc, out = sh([replay, c["trace"], seed], 90)
            ends.append(rc)
            if rc != 13:
                break
        r["cuts"].append({"where": c["where"], "stuck": c["stuck"], "ends": ends, "native": (out.strip().splitlines() or ["exit %d" % rc])[0][:200]})
        if ends == [13, 13, 13]:
            hung.add(c["where"])
            r["confirmed"].append({"kind": "livelock", "msg": "never ends although every thread gets its turns", "where": c["where"], "trace": c["trace"], "native": "LIVELOCK", "rc": 13,
                                   "replay_cmd": "%s %s s1" % (replay, c["trace"])})
    for f in ("raw.bc", "i.o"):
        try: os.unlink(os.path.join(d, f))
        except OSError: pass
    r["wall"] = round(time.time() - t0, 2)
    return r


def load_known():
    known = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) scenario=(\S+) kind=(\S+) msg=\"([^\"]*)\" where=\"([^\"]*)\" (.*)", l)
            if m:
                known.append(dict(zip(("property", "scenario", "kind", "msg", "where", "desc"), m.groups())))
    return known


def match_known(known, prop, sc, b):
    for k in known:
        if k["property"] == prop and k["scenario"] == sc and k["kind"] == b["kind"] and k["msg"] in b["msg"] and k["where"] in b["where"]:
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?"); ap.add_argument("--setup", action="store_true"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--only")
    ap.add_argument("--strict", action="store_true", help="development: complain about anything inconclusive"); ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--first", action="store_true", help="development: stop at the first violation")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    ensure_engine()
    global DEADLINE
    if tier == "quick":
        DEADLINE = time.time() + 780
    if a.setup:
        print("engine ready"); return 0
    todo = [s for s in scenarios.ALL if a.prop in s.props and (tier == "thorough" or s.tier == "quick") and (not a.only or re.fullmatch(a.only, s.name))]
    if not todo:
        print("no scenario for", a.prop); return 1 if a.strict else 0
    todo.sort(key=lambda s: -s.cost)
    known = load_known()
    res = []
    with ThreadPoolExecutor(a.j) as ex:
        fs = [ex.submit(run_scenario, a.prop, s, tier, a.v) for s in todo]
        for f in as_completed(fs):
            r = f.result(); res.append(r)
            if a.first and [b for b in r["confirmed"] if not match_known(known, a.prop, r["scenario"], b)]:
                DEADLINE = time.time()
                subprocess.run(["pkill", "-P", str(os.getpid())])
    res.sort(key=lambda r: r["scenario"])
    viol, strict_bad = [], []
    for r in res:
        e = r.get("engine")
        for b in r["confirmed"]:
            k = match_known(known, a.prop, r["scenario"], b)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (a.prop, k["desc"]))
            else:
                viol.append((r, b))
        line = "%-30s %-13s %5.1fs" % (r["scenario"], r["status"], r["wall"])
        if e:
            line += " threads=%d states=%d merges=%d clauses=%d queries=%d unsat=%d sat=%d solver=%.1fs confirmed=%d unconfirmed=%d witnesses=%d/%d" % (
                e["threads"], e["states"], e["merges"], e["max_clauses"], e["queries"], e["unsat"], e["sat"], e["solver_time"], len(r["confirmed"]), len(r["unconfirmed"]),
                sum(w["ok"] for w in r["witnesses"]), len(r["witnesses"]))
        print(line)
        for n in r["notes"]:
            print("    note:", n)
        for b in r["confirmed"] + r["unconfirmed"]:
            print("    %s: %s '%s' at %s -> %s" % ("CONFIRMED" if b in r["confirmed"] else "unconfirmed", b["kind"], b["msg"], b["where"], b["native"]))
        for w in r["witnesses"]:
            if not w["ok"]:
                print("    witness diverges:", w["label"], w["native"])
        if e and not e["reach"]:
            print("    no state of interest reached within bounds")
        if r.get("unreached"):
            print("    not reached within bounds:", ", ".join(r["unreached"]))
        if e and a.v:
            for c in r.get("cuts", []): print("    cut:", c["where"][:90], c["stuck"], c["ends"], c["native"][:100])
            print("    truncated:", "; ".join(e["truncated"][:8]), "| havoc:", ", ".join(e["havoc"]))
        if r["status"] != "ok" or r["unconfirmed"] or (e and (e["unsupported"] or not e["reach"])) or r.get("unreached") or any(not w["ok"] for w in r["witnesses"]):
            strict_bad.append(r["scenario"])
    # evidence
    eng = [r["engine"] for r in res if "engine" in r]
    tot = lambda k: sum(e[k] for e in eng)
    functions = sorted(set(f for e in eng for f in e["functions"]))
    samples = []
    for r in res:
        for w in r["witnesses"][:1]:
            try: samples.append({"scenario": r["scenario"], "schedule reaching": w["label"], "replayed natively": w["native"], "trace head": open(w["trace"]).read().splitlines()[:12]})
            except OSError: pass
    ev = {"property": a.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {"states": tot("states"), "transitions": tot("instructions"), "traces_validated_against_impl": sum(w["ok"] for r in res for w in r["witnesses"]) + sum(len(r["confirmed"]) for r in res),
                       "samples": samples[:6] or [{"note": "no witness"}], "merged_states": tot("merges"), "queries": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"),
                       "queries_unknown": tot("unknown"), "path_feasibility_queries": tot("prune_sat") + tot("prune_unsat"), "solver_time_s": round(tot("solver_time") + tot("prune_time"), 2), "functions_encoded": functions,
                       "scenarios": [{k: v for k, v in (("name", r["scenario"]), ("about", r["about"]), ("bounds", r["bounds"]), ("status", r["status"]), ("notes", r["notes"]), ("wall_s", r["wall"]),
                            ("threads", r.get("engine", {}).get("threads")), ("turns", r.get("engine", {}).get("turns")), ("assertions", r.get("engine", {}).get("asserts_checked")), ("cut_at_bound", r.get("engine", {}).get("truncated", [])[:10]),
                            ("havoc_externals", r.get("engine", {}).get("havoc")), ("unsupported", r.get("engine", {}).get("unsupported")), ("not_reached", r.get("unreached")), ("unconfirmed", [x["msg"] for x in r["unconfirmed"]]))} for r in res]},
          "assumptions": scenarios.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    evd = os.environ.get("XSYM_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(evd, exist_ok=True)
    json.dump(ev, open(os.path.join(evd, a.prop + ".json"), "w"), indent=1)
    print("%s %s: %d scenarios, %.1fs, %d violations" % (a.prop, tier, len(res), time.time() - t0, len(viol)))
    for r, b in viol:
        sp = os.path.join(r["dir"], "replay_%s.sh" % os.path.basename(b["trace"]).split(".")[0])
        open(sp, "w").write("#!/bin/bash\n# %s: %s at %s\nexec %s\n" % (b["kind"], b["msg"], b["where"], b["replay_cmd"]))
        os.chmod(sp, 0o755)
        print("VIOLATION property=%s replay=%s" % (a.prop, sp))
    sys.stdout.flush()
    if viol:
        return 1
    if a.strict and strict_bad:
        print("STRICT: inconclusive:", ", ".join(strict_bad)); return 3
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    sys.exit(rc)
