#!/usr/bin/env python3
"""Development aid: generates simple mutants of a source file (deleted, swapped and altered
statements), runs the checks of the properties the file belongs to on each and lists the
ones no check reports.   usage: automut.py [-j N] [-n MAX] [--seed S] [--list] FILE..."""
import os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
if not VERIF.startswith("/tmp/"):
    snap = "/tmp/mutsnap.%d" % os.getpid()
    shutil.copytree(VERIF, snap, ignore=shutil.ignore_patterns("run", ".git", "seeded", "evidence"))
    rc = subprocess.run([sys.executable, snap + "/tools/automut.py"] + sys.argv[1:]).returncode
    shutil.rmtree(snap); sys.exit(rc)
I = "include/xdispatch/"; N = "src/naive/"; Q = "src/qt5/"
PROPS = {
    "src/backend.cpp": "C27 C24", "src/barrier_operation.cpp": "C07", "src/cancelable.cpp": "C08 C14 C15 C19", "src/group.cpp": "C27 C24", "src/lightweight_barrier.cpp": "C07 C26",
    "src/operation.cpp": "C27 C01", "src/queue.cpp": "C27 C24", "src/signals.cpp": "C20 C19 C18 C17", "src/socket_notifier.cpp": "C27 C24", "src/thread_utils.cpp": "C23", "src/timer.cpp": "C27 C24",
    "src/waitable_queue.cpp": "C22 C11 C12", "src/trace_utils.cpp": "C24 C27", N + "naive_consumable.cpp": "C09 C26 C10", N + "naive_consumable.h": "C09", N + "naive_group.cpp": "C09 C10",
    N + "naive_manual_thread.cpp": "C25 C01", N + "naive_operation_queue.cpp": "C02 C01 C12", N + "naive_operation_queue_manager.cpp": "C29", N + "naive_operations.cpp": "C09 C11 C12",
    N + "naive_operations.h": "C09 C11 C12", N + "naive_parallel_queue.cpp": "C11 C12 C29", N + "naive_semaphore.cpp": "C06 C26", N + "naive_serial_queue.cpp": "C01 C02 C11 C12",
    N + "naive_socket_notifier.cpp": "C16 C15", N + "naive_thread.cpp": "C25", N + "naive_threadpool.cpp": "C05 C03 C04", N + "naive_timer.cpp": "C14 C13", N + "naive_inverse_lockguard.h": "C15 C13",
    N + "naive_backend_internal.h": "C29 C12 C11",
    I + "signals.h": "C17 C18 C19 C20", I + "signals_barrier.h": "C21", I + "operation.h": "C27", I + "backend_naive_ithreadpool.h": "C04", I + "barrier_operation.h": "C07", I + "waitable_queue.h": "C22",
    I + "group.h": "C27", I + "queue.h": "C27", I + "timer.h": "C27", I + "socket_notifier.h": "C27", I + "dispatch_decl.h": "C27", I + "backend.h": "C27", "src/xdispatch_internal.h": "C27 C24",
    Q + "qt5_threadpool.cpp": "C28", Q + "qt5_serial_queue.cpp": "C28 C01", Q + "qt5_parallel_queue.cpp": "C28", Q + "qt5_signals.cpp": "C28 C20", Q + "qt5_timer.cpp": "C28", Q + "qt5_socket_notifier.cpp": "C28",
    N + "3rdparty/concurrentqueue.h": "C31",
    Q + "qt5_backend_internal.h": "C28 C24", Q + "qt5_threadpool.h": "C28", Q + "qt5_signals.h": "C28", I + "backend_qt.h": "C28", Q + "fallback_qt5_backend.cpp": "C28",
    "src/libdispatch/libdispatch_queue.cpp": "C30", "src/libdispatch/libdispatch_group.cpp": "C30", "src/libdispatch/libdispatch_timer.cpp": "C30", "src/libdispatch/libdispatch_socket_notifier.cpp": "C30", "src/libdispatch/libdispatch_execution.cpp": "C30", "src/libdispatch/libdispatch_backend_internal.h": "C30",
}
# the scenarios which take longest are left to the final look at what remains
SKIP = "(?!pool_expire_limit$|pool_limit$|pool_prio_debug$|block_apply2$|block_timer$|conn_scoped4$|waitable_backlog_serial$).*"


def active(rel):
    """the lines the preprocessor leaves in"""
    if not rel.endswith(".cpp"): return None
    sys.path.insert(0, VERIF); import run
    inc = "/tmp/amut/inc"; run.make_config(inc)
    o = subprocess.run(["clang++-18", "-E", "-std=gnu++14", "-DNDEBUG", "-DXDISPATCH_MAKEDLL", "-D_GLIBCXX_TSAN=1", "-I" + inc, "-I/repo/include", "-I/repo/src", "-I" + VERIF + "/harness/ldstub", "-I" + VERIF + "/harness"] + run.QT + ["/repo/" + rel], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode()
    lines = set(); cur = 0; on = False
    for l in o.split("\n"):
        m = re.match(r'# (\d+) "([^"]*)"', l)
        if m: cur = int(m.group(1)); on = m.group(2).endswith(rel); continue
        if on and l.strip(): lines.add(cur - 1)
        cur += 1
    return lines


def mutants(rel):
    act = active(rel)
    L = open("/repo/" + rel).read().split("\n"); out = []
    def add(n, op, new, extra=None): out.append((n, op, new, extra))
    stmt = re.compile(r"^(\s+)(?!return\b|using\b|typedef\b|case\b|default\b|break;|continue;|public|private|protected|throw\b|else\b|#|//|\*|delete\b|goto)([^;{}]*[)\w\]+-]);\s*(//.*)?$")
    decl = re.compile(r"^(const |static |virtual |friend |explicit |extern |struct |class )|^[A-Za-z_:<>,\s\*&]+[\s&\*>][A-Za-z_]\w*( = [^;]*|\([^;]*\)|\{[^;]*\})?$|override$|= (0|default|delete)$")
    block = 0
    for n, l in enumerate(L):
        s = l.strip()
        if act is not None and n not in act: continue
        if s.startswith("/*"): block = 1
        if block:
            if "*/" in s: block = 0
            continue
        if not s or s.startswith(("#", "//", "*", "XDISPATCH_ASSERT", "XDISPATCH_TRACE", "XDISPATCH_WARN", "XDISPATCH_EXPORT", "namespace", "template", "static_assert")) or "=default" in s.replace(" ", "") or "=delete" in s.replace(" ", ""): continue
        code = l.split("//")[0]
        m = stmt.match(l)
        lock = re.search(r"lock_guard<|unique_lock<|inverse_lock|block_scope", s)
        prev = next((x.strip() for x in reversed(L[:n]) if x.strip()), "")
        whole = prev.endswith((";", "{", "}", ":")) or prev.endswith(")") and re.match(r"(if|else|while|for)", prev) or prev in ("else", "do")
        if m and whole and (lock or not decl.match(s[:-1].split("//")[0].strip().rstrip(";"))): add(n, "delete", m.group(1) + ";")
        for a, b in (("notify_all", "notify_one"), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "), ("true", "false"), ("false", "true"),
                     (" + 1", ""), (" - 1", ""), ("++", "--"), ("--", "++"), (" + ", " - "), (" - ", " + "), ("push_back", "push_front"), ("push_front", "push_back"), ("emplace_back", "emplace_front"), (".front()", ".back()"), (".back()", ".front()"),
                     ("+= ", "-= "), ("-= ", "+= "), ("wait_for", "wait_until") ):
            k = code.find(a)
            while k >= 0:
                if not (a in ("true", "false") and (code[k - 1:k].isalnum() or code[k - 1] in "_:" or code[k + len(a):k + len(a) + 1].isalnum())) and not (a in (" < ", " > ") and "template" in code):
                    add(n, "%s->%s" % (a.strip(), b.strip()), code[:k] + b + code[k + len(a):])
                k = code.find(a, k + 1)
        for mm in re.finditer(r"(?<![\w.])([01])(?![\w.])", code):
            add(n, "const", code[:mm.start()] + ("1" if mm.group(1) == "0" else "2") + code[mm.end():])
        for mm in re.finditer(r"!(?=[\w(])", code): add(n, "not", code[:mm.start()] + code[mm.end():])
        mm = re.match(r"^(\s*(?:\} )?(?:else )?)(if|while) ?\((.*)\)( ?\{?)\s*$", code)
        if mm:
            c = "(" + mm.group(3) + ")"
            if mm.group(2) == "if":
                add(n, "iffalse", mm.group(1) + "if (false && " + c + ")" + mm.group(4)); add(n, "iftrue", mm.group(1) + "if (true || " + c + ")" + mm.group(4))
            else: add(n, "while->if", mm.group(1) + "if (" + mm.group(3) + ")" + mm.group(4)); add(n, "whilefalse", mm.group(1) + "while (false && " + c + ")" + mm.group(4))
        if n + 1 < len(L):
            m2 = stmt.match(L[n + 1]); r1 = stmt.match(l)
            if m2 and r1 and m2.group(1) == r1.group(1) and whole: add(n, "swap", L[n + 1], (n + 1, l))
    return L, out


def one(job):
    rel, L, (n, op, new, extra), k = job
    root = "/tmp/amut/%d.%d" % (os.getpid(), k)
    shutil.rmtree(root, ignore_errors=True); os.makedirs(root + "/repo"); os.makedirs(root + "/build")
    subprocess.run("git -C /repo archive HEAD src include config.h.in | tar x -C %s/repo" % root, shell=True, check=True)
    M = list(L); M[n] = new
    if extra: M[extra[0]] = extra[1]
    open(root + "/repo/" + rel, "w").write("\n".join(M))
    for x in ("xsym", "xsym.stamp", "rt.o"): shutil.copy(VERIF + "/build/" + x, root + "/build/")
    t0 = time.time(); res = "MISSED"; info = ""
    for pr in PROPS[rel].split():
        env = dict(os.environ, XSYM_REPO=root + "/repo", XSYM_BUILD=root + "/build", XSYM_EVIDENCE=root)
        o = subprocess.run([sys.executable, VERIF + "/run.py", pr, "--first", "-j", "4", "--only", SKIP], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env).stdout.decode(errors="replace")
        good = len(re.findall(r"(?m)^\S+ +(?:ok|incomplete)", o)); bad = len(re.findall(r"(?m)^\S+ +not-encodable", o))
        if "VIOLATION" in o: res = "caught"; info = pr; break
        inc = re.findall(r"(?m)^(\S+) +(?:engine-failed|incomplete)", o)
        if inc: info += " " + ",".join(inc)
        if bad and not good: res = "nocompile"; break
        if bad: info += " notenc:%d" % bad
        if "unconfirmed:" in o: info += " unconfirmed:" + pr
    shutil.rmtree(root)
    return res, rel, n, op, L[n].strip(), M[n].strip(), info, time.time() - t0


if __name__ == "__main__":
    a = sys.argv[1:]; j = 2; mx = 10 ** 9; seed = 1; lst = False; rng = None
    while a and a[0].startswith("-"):
        o = a.pop(0)
        if o == "-j": j = int(a.pop(0))
        elif o == "-n": mx = int(a.pop(0))
        elif o == "--seed": seed = int(a.pop(0))
        elif o == "--lines": rng = [tuple(map(int, x.split("-"))) for x in a.pop(0).split(",")]
        elif o == "--list": lst = True
    jobs = []
    for rel in a:
        L, ms = mutants(rel)
        if rng: ms = [m for m in ms if any(x <= m[0] + 1 <= y for x, y in rng)]
        random.Random(seed).shuffle(ms)
        for m in sorted(ms[:mx]): jobs.append((rel, L, m, len(jobs)))
    if lst:
        for r, L, m, k in jobs: print(k, r, m[0] + 1, m[1], "|", L[m[0]].strip(), "=>", m[2].strip())
        sys.exit()
    os.makedirs("/tmp/amut", exist_ok=True)
    with ThreadPoolExecutor(j) as ex:
        for res, rel, n, op, o, w, info, t in ex.map(one, jobs):
            print("%-9s %s:%d %s | %s => %s [%s] %.0fs" % (res, rel, n + 1, op, o, w, info.strip(), t), flush=True)
