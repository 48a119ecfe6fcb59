#!/usr/bin/env python3
"""Runs the solver-based checks of one property.

  driver.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--keep]

Each harness is compiled with goto-cc together with the current sources of
/repo, decided by CBMC (all inputs within the stated bounds, unwinding
assertions on), and any counterexample is replayed natively (gcc + ASan/UBSan,
clang MSan, valgrind) against the same sources before it is reported.
Exit: 0 held, 1 violation (with a VIOLATION line), 2 no verdict.
"""
import argparse, json, os, re, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.dont_write_bytecode = True
import checks  # noqa: E402

KNOWN = os.path.join(ROOT, "known_findings.txt")


def limits(mem_gb, cpu_s):
    def f():
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(cmd, timeout, mem_gb=12, env=None, cwd=None, out=None):
    """-> (rc or None on timeout, stdout, stderr, seconds)"""
    t0 = time.time()
    so = open(out, "w") if out else subprocess.PIPE
    p = subprocess.Popen(cmd, stdout=so, stderr=subprocess.PIPE, text=True, errors="replace",
                         preexec_fn=limits(mem_gb, timeout), env=env, cwd=cwd, stdin=subprocess.DEVNULL)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        rc = None
    if out:
        so.close()
        o = ""
    return rc, o or "", e or "", time.time() - t0


def make_config(bdir, conf):
    """config.h, from the repository's own template, as cmake would make it"""
    src = open(os.path.join(REPO, "src/config.h.in")).read()

    def sub(m):
        return f"#define {m.group(1)}" if m.group(1) in conf else f"/* #undef {m.group(1)} */"
    src = re.sub(r"#cmakedefine (\w+)", sub, src)
    d = os.path.join(bdir, "conf")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "config.h"), "w") as f:
        f.write(src)
    return d


class Result:
    def __init__(self, h):
        self.h = h
        self.name = h.name
        self.verdict = "?"          # held | violation | none
        self.why = ""
        self.reach = {}
        self.props = 0
        self.queries = 0
        self.solver_s = 0.0
        self.wall = 0.0
        self.steps = 0
        self.vccs = 0
        self.functions = []
        self.nobody = []
        self.fails = []
        self.paths = 0
        self.replay = None
        self.validated = 0
        self.samples = []
        self.unwind = h.unwind


def compile_goto(h, bdir, res, inc):
    gb = os.path.join(bdir, h.name + ".gb")
    base = ["-std=gnu99", "-DHAVE_CONFIG_H", "-DDRPM_VERIFY", "-DVP_CBMC", "-D__NO_CTYPE", "-I" + inc, "-I" + os.path.join(REPO, "src"),
            "-I" + os.path.join(ROOT, "lib"), "-I" + os.path.join(ROOT, "harness")]
    base += ["-D" + d for d in h.defs + h.cdefs]
    files = [os.path.join(ROOT, "harness", h.src), os.path.join(ROOT, "lib/vp_rt.c")]
    if h.mem:
        base += ["-Dmalloc=vp_malloc", "-Dcalloc=vp_calloc", "-Drealloc=vp_realloc", "-Dfree=vp_free"]
        files.append(os.path.join(ROOT, "lib/vp_mem.c"))
    base += ["-D%s=vp_%s" % (c, c) for c in h.ren]
    files += [os.path.join(REPO, "src", f) for f in h.repo]
    rc, o, e, t = run(["goto-cc"] + base + ["-o", gb] + files, 120)
    if rc != 0:
        res.verdict, res.why = "none", "goto-cc failed: " + (o + e)[-1500:]
        return None
    return gb


RE_PROP = re.compile(r"^\[([^\]]+)\] (?:file (\S+) )?(?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$")


def parse_cbmc(path):
    """plain-text CBMC output -> dict"""
    d = dict(props=[], traces={}, solver=0.0, queries=0, steps=0, vccs=0, nobody=set(), ok=False, err="")
    cur = None
    nd = None
    with open(path, errors="replace") as f:
        for line in f:
            if cur is not None and line.startswith("  INPUT vp_nd: "):
                m = re.match(r"  INPUT vp_nd: (\d+)", line)
                if m:
                    nd.append(int(m.group(1)))
                continue
            if line.startswith("Trace for "):
                cur = line[len("Trace for "):].rstrip().rstrip(":")
                nd = d["traces"].setdefault(cur, [])
                continue
            if line[:1] == "[":
                m = RE_PROP.match(line.rstrip("\n"))
                if m:
                    d["props"].append((m.group(1), m.group(2), m.group(3), m.group(4), m.group(5)))
                    continue
            if line.startswith("Runtime Solver:") or line.startswith("Runtime decision procedure:"):
                if line.startswith("Runtime Solver:"):
                    d["queries"] += 1
                    try:
                        d["solver"] += float(line.split(":")[1].strip().rstrip("s"))
                    except ValueError:
                        pass
            elif line.startswith("size of program expression:"):
                d["steps"] = int(line.split(":")[1].split()[0])
            elif line.startswith("Generated "):
                m = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", line)
                if m:
                    d["vccs"] = int(m.group(2))
            elif "no body for" in line:
                m = re.search(r"no body for (?:callee|function) '?([^\s']+)", line)
                if m:
                    d["nobody"].add(m.group(1))
            elif line.startswith("VERIFICATION"):
                d["ok"] = True
            if line.startswith("Trace for") is False and line.startswith("** "):
                cur = None
    return d


def loop_bounds(h, gb):
    """bounds for the harness' own loops and for the loops of named functions, wherever they are"""
    if not h.own_unwind and not h.fn_unwind:
        return []
    rc, o, e, t = run(["goto-instrument", "--show-loops", gb], 60)
    out = []
    for m in re.finditer(r"Loop (\S+):\n\s+file (\S+) line \d+ function (\S+)", o):
        if m.group(3) in h.fn_unwind:
            out += ["--unwindset", "%s:%d" % (m.group(1), h.fn_unwind[m.group(3)])]
        elif h.own_unwind and (m.group(2).startswith(ROOT) or not m.group(2).startswith(REPO)):
            out += ["--unwindset", "%s:%d" % (m.group(1), h.own_unwind)]
    return out


def cbmc_cmd(h, gb, unwind):
    cmd = ["cbmc", gb, "--function", h.entry, "--drop-unused-functions", "--unwinding-assertions",
           "--unwind", str(unwind), "--trace", "--verbosity", "8",
           "--object-bits", str(h.object_bits), "--no-signed-overflow-check", "--slice-formula"]
    if h.malloc_fail:
        cmd += ["--malloc-may-fail", "--malloc-fail-null"]
    else:
        cmd += ["--no-malloc-may-fail"]
    if h.solver:
        cmd += ["--sat-solver", h.solver]
    cmd += loop_bounds(h, gb)
    for u in h.unwindset:
        cmd += ["--unwindset", u]
    return cmd + list(h.flags)


def list_functions(gb, h):
    rc, o, e, t = run(["cbmc", gb, "--function", h.entry, "--drop-unused-functions", "--show-symbol-table", "--json-ui"], 60)
    return o


def reachable_functions(gb, h, bdir):
    """functions of /repo/src in the encoded program"""
    rc, o, e, t = run(["cbmc", gb, "--function", h.entry, "--drop-unused-functions", "--list-goto-functions"], 120)
    names = set(re.findall(r"^(\S+) /\* \S+ \*/", o, re.M))
    repo_defs = set()
    srcs = [os.path.join(REPO, "src", f) for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".c")]
    for s in srcs:
        txt = open(s, errors="replace").read()
        for m in re.finditer(r"^[A-Za-z_][\w \t\*]*?\b(\w+)\s*\([^;{}]*\)\s*\{", txt, re.M):
            repo_defs.add(m.group(1))
    text = open(os.path.join(ROOT, "harness", h.src)).read()
    return sorted(n for n in names if n in repo_defs and not re.search(r"^[\w \*]+\b%s\([^;{]*\)\s*\{" % re.escape(n), text, re.M))


def native_build(h, bdir, inc, kind):
    exe = os.path.join(bdir, f"{h.name}.{kind}")
    base = ["-std=gnu99", "-g", "-O0", "-w", "-DHAVE_CONFIG_H", "-DDRPM_VERIFY", "-I" + inc, "-I" + os.path.join(REPO, "src"),
            "-I" + os.path.join(ROOT, "lib"), "-I" + os.path.join(ROOT, "harness"), "-Dmain=vp_harness_main_unused"]
    base += ["-D" + d for d in h.defs]
    files = [os.path.join(ROOT, "harness", h.src), os.path.join(ROOT, "lib/vp_rt.c")]
    if h.mem:
        base += ["-Dmalloc=vp_malloc", "-Dcalloc=vp_calloc", "-Drealloc=vp_realloc", "-Dfree=vp_free"]
        files.append(os.path.join(ROOT, "lib/vp_mem.c"))
    base += ["-D%s=vp_%s" % (c, c) for c in h.ren]
    files += [os.path.join(REPO, "src", f) for f in h.repo]
    drv = os.path.join(bdir, f"{h.name}_main.c")
    with open(drv, "w") as f:
        f.write("void %s(void);\n#undef main\nint main(void){ %s(); return 0; }\n" % (h.entry, h.entry))
    if kind == "asan":
        cc = ["gcc", "-fsanitize=address,undefined", "-fno-sanitize=shift,alignment,signed-integer-overflow,nonnull-attribute,pointer-overflow" if not h.ub_strict else "-fno-sanitize=alignment",
              "-fno-sanitize-recover=all", "-fno-builtin"]
    elif kind == "msan":
        cc = ["clang", "-fsanitize=memory", "-fno-builtin"]
    else:
        cc = ["gcc", "-fno-builtin"]
    libs = ["-ffunction-sections", "-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-no-pie"] + list(h.native_libs)
    rc, o, e, t = run(cc + base + ["-o", exe] + files + [drv] + libs, 120, mem_gb=0)
    return (exe, "") if rc == 0 else (None, (o + e)[-1500:])


def native_run(h, exe, kind, valfile, timeout=20):
    env = dict(os.environ, VP_VALUES=valfile,
               ASAN_OPTIONS="detect_leaks=0:exitcode=98:allocator_may_return_null=1:max_allocation_size_mb=16384:detect_stack_use_after_return=1",
               UBSAN_OPTIONS="exitcode=98:print_stacktrace=1", MSAN_OPTIONS="exitcode=98")
    cmd = [exe]
    if kind == "valgrind":
        cmd = ["valgrind", "-q", "--error-exitcode=98", exe]
    rc, o, e, t = run(cmd, timeout, mem_gb=0, env=env, cwd="/")
    return rc, o + e


def classify(rc, out, timed_hang):
    """does the native run confirm a failure?"""
    if rc is None:
        return "hang (no termination within the replay limit)" if timed_hang else None
    if rc == 77:
        return None
    if rc == 99:
        m = re.search(r"VP-ASSERT: (.*)", out)
        return "assertion: " + (m.group(1) if m else "?")
    if rc == 98:
        m = re.search(r"(ERROR: AddressSanitizer:[^\n]*|runtime error:[^\n]*|MemorySanitizer:[^\n]*|==\d+== [A-Z][^\n]*)", out)
        return "sanitizer: " + (m.group(1) if m else out[-200:])
    if rc < 0 and rc != -9:
        return f"signal {-rc}"
    return None


def replay(h, bdir, inc, vals, tag, hang):
    """-> (what reproduced or None, path, log)"""
    vf = os.path.join(bdir, f"{h.name}.{tag}.values")
    with open(vf, "w") as f:
        f.write("\n".join(map(str, vals)) + "\n")
    log = ""
    for kind in ("asan", "msan", "valgrind"):
        exe, err = native_build(h, bdir, inc, kind)
        if not exe:
            log += f"{kind}: build failed: {err}\n"
            continue
        rc, out = native_run(h, exe, kind, vf, 20 if kind != "valgrind" else 60)
        what = classify(rc, out, hang)
        log += f"--- {kind}: rc={rc}\n{out[-3000:]}\n"
        if what:
            return f"{kind} {what}", vf, log
        if kind == "asan" and rc == 77:
            pass
    return None, vf, log


VPSYM = os.path.join(ROOT, "build", "vpsym")


def build_vpsym():
    src = os.path.join(ROOT, "sym/vpsym.cpp")
    if os.path.exists(VPSYM) and os.path.getmtime(VPSYM) > os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(VPSYM), exist_ok=True)
    tmp = VPSYM + ".%d" % os.getpid()
    flags = subprocess.run(["llvm-config-18", "--cxxflags"], stdout=subprocess.PIPE, text=True).stdout.split()
    flags = [f for f in flags if f.startswith("-I") or f.startswith("-D")]
    v = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
    z3 = ["-lz3"]
    if os.path.exists(v + "/lib/libz3.so"):      # newer and faster than the system's
        z3 = [v + "/lib/libz3.so", "-Wl,-rpath," + v + "/lib"]
        flags.insert(0, "-I" + v + "/include")
    subprocess.run(["clang++", "-O2", "-std=c++17", "-w"] + flags + ["-fexceptions", "-o", tmp, src,
                    "-L/usr/lib/llvm-18/lib", "-lLLVM-18"] + z3, check=True)
    os.replace(tmp, VPSYM)


def compile_bc(h, bdir, res, inc):
    base = ["clang", "-std=gnu99", "-g", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-w", "-emit-llvm", "-c",
            "-DHAVE_CONFIG_H", "-DDRPM_VERIFY", "-DVP_SYM", "-D__NO_CTYPE", "-I" + inc, "-I" + os.path.join(REPO, "src"),
            "-I" + os.path.join(ROOT, "lib"), "-I" + os.path.join(ROOT, "harness")]
    base += ["-D" + d for d in h.defs]
    files = [os.path.join(ROOT, "harness", h.src), os.path.join(ROOT, "lib/vp_rt.c"), os.path.join(ROOT, "lib/vp_libc.c")]
    if h.mem:
        base += ["-Dmalloc=vp_malloc", "-Dcalloc=vp_calloc", "-Drealloc=vp_realloc", "-Dfree=vp_free"]
        files.append(os.path.join(ROOT, "lib/vp_mem.c"))
    base += ["-D%s=vp_%s" % (c, c) for c in h.ren]
    files += [os.path.join(REPO, "src", f) for f in h.repo]
    outs = []
    for f in files:
        o = os.path.join(bdir, os.path.basename(f)[:-2] + ".bc")
        rc, so, e, t = run(base + ["-o", o, f], 120, mem_gb=0)
        if rc != 0:
            res.verdict, res.why = "none", "clang failed: " + (so + e)[-1500:]
            return None
        outs.append(o)
    bc = os.path.join(bdir, h.name + ".bc")
    rc, so, e, t = run(["llvm-link", "-o", bc + "0"] + outs, 120, mem_gb=0)
    if rc == 0:
        rc, so, e, t = run(["opt", "-passes=mem2reg", "-o", bc, bc + "0"], 120, mem_gb=0)
    if rc != 0:
        res.verdict, res.why = "none", "llvm-link/opt failed: " + (so + e)[-1500:]
        return None
    return bc


def check_sym(h, bdir, tier, inc):
    """path-wise symbolic execution"""
    res = Result(h)
    t0 = time.time()
    bc = compile_bc(h, bdir, res, inc)
    if not bc:
        return res
    outp = os.path.join(bdir, h.name + ".sym.txt")
    rc, _, err, secs = run([VPSYM, bc, h.entry, "-t", str(h.timeout), "-s", str(h.steps), "-S", "1" if h.ub_strict else "0"], h.timeout + 150, mem_gb=h.mem_gb, out=outp)
    errors, reach, nover, last = [], [], [], None
    status = ""
    for line in open(outp, errors="replace"):
        line = line.rstrip("\n")
        k, _, r = line.partition(" ")
        if k == "ERROR":
            errors.append([r, []]); last = errors[-1]
        elif k == "REACH":
            reach.append([r, []]); last = reach[-1]
        elif k == "VALUES" and last:
            last[1] = [int(x) for x in r.split()]
        elif k == "NOVERDICT":
            nover.append(r)
        elif k == "FUNCTION":
            n, _, f = r.partition(" ")
            if f.startswith(REPO + "/src/"):
                res.functions.append(n)
        elif k == "STATS":
            st = dict(zip(r.split()[::2], r.split()[1::2]))
            res.queries, res.solver_s = int(st["queries"]), float(st["solver"])
            res.steps, res.paths = int(st["instr"]), int(st["killed"])
            res.props = int(st["asserts"]) + int(st["memchecks"])
            res.vccs = res.queries + int(st["cached"])
        elif k in ("DONE", "NONE", "ERRORS"):
            status = k
    res.functions.sort()
    res.unwind = "all paths"
    for want in h.labels():
        res.reach[want] = any(x[0] == want for x in reach)
    if rc != 0 or not status:
        res.verdict, res.why = "none", f"symbolic execution ended abnormally (rc={rc}, {secs:.0f}s): {err[-600:]}"
    for r, vals in errors:
        kind, msg, where = (r.split("|") + ["", ""])[:3]
        what, vf, log = replay(h, bdir, inc, vals, "cex", kind == "steps")
        if what:
            res.verdict = "violation"
            res.why = f"{kind}: {msg} at {where}; reproduced natively: {what}"
            res.replay = save_replay(h, vf, log, res.why)
            break
        with open(os.path.join(bdir, h.name + ".norepro.txt"), "a") as f:
            f.write(f"{r}\n{vals}\n{log}\n")
    if res.verdict == "?":
        if errors:
            res.verdict, res.why = "none", "counterexample did not reproduce natively: " + "; ".join(e[0] for e in errors[:4])
        elif nover or status != "DONE":
            res.verdict, res.why = "none", "; ".join(nover)[:800] or status
        else:
            miss = [k for k, v in res.reach.items() if not v]
            if not res.reach:
                res.verdict, res.why = "none", "no reachability witness in the harness"
            elif miss:
                res.verdict, res.why = "none", "vacuous: not reachable: " + ", ".join(miss)
            else:
                res.verdict = "held"
                d = {"props": [(str(i), None, None, "REACH:" + r[0], "FAILURE") for i, r in enumerate(reach)],
                     "traces": {str(i): r[1] for i, r in enumerate(reach)}}
                validate(h, bdir, inc, d, res, tier)
    res.wall = time.time() - t0
    return res


def check_harness(h, bdir, tier, inc):
    if h.engine == "sym":
        return check_sym(h, bdir, tier, inc)
    res = Result(h)
    t0 = time.time()
    gb = compile_goto(h, bdir, res, inc)
    if not gb:
        res.wall = time.time() - t0
        return res
    try:
        res.functions = reachable_functions(gb, h, bdir)
    except Exception as e:  # evidence only
        res.functions = ["?" + str(e)]
    unwind = h.unwind
    while True:
        outp = os.path.join(bdir, h.name + ".cbmc.txt")
        rc, _, err, secs = run(cbmc_cmd(h, gb, unwind), h.timeout, mem_gb=h.mem_gb, out=outp)
        d = parse_cbmc(outp)
        res.unwind = unwind
        res.solver_s += d["solver"]
        res.queries += max(d["queries"], 1 if d["ok"] else 0)
        res.steps, res.vccs = d["steps"], d["vccs"]
        res.nobody = sorted(n for n in d["nobody"] if n not in h.nobody_ok)
        res.props = len([p for p in d["props"] if not p[3].startswith("REACH:")])
        if rc is None or not d["ok"] or rc not in (0, 10):
            tail = open(outp, errors="replace").read()[-600:]
            res.verdict, res.why = "none", f"solver gave no answer (rc={rc}, {secs:.0f}s): {err[-500:]} {tail}"
            break
        bad, unw = [], []
        for pid, pf, pl, desc, st in d["props"]:
            if desc.startswith("REACH:"):
                res.reach[desc[6:]] = res.reach.get(desc[6:], False) or st == "FAILURE"
            elif st == "FAILURE" and (desc.startswith("unwinding assertion") or "recursion unwinding" in desc):
                unw.append((pid, pf, pl, desc))
            elif st == "FAILURE":
                bad.append((pid, pf, pl, desc))
            elif st != "SUCCESS":
                res.verdict, res.why = "none", f"{pid}: {st}"
        if bad:
            res.fails = bad
            bad.sort(key=lambda b: (0 if ".assertion." in b[0] else 1))
            logs = ""
            for pid, pf, pl, desc in bad[:12]:
                what, vf, log = replay(h, bdir, inc, d["traces"].get(pid, []), "cex", False)
                if what:
                    res.verdict = "violation"
                    res.why = f"{desc} [{pid} at {pf}:{pl}] reproduced natively: {what}"
                    res.replay = save_replay(h, vf, log, res.why)
                    break
                logs += f"{pid} ({desc}):\n{log}\n"
            if res.verdict != "violation":
                res.verdict = "none"
                res.why = "counterexample did not reproduce natively: " + "; ".join(f"{b[0]} {b[3]}" for b in bad[:6])
                with open(os.path.join(bdir, h.name + ".norepro.txt"), "w") as f:
                    f.write(logs)
            break
        if unw:
            # too small a bound, or no termination: replay first
            for pid, pf, pl, desc in unw[:3]:
                what, vf, log = replay(h, bdir, inc, d["traces"].get(pid, []), "cex", True)
                if what:
                    res.verdict = "violation"
                    res.why = f"{desc} [{pid} at {pf}:{pl}] reproduced natively: {what}"
                    res.replay = save_replay(h, vf, log, res.why)
                    break
            if res.verdict == "violation":
                break
            if unwind * 2 <= h.unwind_max:
                unwind *= 2
                continue
            res.verdict, res.why = "none", "unwinding bound too small: " + ", ".join(f"{u[0]}" for u in unw[:5])
            break
        if res.verdict == "?":
            miss = [k for k, v in res.reach.items() if not v]
            if not res.reach:
                res.verdict, res.why = "none", "no reachability witness in the harness"
            elif miss:
                res.verdict, res.why = "none", "vacuous: not reachable: " + ", ".join(miss)
            elif res.nobody:
                res.verdict, res.why = "none", "functions without a body or stub: " + ", ".join(res.nobody)
            else:
                res.verdict = "held"
                # replay the reachability witnesses against the real code
                validate(h, bdir, inc, d, res, tier)
        break
    res.wall = time.time() - t0
    return res


def validate(h, bdir, inc, d, res, tier):
    todo = [(p[0], p[3][6:]) for p in d["props"] if p[3].startswith("REACH:") and p[4] == "FAILURE"]
    if tier == "quick":
        todo = todo[:3]
    if not h.validate or not todo:
        return
    exe, err = native_build(h, bdir, inc, "asan")
    if not exe:
        res.why = "native build failed: " + err[-400:]
        return
    for pid, label in todo:
        vals = d["traces"].get(pid, [])
        vf = os.path.join(bdir, f"{h.name}.reach.values")
        with open(vf, "w") as f:
            f.write("\n".join(map(str, vals)) + "\n")
        rc, out = native_run(h, exe, "asan", vf)
        labels = re.findall(r"VP-REACH: (.*)", out)
        if label in labels:
            res.validated += 1
        else:
            res.why += f" [witness {label} not reproduced natively: rc={rc} {out[-300:]!r}]"
        if len(res.samples) < 2:
            res.samples.append({"harness": h.name, "witness": label, "symbolic_values": vals[:24], "native_rc": rc})


def save_replay(h, vf, log, why):
    d = os.path.join(ROOT, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{h.prop}-{h.name}.txt")
    with open(p, "w") as f:
        f.write(f"# {why}\n# harness {h.src} defs {' '.join(h.defs)}\n")
        f.write(f"# replay: python3 {ROOT}/lib/driver.py {h.prop} --only {h.name} --replay {p}\n")
        f.write("# --- values chosen by the solver, in order\n")
        f.write(open(vf).read())
        f.write("# --- native log\n" + "".join("# " + line + "\n" for line in log.splitlines()))
    return p


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) harness=(\S+) match=/(.*)/ (.*)$", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    P = checks.PROPS[a.prop]
    hs = [h.for_tier(tier) for h in P.harnesses if h.in_tier(tier)]
    if a.only:
        hs = [h for h in hs if re.search(a.only, h.name)]
    bdir = os.path.join(ROOT, "build", a.prop + ("-" + str(os.getpid()) if a.only else ""))
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    t0 = time.time()
    if any(h.engine == "sym" for h in hs):
        build_vpsym()

    if a.replay:
        h = hs[0]
        inc = make_config(bdir, h.conf)
        vals = [int(x) for x in open(a.replay) if x.strip() and not x.startswith("#")]
        what, vf, log = replay(h, bdir, inc, vals, "user", True)
        print(log)
        print("reproduced:", what)
        return 1 if what else 0

    def one(h):
        d = os.path.join(bdir, h.name)
        os.makedirs(d)
        inc = make_config(d, h.conf)
        try:
            r = check_harness(h, d, tier, inc)
        except Exception as e:
            import traceback
            r = Result(h)
            r.verdict, r.why = "none", "driver: " + traceback.format_exc()
        print(f"[{r.verdict:9}] {h.name}: {r.wall:.1f}s solver {r.solver_s:.1f}s, {r.props} properties, "
              f"{r.steps} steps, unwind {r.unwind}, validated {r.validated}/{len(r.reach)} {r.why[:400]}", flush=True)
        return r
    hs.sort(key=lambda h: -h.weight)
    with ThreadPoolExecutor(max_workers=int(os.environ.get("VP_JOBS", "7"))) as ex:
        rs = list(ex.map(one, hs))

    known = known_findings(a.prop)
    viol = 0
    nov = 0
    for r in rs:
        if r.verdict == "violation":
            k = [x for x in known if x[0] == r.name and re.search(x[1], r.why)]
            if k:
                print(f"KNOWN-FINDING: property={a.prop} {k[0][2]}")
                continue
            viol += 1
            print(f"VIOLATION property={a.prop} replay={r.replay}")
        elif r.verdict != "held":
            nov += 1
    ev = {
        "property": a.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": P.level,
        "coverage": {
            "explanation": "Solver-based checking of the repository's C sources. CBMC harnesses: states = SSA steps of the unrolled "
                           "programs, transitions = verification conditions left after simplification. Path-wise harnesses (engine sym, "
                           "Z3): states = instructions executed symbolically over all feasible paths, transitions = solver queries. "
                           "traces_validated_against_impl = solver witness traces replayed natively against the real code.",
            "states": sum(r.steps for r in rs), "transitions": sum(r.vccs for r in rs),
            "traces_validated_against_impl": sum(r.validated for r in rs),
            "samples": [s for r in rs for s in r.samples][:12],
            "assertions_decided": sum(r.props for r in rs), "solver_queries": sum(r.queries for r in rs),
            "solver_seconds": round(sum(r.solver_s for r in rs), 2),
            "functions_encoded": sorted({f for r in rs for f in r.functions}),
            "harnesses": [{"name": r.name, "source": "harness/" + r.h.src, "defines": r.h.defs, "verdict": r.verdict,
                           "why": r.why[:600], "unwind": r.unwind, "bounds": r.h.bounds, "assertions": r.props,
                           "engine": r.h.engine, "paths": r.paths, "ssa_steps": r.steps, "vccs": r.vccs, "queries": r.queries,
                           "solver_s": round(r.solver_s, 2), "wall_s": round(r.wall, 2),
                           "reachability": r.reach, "validated": r.validated, "functions": r.functions} for r in rs],
        },
        "assumptions": P.assumptions + sorted({s for r in rs for s in r.h.stubs}),
        "wall_s": round(time.time() - t0, 2), "violations": viol,
    }
    if not a.only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if not a.keep:
        shutil.rmtree(bdir, ignore_errors=True)
    if viol:
        return 1
    if nov:
        print(f"NO-VERDICT property={a.prop}: {nov} harness(es) gave no answer")
        return 2
    print(f"held: {a.prop} ({time.time() - t0:.1f}s)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
