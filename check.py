#!/usr/bin/env python3
"""Runs one property's monitor against /repo's working tree.

  check.py PROPERTY [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE]

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Anything else: error of the check.
"""
import sys, os, json, subprocess, hashlib, time, tempfile, shutil, re, threading, concurrent.futures as cf
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
from props import PROPS, VARIANTS

def die(msg, code=3):
    print("CHECK ERROR:", msg, flush=True); sys.exit(code)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

REDEF = ["malloc", "calloc", "realloc", "free"]
REDEF_IO = ["fread", "fwrite", "fseek", "ftell", "fseeko", "ftello", "fflush", "ferror", "clearerr"]

def build(variant, mods):
    """Compile the library sources of the working tree plus the harness; cached by content."""
    v = VARIANTS[variant]
    srcs = sorted(f for f in os.listdir(os.path.join(REPO, "src")) if f.endswith((".c", ".h")))
    hs = sorted([f for f in os.listdir(HARN) if f.endswith(".h")] + [m + ".c" for m in ["vf"] + mods])
    h = hashlib.sha256(repr(sorted(v.items())).encode())
    for d, fs in ((os.path.join(REPO, "src"), srcs), (HARN, hs)):
        for f in fs:
            h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
    key = variant + "-" + h.hexdigest()[:16]
    final = os.path.join(BUILD, key)
    exe = os.path.join(final, "vh")
    if os.path.exists(exe): return exe
    os.makedirs(BUILD, exist_ok=True)
    # drop builds of other contents of this variant (keeps disk use small)
    old = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD) if d.startswith(variant + "-") and not d.endswith(".tmp"))
    for _, d in old[:-12]: shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix=key + ".", suffix=".tmp", dir=BUILD)
    flags = v["flags"].split()
    base = [v.get("cc", "clang"), "-std=gnu11", "-g", "-w", "-fno-omit-frame-pointer", "-I" + os.path.join(REPO, "src"), "-I" + HARN]
    jobs = []
    for f in srcs:
        if f.endswith(".c"): jobs.append(("lib_" + f[:-2] + ".o", base + flags + v.get("libflags", "").split() + ["-c", os.path.join(REPO, "src", f)]))
    for f in hs:
        if f.endswith(".c"): jobs.append(("har_" + f[:-2] + ".o", base + flags + ["-c", os.path.join(HARN, f)]))
    def one(j):
        o, cmd = j
        r = sh(cmd + ["-o", os.path.join(tmp, o)])
        if r.returncode: return "compile %s failed:\n%s" % (o, r.stdout[-3000:])
        if o.startswith("lib_"):
            r = sh(["objcopy"] + [x for s in REDEF + (REDEF_IO if "fio" in mods else []) for x in ("--redefine-sym", "%s=vf_%s" % (s, s))] + [os.path.join(tmp, o)])
            if r.returncode: return "objcopy %s failed:\n%s" % (o, r.stdout)
    with cf.ThreadPoolExecutor(8) as ex:
        for e in ex.map(one, jobs):
            if e:
                shutil.rmtree(tmp, ignore_errors=True)
                if v.get("optional"): print("NOTE: variant %s left out: %s" % (variant, e[:300])); return None
                die(e)
    r = sh([base[0]] + flags + [os.path.join(tmp, o) for o, _ in jobs] + ["-o", os.path.join(tmp, "vh"), "-lm", "-lpthread"])
    if r.returncode: shutil.rmtree(tmp, ignore_errors=True); die("link failed:\n" + r.stdout[-3000:])
    for o, _ in jobs: os.unlink(os.path.join(tmp, o))
    try: os.rename(tmp, final)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return exe

SAN_ENV = dict(ASAN_OPTIONS="abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_segv=1:strict_string_checks=1",
               UBSAN_OPTIONS="print_stacktrace=1:exitcode=99:halt_on_error=1", MSAN_OPTIONS="exitcode=99:halt_on_error=1",
               TSAN_OPTIONS="exitcode=99:halt_on_error=1:report_thread_leaks=0")

def crash_key(err):
    """Stable key of a sanitizer report: kind + innermost library function."""
    kind = None
    for pat in (r"AddressSanitizer: ([\w-]+)", r"MemorySanitizer: ([\w-]+)", r"ThreadSanitizer: ([\w -]+?) \(", r"runtime error: ([^\n]*)"):
        m = re.search(pat, err)
        if m: kind = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1)).strip().replace(" ", "-")[:60]; break
    fn = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ (?:in )?(\w+) (\S+)", err):
        if "/src/BK" in m.group(2) or m.group(1).startswith("BK"): fn = m.group(1); break
    if not fn:
        m = re.search(r"#\d+ (\w+) \S*/src/", err)
        if m: fn = m.group(1)
    return "%s@%s" % (kind or "crash", fn or "?")

STOP = threading.Event()

def run_range(exe, prop, drv, seed, first, count, base, cpu, deadline):
    """Run cases [first, first+count); survive crashes. Returns dict of results."""
    res = dict(viol=[], counters={}, sigs=set(), samples=[], done=0, crashes=0, errors=[])
    env = dict(os.environ, VF_CASE_CPU=str(cpu), **SAN_ENV)
    pos, end = first, first + count
    while pos < end:
        if STOP.is_set(): res["stopped"] = True; break     # decided: some case hangs
        if time.time() > deadline: res["errors"].append("time budget exhausted at case %d" % pos); break
        for ext in (".out", ".prog"):
            try: os.unlink(base + ext)
            except OSError: pass
        with open(base + ".err", "wb") as ef:
            try:
                rc = subprocess.run([exe, drv, str(seed), str(pos), str(end - pos), base], stdout=ef, stderr=ef, env=env, timeout=max(5, deadline - time.time())).returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        err = open(base + ".err", errors="replace").read()
        done = False
        if os.path.exists(base + ".out"):
            for line in open(base + ".out", errors="replace"):
                t = line.rstrip("\n").split("\t")
                if t[0] == "V" and len(t) >= 4: res["viol"].append((int(t[1]), t[2], "\t".join(t[3:])))
                elif t[0] == "C": res["counters"][t[1]] = res["counters"].get(t[1], 0) + int(t[2])
                elif t[0] == "D": res["sigs"].add(t[1])
                elif t[0] == "S": res["samples"].append(t[1])
                elif t[0] == "E": done = True
        if rc == 0 and done: res["done"] += end - pos; break
        try: cur = int(open(base + ".prog").read().split()[0])
        except Exception: cur = None
        if cur is None or rc in (64, 70):
            res["errors"].append("driver failed rc=%s: %s" % (rc, err[-1500:])); break
        res["done"] += cur - pos
        if rc == "timeout": res["errors"].append("driver timed out at case %d" % cur); break
        if rc == 71:   # CPU limit of one case: inconclusive, run it again alone with a much larger limit
            if STOP.is_set(): res["stopped"] = True; break
            r2 = None
            env2 = dict(env, VF_CASE_CPU=str(cpu * 3))
            try: r2 = subprocess.run([exe, drv, str(seed), str(cur), "1", base + ".retry"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env2, timeout=max(5, deadline - time.time())).returncode
            except subprocess.TimeoutExpired: pass
            if r2 == 71:
                STOP.set(); res["viol"].append((cur, "hang", "the case did not finish within %d s of CPU time, twice" % (cpu * 3)))
            elif r2 != 0: res["errors"].append("case %d: retry after CPU limit ended with %s" % (cur, r2))
            res["crashes"] += 1
        else:
            res["viol"].append((cur, crash_key(err), "exit %s: %s" % (rc, " | ".join(l.strip() for l in err.splitlines() if l.strip())[:600])))
            res["crashes"] += 1
        pos = cur + 1
        if res["crashes"] >= 6: break
    for ext in (".out", ".prog", ".err", ".retry.out", ".retry.prog"):
        try: os.unlink(base + ext)
        except OSError: pass
    return res

def load_known(prop):
    known = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if os.path.exists(path):
        for e in json.load(open(path))["findings"]:
            if e["property"] == prop: known.append(e)
    return known

def main():
    a = sys.argv[1:]
    if a == ["--setup"]:      # warm the build cache; a check builds what is missing
        try:
            for c in PROPS.values():
                for run in c["runs"]: build(run["variant"], c["mods"])
        finally: sys.exit(0)
    if not a or a[0] not in PROPS: die("usage: check.py PROPERTY [--tier T] [--replay FILE]; known: " + " ".join(PROPS), 64)
    prop = a[0]
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
    cfg = PROPS[prop]
    t0 = time.time()
    if "--replay" in a:
        rep = json.load(open(opt("--replay", None)))
        exe = build(rep["variant"], cfg["mods"])
        r = subprocess.run([exe, rep["driver"], str(rep["seed"]), str(rep["case"]), "1", "/tmp/vf-replay-%d" % os.getpid(), "v"], env=dict(os.environ, VF_CASE_CPU="120", **SAN_ENV))
        print(open("/tmp/vf-replay-%d.out" % os.getpid()).read(), "exit", r.returncode)
        for e in (".out", ".prog"): os.unlink("/tmp/vf-replay-%d%s" % (os.getpid(), e))
        sys.exit(0)
    budget = 840 if tier == "quick" else 6 * 3600
    viol, counters, sigs, samples, errors, done, want = [], {}, set(), [], [], 0, 0
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    try:
        for run in cfg["runs"]:
            drv = run.get("driver", prop)
            n = int(opt("--cases", run[tier]))
            exe = build(run["variant"], cfg["mods"])
            if exe is None or STOP.is_set(): continue
            want += n; base = VARIANTS[run["variant"]].get("first", 0)
            W = run.get("workers", 8)
            # interleave blocks so that workers are balanced
            nb = max(1, min(n, W * 3)); blocks = []
            for i in range(nb):
                lo, hi = n * i // nb, n * (i + 1) // nb
                if hi > lo: blocks.append((lo, hi - lo))
            with cf.ThreadPoolExecutor(W) as ex:
                futs = [ex.submit(run_range, exe, prop, drv, seed, base + lo, c, os.path.join(tmp, "%s-%s-%d" % (drv, run["variant"], lo)), run.get("cpu", 25), t0 + budget) for lo, c in blocks]
                for f in futs:
                    r = f.result()
                    viol += [(c, k, m, drv, run["variant"]) for c, k, m in r["viol"]]
                    for k, v in r["counters"].items(): counters[k] = counters.get(k, 0) + v
                    sigs |= r["sigs"]; samples += r["samples"]; errors += r["errors"]; done += r["done"]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # group by key
    known = load_known(prop); seen = {}; kf = {}
    for c, k, m, drv, var in viol:
        hit = next((e for e in known if e["key"] == k), None)
        if hit: kf.setdefault(hit["key"], hit); continue
        seen.setdefault(k, (c, m, drv, var))
    vout = []
    rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    for k, (c, m, drv, var) in list(seen.items())[:12]:
        path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha1(k.encode()).hexdigest()[:8]))
        json.dump(dict(property=prop, key=k, driver=drv, variant=var, seed=seed, case=c, message=m), open(path, "w"), indent=1)
        vout.append(dict(key=k, case=c, message=m[:500], replay=path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  key=%s case=%d: %s" % (k, c, m[:700]))
    for k, e in kf.items(): print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=int(done), distinct_nontrivial=len(sigs), rule=cfg["rule"],
                            samples=[dict(text=s) for s in samples[:5]], counters=counters),
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(seen), violation_list=vout)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ep = os.path.join(VERIF, "evidence", prop + ".json"); json.dump(ev, open(ep + ".tmp", "w"), indent=1); os.replace(ep + ".tmp", ep)
    print("%s tier=%s seed=%d cases=%d/%d distinct=%d violations=%d wall=%.1fs" % (prop, tier, seed, done, want, len(sigs), len(seen), time.time() - t0))
    if seen: sys.exit(1)
    if errors: die("; ".join(errors)[:3000])
    if done < want * 0.5: die("too few cases ran")
    if len(sigs) < cfg.get("min_sigs", 2): die("monitor observed too little (%d distinct situations)" % len(sigs))
    for k, n in cfg.get("min_events", {}).items():
        if counters.get(k, 0) < n: die("monitor observed too few %s events: %d" % (k, counters.get(k, 0)))
    sys.exit(0)
main()
