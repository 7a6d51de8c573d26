import os, sys, re, json, time, subprocess, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get("OGM_REPO", "/repo"); BUILD = os.path.join(VERIF, "build")
JOBS = min(8, os.cpu_count() or 8)
CFLAGS = ["-I" + REPO + "/include", "-I" + HERE, "-std=gnu++17", "-w"]
IRFLAGS = ["-O2", "-fno-math-errno", "-ffp-contract=off", "-fno-finite-loops", "-ftrivial-auto-var-init=pattern", "-fno-strict-return",
           "-fno-vectorize", "-fno-slp-vectorize", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c"]

class Broken(Exception):
    """the analysis itself could not be carried out (exit 2)"""

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, **kw)

def build_tools():
    r = sh(["bash", os.path.join(HERE, "build.sh")])
    if r.returncode: raise Broken("building the analysers failed:\n" + r.stderr[-3000:])

class Result:
    def __init__(self): self.viol = []; self.known = []; self.cov = {}; self.assumptions = []; self.samples = []

# ------------------------------------------------------------------ engine E1: obligations
def run_obligations(prop, res, cfg, tier):
    units = sorted(glob.glob(os.path.join(VERIF, "obligations", prop + "_*.cxx"))) + [os.path.join(VERIF, u) for g in cfg.get("units", []) for u in sorted(glob.glob(g, root_dir=VERIF))]
    optional = set(cfg.get("optional", [])); lost = []; pick = re.compile(cfg.get("pick", ""))
    if not units: raise Broken("no obligation unit for " + prop)
    tmp = tempfile.mkdtemp(prefix="ogm_" + prop + "_")
    try:
        def comp(um):
            u, mode = um
            out = os.path.join(tmp, os.path.basename(u)[:-4] + "." + mode + ".bc")
            defs = ["-DNDEBUG"] if mode == "release" else []
            r = sh(["clang++"] + cfg.get("cflags", []) + CFLAGS + cfg.get("defs", []) + defs + IRFLAGS + [u, "-o", out])
            if r.returncode and os.path.basename(u)[:-4] in optional: lost.append(os.path.basename(u)); return u, None, [], mode
            if r.returncode: raise Broken("obligation unit %s does not compile against the current tree:\n%s" % (u, r.stderr[:3000]))
            l = sh([BUILD + "/ogmprove", out, "-list"])
            if l.returncode: raise Broken("cannot read " + out)
            return u, out, l.stdout.split(), mode
        modes = cfg.get("modes", ["release", "debug"])
        with ThreadPoolExecutor(JOBS) as ex: comps = list(ex.map(comp, [(u, m) for m in modes for u in units]))
        jobs = [(u, bc, o, mode) for u, bc, os_, mode in comps for o in os_ if pick.match(o) and not (o.startswith("ctl_") and mode != modes[0]) and not (mode == "debug" and not re.match(cfg.get("debug_pick", ""), o))]
        hints = json.load(open(HERE + "/hints.json")) if os.path.exists(HERE + "/hints.json") else {}
        used = {}; deadline = time.time() + (480 if tier != "thorough" else 3000)
        if tier != "thorough": jobs = [j for j in jobs if not j[2].startswith("deep_")]
        def prove(j):
            t1 = time.time(); r = prove1(j)
            if os.environ.get("OGM_TIMES") and time.time() - t1 > float(os.environ["OGM_TIMES"]): print("TIME %6.1f %s@%s %s %s" % (time.time() - t1, r[0], r[2], r[5], " ".join(r[4])[:200]), flush=True)
            return r
        def prove1(j):
            u, bc, o, mode = j; hist = []; refuted = None; best = None
            ctl = o.startswith("ctl_"); wt = o.startswith("throw_")
            dump = os.path.join(tmp, o + "." + mode + ".ll")
            def run(strat, extra):
                try:
                    r = sh([BUILD + "/ogmprove", bc, "-only", o, "-strategy", str(strat), "-dump", dump,
                            "-per-ob-seconds", "20" if ctl else str(cfg.get("secs", 60))] + extra + (["-want-throw"] if wt else ["-may-throw"] if o.startswith("mt_") or cfg.get("may_throw") else []), timeout=150 if tier != "thorough" else 400)
                    f = r.stdout.strip().split("\t")
                    return (f[1] if len(f) > 1 else "crash"), f[2:]
                except subprocess.TimeoutExpired: return "timeout", []
            good = "throws" if wt else "proved"
            # strategy 0 with refutation of what stays open; the others only for what is neither proved nor refuted
            h = hints.get(prop + "/" + o + "@" + mode, 0); order = [0] if ctl else [h] + [x for x in (0, 1, 2) if x != h]
            for strat in order:
                if time.time() > deadline and strat != order[0]: break
                if time.time() > deadline + 120: st, info = "deadline", []; best = best or (st, info); hist.append(st); break
                st, info = run(strat, (["-refute-seconds", "8" if ctl else "30"] if strat == order[0] else []) + ["-split-max", "60" if ctl else "400"])
                used[o + "@" + mode] = strat
                hist.append(st); ref = [x for x in info if x.startswith("refuted")]
                if ref: refuted = ref[0]
                best = (st, info)
                if st == good or refuted or st == "vacuous": break
                if ctl: break
            st, info = best
            verdict = "met" if st == good else "violated" if refuted or st == "vacuous" or (st == "throws" and not wt) or (st == "proved" and wt) else "undecided"
            txt = ""
            if os.path.exists(dump):
                txt = open(dump, errors="replace").read()
            return o, u, mode, verdict, info, hist, refuted, txt
        with ThreadPoolExecutor(JOBS) as ex: out = list(ex.map(prove, jobs))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    if os.environ.get("OGM_HINTS"):   # development aid: remember which strategy decides an obligation
        for o, u, mode, verdict, *_ in out:
            k = prop + "/" + o + "@" + mode; hints.pop(k, None)
            if verdict == "met" and used.get(o + "@" + mode): hints[k] = used[o + "@" + mode]
        json.dump(hints, open(HERE + "/hints.json", "w"), indent=0, sort_keys=True)
    texts = {u: open(u).read() for u in units}
    nctl = 0; n = 0; done = 0; undec = []; crashed = 0
    for o, u, mode, verdict, info, hist, refuted, ir in out:
        rel = os.path.relpath(u, VERIF)
        if o.startswith("ctl_"):
            nctl += 1
            if not refuted: raise Broken("control obligation %s (a false claim) was not refuted: %s - the analysis is not sound here" % (o, ",".join(hist)))
            continue
        n += 1
        if verdict == "met":
            done += 1
            if len(res.samples) < 12: res.samples.append("%s: %s (%s)" % (o, hist[-1], " ".join(info)))
            continue
        if verdict == "undecided":
            undec.append(o + "@" + mode); print("UNDECIDED obligation %s@%s [%s] %s: neither proved nor refuted, not an alarm" % (o, mode, ",".join(hist), " ".join(info)))
            if hist[-1] in ("crash",): crashed += 1
            continue
        m = target_of(texts[u], o)
        res.viol.append({"site": o + "@" + mode, "text": "obligation %s in %s (%s build) is not met by the current tree [%s]\n  what it says: %s\n  code it constrains: %s\n  witness: %s" % (o, rel, mode, ",".join(hist), m[0], m[1], refuted or "no regular outcome is reachable"), "detail": ir[-20000:]})
    for u in sorted(set(lost)): undec.append(u); print("UNDECIDED unit %s could not be lowered with stand-in headers" % u)
    if undec: res.cov["undecided"] = undec
    if crashed: raise Broken("the analyser crashed on %d obligations" % crashed)
    if n < cfg.get("min", 1): raise Broken("only %d obligations, expected at least %d" % (n, cfg["min"]))
    if nctl < 1: raise Broken("no control obligation")
    res.cov.update({"obligations": n, "discharged": done, "controls_refuted": nctl, "builds": modes, "units": len(units)})
    res.cov["explanation"] = ("each obligation is a function over unconstrained parameters that calls fail_<name> where the specification is violated; "
        "the clang IR of the obligation together with the repository code it calls is simplified to a fixed point (inlining, SROA, SCCP, GVN, constraint elimination, peeling) "
        "and the obligation is met iff no call of fail_<name> and no throw is reachable and the good outcome still is")
    res.cov["checker_cmd"] = "build/ogmprove <unit>.bc -only <obligation>"
    res.cov["trusted_base"] = ["clang 18 front end and LLVM 18 scalar transformations", "engine/prelude.hxx model of libstdc++ tree primitives", "engine/zvalue.hxx exact value type"]

def target_of(text, ob):
    """the '// says:' / '// code:' comment that precedes the obligation (or the macro use that generates it)"""
    says = code = ""
    base = ob
    best = None
    for m in re.finditer(r"^.*$", text, re.M):
        line = m.group(0)
        if re.match(r"\s*//\s*says:", line): says = line.split("says:", 1)[1].strip()
        elif re.match(r"\s*//\s*code:", line): code = line.split("code:", 1)[1].strip()
        elif re.search(r"\b" + re.escape(base) + r"\b", line): return says, code
        else:
            t = re.match(r"\s*[A-Z_]+[A-Z0-9_]*\(\s*(\w+)", line)
            if t and (base.startswith(t.group(1) + "_") or base.endswith("_" + t.group(1)) or ("_" + t.group(1) + "_") in base): best = (says, code)
    return best or (says, code)

# ------------------------------------------------------------------ type-level witnesses
def run_witness(prop, res, cfg, tier):
    n = 0
    for u in sorted(glob.glob(os.path.join(VERIF, "witness", prop + "_*.cxx"))):
        r = sh(["clang++"] + CFLAGS + ["-fsyntax-only", "-ferror-limit=0", "-fno-caret-diagnostics", u])
        bad = False
        for line in r.stderr.splitlines():
            m = re.search(r": error: static assertion failed(?: due to requirement '.*?')?:? (.*)", line)
            if m: bad = True; res.viol.append({"site": m.group(1), "text": "static assertion of %s fails: %s\n  %s" % (os.path.relpath(u, VERIF), m.group(1), line), "detail": r.stderr[:5000]})
        if r.returncode and not bad: raise Broken("witness unit %s does not compile:\n%s" % (u, r.stderr[:2000]))
        n += len(re.findall(r"\bID3?\(|static_assert\(", open(u).read()))
    res.cov.update({"static_assertions": n})

def run_ids(prop, res, cfg, tier):
    """every FunctionRegistration in the headers: its identifier as a number, and no two the same"""
    known = cfg["table"]; found = {}
    for d, _, fs in os.walk(REPO + "/include"):
        for f in sorted(fs):
            if not f.endswith((".hxx", ".hpp", ".h")): continue
            t = open(os.path.join(d, f), errors="replace").read(); t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S); t = re.sub(r"//[^\n]*", " ", t)
            for m in re.finditer(r"struct\s+FunctionRegistration\s*<\s*([\w:]+)[^{;]*\{(.*?)\}\s*;\s*\}", t, re.S):
                name = m.group(1).split("::")[-1]; e = re.search(r"\bId\s*=\s*([^,}]+)", m.group(2))
                where = os.path.relpath(os.path.join(d, f), REPO)
                try: v = int(eval(re.sub(r"[\w:]*FUNCTION_TYPE_ID_OFFSET", "16000", e.group(1)), {"__builtins__": {}}))
                except Exception: v = None
                found.setdefault(name, []).append((v, where))
    if len(found) < cfg["min"]: raise Broken("only %d registrations found" % len(found))
    ids = {}
    for name, vs in sorted(found.items()):
        for v, where in vs:
            if v is None: res.samples.append("identifier of %s in %s is not a literal: left to the type-level table" % (name, where)); continue
            if name in known and v != known[name]: res.viol.append({"site": name, "text": "identifier of %s in %s is %d; existing files use %d" % (name, where, v, known[name])})
            o = ids.setdefault(v, name)
            if o != name: res.viol.append({"site": "%s/%s" % (o, name), "text": "%s and %s (%s) have the same identifier %d" % (o, name, where, v)})
    res.cov.update({"registrations": sum(map(len, found.values())), "explanation": "type-level table of the identifiers in existing files (compile-time witnesses for several value, index and label types) and a scan of all FunctionRegistration specialisations for duplicates",
        "rule": "FunctionRegistration<F>::Id is the tabled constant; no two specialisations share one"})

# ------------------------------------------------------------------ engine E2: typestate over IR
FLOWFLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-ftrivial-auto-var-init=pattern", "-emit-llvm", "-c"]
def flow_units(cfg): return sorted(glob.glob(os.path.join(VERIF, "flow", cfg.get("glob", "*.cxx"))))

ALLKINDS = ["-"]
def run_flow(prop, res, cfg, tier):
    """compile every unit to IR and run the typestate analysis in the given mode; kinds selects what this property reports"""
    tmp = tempfile.mkdtemp(prefix="ogm_flow_"); kinds = cfg.get("kinds")
    try:
        def one(u):
            name = os.path.basename(u)[:-4]; bc = os.path.join(tmp, name + ".bc")
            r = sh(["clang++", "-I" + VERIF + "/flow/stubs"] + CFLAGS + cfg.get("defs", []) + ["-DWITH_BOOST", "-DNDEBUG"] + FLOWFLAGS + [u, "-o", bc])
            if r.returncode: return name, None, r.stderr
            try: r = sh([BUILD + "/ogmflow", bc, "-mode", cfg["mode"]] + cfg.get("args", []) + cfg.get("unit_args", {}).get(name, []), timeout=600)
            except subprocess.TimeoutExpired: return name, None, "timeout"
            if r.returncode: return name, None, "rc %d %s" % (r.returncode, r.stderr[-2000:])
            os.remove(bc)
            return name, [l.split("\t") for l in r.stdout.splitlines()], ""
        with ThreadPoolExecutor(JOBS) as ex: out = list(ex.map(one, flow_units(cfg)))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    roots = 0; events = 0; steps = 0; nctl = 0; undec = []; optional = set(cfg.get("optional", []))
    for name, lines, err in out:
        if lines is None:
            if name in optional: undec.append(name); print("UNDECIDED unit %s could not be lowered with stand-in headers" % name); continue
            raise Broken("flow unit %s: %s" % (name, err[:2000]))
        got = {}
        for l in lines:
            if l[0] == "VIOL": got.setdefault(l[1], []).append(l)
        for l in lines:
            if l[0] == "ROOT":
                root = l[1][5:]; f = dict(x.split("=") for x in l[2:])
                if root.startswith("bad__") and not any(k.replace("-", "_") in root for k in (kinds or ALLKINDS)): continue
                if root.startswith("bad__"):
                    nctl += 1
                    if not any(v[2].replace("-", "_") in root for v in got.get(l[1], [])): raise Broken("control %s is not reported" % root)
                    continue
                if root.startswith("good_"):
                    nctl += 1
                    if any(not kinds or v[2] in kinds for v in got.get(l[1], [])): raise Broken("control %s is reported: %s" % (root, got[l[1]]))
                    continue
                if int(f["events"]) < cfg.get("min_events", 1): raise Broken("root %s: only %s events found" % (root, f["events"]))
                roots += 1; events += int(f["events"]); steps += int(f["steps"])
                if len(res.samples) < 40: res.samples.append("%s: %s basic blocks, %s events, %s transfer steps" % (root, f["blocks"], f["events"], f["steps"]))
            elif l[0] in ("RESIDUAL", "LIMIT", "UNREACHED"): undec.append("\t".join(l)[:200]); print("UNDECIDED " + "\t".join(l)[:300])
        seen = set()
        for root, vs in got.items():
            if root[5:].startswith(("bad__", "good_")): continue
            for v in vs:
                if kinds and v[2] not in kinds: continue
                fn = re.sub(r"<.*", "", v[4]); f = v[3].rsplit(":", 1)[0]
                site = "%s/%s/%s/%s" % (root[5:], v[2], f, fn)
                if cfg.get("merge_roots"): site = "%s/%s/%s" % (v[2], f + ":" + fn, v[5].split(" ")[0])
                key = site + v[3]
                if key in seen: continue
                seen.add(key)
                res.viol.append({"site": site, "text": "%s: %s at %s in %s (%s)" % (root[5:], v[2], v[3], v[4][:200], v[5])})
    if cfg.get("merge_roots"):
        u = {}; 
        for v in res.viol: u.setdefault(v["site"] + v["text"].split(" at ", 1)[1], v)
        res.viol[:] = list(u.values())
    if undec: res.cov["undecided"] = undec
    if roots < cfg.get("min", 1): raise Broken("only %d roots" % roots)
    if nctl < cfg.get("min_ctl", 1): raise Broken("controls missing")
    res.cov.update({"roots": roots, "event_call_sites": events, "transfer_steps": steps, "controls": nctl, "rule": cfg.get("rule", ""),
        "explanation": "forward typestate analysis of the compiler's IR of every instantiated root, all functions that reach an event inlined; loops iterated to a fixed point"})

def run_same(prop, res, cfg, tier):
    """every algorithm called without a visitor, with the empty visitor and with an unknown one: the same simplified IR"""
    tmp = tempfile.mkdtemp(prefix="ogm_same_")
    try:
        def one(u):
            name = os.path.basename(u)[:-4]; bc = os.path.join(tmp, name + ".bc")
            if "/same/" in u: name = "same_ctl"
            r = sh(["clang++", "-I" + VERIF + "/flow/stubs"] + CFLAGS + ["-DWITH_BOOST", "-DNDEBUG", "-DOGM_SAME"] + FLOWFLAGS + [u, "-o", bc])
            if r.returncode: return name, None, r.stderr
            try: r = sh([BUILD + "/ogmsame", bc], timeout=600)
            except subprocess.TimeoutExpired: return name, None, "timeout"
            if r.returncode: return name, None, "rc %d %s" % (r.returncode, r.stderr[-2000:])
            return name, [l.split("\t") for l in r.stdout.splitlines()], ""
        us = [u for u in flow_units({"glob": "*.cxx"}) if not u.endswith("/ctl.cxx")] + [os.path.join(VERIF, "flow/same/ctl.cxx")]
        with ThreadPoolExecutor(JOBS) as ex: out = list(ex.map(one, us))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    same = insts = 0; bad = {}; good = 0; optional = set(cfg.get("optional", [])); undec = []
    for name, lines, err in out:
        if lines is None:
            if name in optional: undec.append(name); print("UNDECIDED unit %s could not be lowered with stand-in headers" % name); continue
            raise Broken("unit %s: %s" % (name, err[:2000]))
        for v, n, a, b, lvl, ins, pairs, why in [(l + [""])[:8] for l in lines]:
            if n.startswith("bad__"): bad[n] = bad.get(n, False) or v == "DIFF"; continue
            if n.startswith("good_"):
                if v == "DIFF": raise Broken("control %s is reported: %s" % (n, why))
                good += 1; continue
            same += 1; insts += int(ins.split("=")[1])
            if len(res.samples) < 60: res.samples.append("%s: %s%s %s %s %s" % (v, a, n, b + n, ins, pairs))
            if v == "DIFF":
                what = "called without a visitor differs from called with the empty visitor" if a == "plain_" else "the empty visitor is treated differently from another visitor that does nothing"
                res.viol.append({"site": "%s/%s" % (n, a), "text": "%s: %s: %s" % (n, what, why)})
    miss = [n for n in bad if not bad[n]]
    if miss or len(bad) < 6 or good < 6: raise Broken("controls: not reported %s, %d bad, %d good" % (miss, len(bad), good))
    if same < cfg.get("min", 1): raise Broken("only %d comparisons" % same)
    if undec: res.cov["undecided"] = undec
    res.cov.update({"comparisons": same, "instruction_pairs": insts, "controls": len(bad) + good, "rule": "after simplification the two entry points are the same instructions, callees compared recursively",
        "explanation": "lockstep comparison of the simplified IR of each algorithm entered without a visitor, with its empty visitor and with a visitor type the library does not know"})

def run_query(prop, res, cfg, tier):
    """may-write summaries: asking for the solution writes nothing reachable from the algorithm"""
    tmp = tempfile.mkdtemp(prefix="ogm_query_"); optional = set(cfg.get("optional", []))
    try:
        def one(u):
            name = os.path.basename(u)[:-4]; bc = os.path.join(tmp, name + ("q" if "/query/" in u else "") + ".bc")
            r = sh(["clang++", "-I" + VERIF + "/flow/stubs"] + CFLAGS + ["-DWITH_BOOST", "-DNDEBUG", "-DOGM_ARG"] + FLOWFLAGS + [u, "-o", bc])
            if r.returncode: return name, None, r.stderr
            r = sh([BUILD + "/ogmpure", bc], timeout=600)
            if r.returncode: return name, None, "rc %d %s" % (r.returncode, r.stderr[-2000:])
            os.remove(bc); return name, [l.split("\t") for l in r.stdout.splitlines()], ""
        us = [u for u in flow_units({"glob": "*.cxx"}) if not u.endswith("/ctl.cxx")] + [os.path.join(VERIF, "flow/query/ctl.cxx")]
        with ThreadPoolExecutor(JOBS) as ex: out = list(ex.map(one, us))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    roots = fns = ctl = 0; undec = []
    for name, lines, err in out:
        if lines is None:
            if name in optional: undec.append(name); print("UNDECIDED unit %s could not be lowered with stand-in headers" % name); continue
            raise Broken("unit %s: %s" % (name, err[:2000]))
        w = {}
        for l in lines:
            if l[0] == "WRITES": w.setdefault(l[1][5:], l[2])
            elif l[0] == "UNKNOWN": undec.append("query " + l[1][5:] + ": " + l[2][:150]); print("UNDECIDED query %s: %s" % (l[1][5:], l[2][:200]))
        for l in lines:
            if l[0] != "ROOT": continue
            r = l[1][5:]
            if r.startswith(("bad__", "good_")):
                ctl += 1
                if (r in w) != r.startswith("bad__"): raise Broken("control %s: %s" % (r, w.get(r, "not reported")))
                continue
            roots += 1; fns += int(l[2].split("=")[1])
            if r in w: res.viol.append({"site": "query/" + r, "text": "asking %s for its solution changes it: %s" % (r, w[r])})
    if roots < cfg["min"] or ctl < cfg["min_ctl"]: raise Broken("only %d query roots, %d controls" % (roots, ctl))
    res.cov.setdefault("undecided", []); res.cov["undecided"] += undec
    res.cov.update({"query_roots": roots, "query_functions": fns, "query_controls": ctl, "rule": "the query, with and without an index, may not write memory reachable from the algorithm (mutable members and casts included) nor static storage"})

FORBIDDEN = (r"^(rand|srand|rand_r|random|srandom|initstate|drand48|erand48|lrand48|mrand48|srand48|time|clock|clock_gettime|gettimeofday|ftime|times|getrusage|getpid|getppid|gettid|getenv|secure_getenv|"
    r"pthread_self|gethostname|uname|sysinfo|getloadavg|getrandom|getentropy|arc4random.*)$|random_device|6chrono.*3now|_ZNKSt4lessIP|_ZNKSt7greaterIP|_ZNKSt4hashIP|hardware_concurrency|omp_get_(thread_num|num_threads|max_threads|wtime)")
def run_forbid(prop, res, cfg, tier):
    """nothing that differs between two runs is reachable from any algorithm's entry points"""
    tmp = tempfile.mkdtemp(prefix="ogm_forbid_"); optional = set(cfg.get("optional", []))
    try:
        def one(um):
            u, life = um; name = os.path.basename(u)[:-4]; bc = os.path.join(tmp, name + (".l" if life else "") + ".bc")
            r = sh(["clang++", "-I" + VERIF + "/flow/stubs"] + CFLAGS + ["-DWITH_BOOST", "-DNDEBUG"] + (["-DOGM_LIFE"] if life else []) + FLOWFLAGS + [u, "-o", bc])
            if r.returncode: return name, None, r.stderr
            r = sh([BUILD + "/ogmflow", bc, "-mode", "forbid", "-names", FORBIDDEN], timeout=600)
            if r.returncode: return name, None, "rc %d %s" % (r.returncode, r.stderr[-2000:])
            os.remove(bc); return name, [l.split("\t") for l in r.stdout.splitlines()], ""
        us = [(u, l) for u in flow_units({"glob": "*.cxx"}) if not u.endswith("/ctl.cxx") for l in (False, True)] + [(os.path.join(VERIF, "flow/forbid/ctl.cxx"), False)]
        with ThreadPoolExecutor(JOBS) as ex: out = list(ex.map(one, us))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    roots = fns = ctl = allowed = 0; undec = []; seen = set()
    for name, lines, err in out:
        if lines is None:
            if name in optional: undec.append(name); print("UNDECIDED unit %s could not be lowered with stand-in headers" % name); continue
            raise Broken("unit %s: %s" % (name, err[:2000]))
        hits = {}
        for l in lines:
            if l[0] == "FORBID": hits.setdefault(l[1][5:], []).append((l[2], l[3]))
        for l in lines:
            if l[0] != "REACH": continue
            r = l[1][5:]
            if r.startswith("bad__"):
                ctl += 1
                if not hits.get(r): raise Broken("control %s is not reported" % r)
                continue
            if r.startswith("good_"):
                ctl += 1
                if hits.get(r): raise Broken("control %s is reported: %s" % (r, hits[r]))
                continue
            roots += 1; fns += int(l[2])
            if len(res.samples) < 80: res.samples.append("%s: %s functions reachable" % (r, l[2]))
            for sym, path in hits.get(r, []):
                if sym in cfg["documented"].get(r, ()): allowed += 1; continue
                k = "%s/%s" % (r, sym)
                if k in seen: continue
                seen.add(k); res.viol.append({"site": k, "text": "%s reaches %s: %s" % (r, sym, path)})
    if roots < cfg["min"] or ctl < cfg["min_ctl"]: raise Broken("only %d roots, %d controls" % (roots, ctl))
    if undec: res.cov["undecided"] = undec
    res.cov.update({"roots": roots, "functions_reached": fns, "controls": ctl, "documented_random_uses": allowed, "documented": {k: sorted(v) for k, v in cfg["documented"].items()},
        "rule": "from no entry point of a deterministic algorithm can a random generator, a clock, the process or thread identity, the environment, an order or hash of addresses, or a variable of static storage that is written after its initialisation be reached",
        "explanation": "reachability over the call graph of the compiler's IR (after local simplification), addresses of functions and virtual tables taken into account, for inference with an unknown visitor and for construction, starting point, reset and queries"})

LEXMUT = re.compile(r"\+\+|--|(?<![=!<>+\-*/%&|^])=(?!=)|[+\-*/%&|^]=|<<=|>>=")
def assertion_args(t):
    """(line, argument text) of every assertion in a header"""
    import assertoverlay
    for m in re.finditer(r"(?<![\w:])(OPENGM_ASSERT(?:_OP)?|(?:marray_detail::)?Assert|assert)\s*\(", t):
        ls = t.rfind("\n", 0, m.start()) + 1; pre = t[ls:m.start()]
        if "//" in pre or re.match(r"\s*(#|\*)", pre) or "void " in pre: continue
        e = assertoverlay.match(t, m.end() - 1, "(", ")")
        if e > 0: yield t.count("\n", 0, m.start()) + 1, t[m.end():e]
def run_cond(prop, res, cfg, tier):
    """evaluating an assertion's condition or a debug-only block writes nothing but its own temporaries"""
    import assertoverlay
    tmp = tempfile.mkdtemp(prefix="ogm_cond_")
    try:
        ov = os.path.join(tmp, "inc"); counts = assertoverlay.make(REPO + "/include", ov)
        own = [os.path.join(VERIF, "flow/cond/ctl.cxx")] + [u for u in flow_units({"glob": "*.cxx"}) if not u.endswith("/ctl.cxx")] + sorted(glob.glob(VERIF + "/obligations/*.cxx"))
        us = own + sorted(glob.glob(REPO + "/src/unittest/*.c*x*") + glob.glob(REPO + "/src/unittest/inference/*.c*x*"))
        def one(i):
            u = us[i]; bc = os.path.join(tmp, "%d.bc" % i)
            r = sh(["clang++", "-include", ov + "/ogm_cond.hxx", "-DWITH_BOOST", "-DWITH_HDF5", "-DOGM_LIFE", "-I/usr/include/hdf5/serial", "-I" + VERIF + "/flow/stubs", "-I" + ov, "-I" + VERIF + "/engine", "-I" + REPO + "/src/unittest",
                "-std=gnu++17", "-w"] + FLOWFLAGS + [u, "-o", bc])
            if r.returncode: return u, None, r.stderr
            r = sh([BUILD + "/ogmpure", bc, "-mode", "cond"], timeout=600)
            if r.returncode: return u, None, "rc %d %s" % (r.returncode, r.stderr[-2000:])
            os.remove(bc); return u, [l.split("\t") for l in r.stdout.splitlines()], ""
        with ThreadPoolExecutor(JOBS) as ex: out = list(ex.map(one, range(len(us))))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sites = set(); inst = 0; ctl = 0; skipped = []; undec = {}; seen = set(); good_units = 0
    def hdr(w):
        k = w.find("/inc/"); return "include/" + w[k + 5:] if k >= 0 else w.replace(REPO + "/", "")
    for u, lines, err in out:
        name = os.path.basename(u)
        if lines is None:
            if "/cond/ctl" in u or "/obligations/" in u: raise Broken("unit %s: %s" % (name, err[:2000]))
            skipped.append(name); continue
        good_units += 1
        if "/cond/ctl" in u:
            w = [l for l in lines if l[0] in ("WRITES", "UNKNOWN")]
            for l in lines:
                if l[0] != "COND" or not re.search(r"\b(bad__|good_)", l[2]): continue
                ctl += 1; f = re.search(r"\b(bad__\w+|good_\w+)", l[2]).group(1); hit = [x for x in w if x[1] == l[1]]
                if f.startswith("good_") and hit: raise Broken("control %s is reported: %s" % (f, hit[0]))
                if f.startswith("bad__") and not [x for x in hit if x[0] == "WRITES"]: raise Broken("control %s is not reported" % f)
            continue
        for l in lines:
            if l[0] == "COND":
                h = hdr(l[1])
                if h.startswith("include/"): sites.add(h); inst += 1
            elif l[0] == "WRITES":
                h = hdr(l[1])
                if not h.startswith("include/") or h in seen: continue
                seen.add(h); res.viol.append({"site": h.split(":")[0] + "/" + re.sub(r"<.*", "", l[2])[:60], "text": "the assertion or debug-only block at %s changes the program's state: %s" % (h, " ".join(l[2:])[:400])})
            elif l[0] == "UNKNOWN": undec.setdefault(hdr(l[1]), " ".join(l[2:])[:200])
    total = 0; lex = 0
    for d, ds, fs in os.walk(REPO + "/include/opengm"):
        ds[:] = [x for x in ds if x != "python"]
        for f in fs:
            if not f.endswith((".hxx", ".hpp", ".h")): continue
            p = os.path.join(d, f); h = os.path.relpath(p, REPO)
            for line, arg in assertion_args(open(p, errors="replace").read()):
                total += 1
                a = re.sub(r'"(\\.|[^"\\])*"', '""', arg)
                if "%s:%d" % (h, line) in sites or "{" in a: continue
                lex += 1
                if LEXMUT.search(a): res.viol.append({"site": "%s/%s" % (h, re.sub(r"\W+", "_", a)[:60]), "text": "the assertion at %s:%d assigns or increments: %s" % (h, line, a[:200])})
    if len(sites) < cfg["min"] or ctl < cfg["min_ctl"] or good_units < cfg["min_units"]: raise Broken("only %d sites, %d controls, %d units" % (len(sites), ctl, good_units))
    for k, v in sorted(undec.items()): print("UNDECIDED %s: %s" % (k, v))
    res.cov.update({"assertions_in_headers": total, "debug_blocks": counts["block"], "sites_analysed": len(sites), "instances_analysed": inst, "sites_checked_lexically": lex, "controls": ctl, "units": good_units, "units_not_lowerable": skipped,
        "undecided": ["%s: %s" % x for x in sorted(undec.items())],
        "rule": "a condition (and a block compiled or entered only in debug builds) may write only memory it allocates itself; printing is allowed",
        "explanation": "a copy of the headers wraps every assertion argument and debug-only block into a lambda; may-write summaries over the IR decide for every instance in the units of /verif and the unit tests (compiled, not run) whether evaluating it can write captured or static memory. Assertions in templates no unit instantiates are checked over their text (no assignment, increment or decrement)."})
    res.samples += sorted(sites)[:60]

# ------------------------------------------------------------------ main
def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}

def main(argv):
    import props
    prop = argv[0]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time(); res = Result()
    if prop not in props.PROPS: print("unknown property", prop); return 2
    try:
        build_tools()
        for engine, cfg in props.PROPS[prop]: engine(prop, res, cfg, tier)
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, e)); return 2
    known = {(k["property"], k["site"]): k for k in load_known()["findings"] if not k.get("fixed")}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    nv = 0
    for v in res.viol:
        k = known.get((prop, v["site"]))
        if k: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"])); continue
        nv += 1
        d = os.path.join(VERIF, "evidence", "replay"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.txt" % (prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", v["site"])[:120]))
        open(p, "w").write("property %s\n%s\n\n%s\n" % (prop, v["text"], v.get("detail", "")))
        print(v["text"]); print("VIOLATION property=%s replay=%s" % (prop, p))
    res.cov.setdefault("explanation", "")
    res.cov["samples"] = res.samples
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": res.cov, "assumptions": res.assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": nv}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d violation(s), %s, %.1fs" % (prop, nv, {k: v for k, v in res.cov.items() if isinstance(v, int)}, time.time() - t0))
    return 1 if nv else 0
