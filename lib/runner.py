"""Runs the obligations of one property: regenerates the encoding (LLVM IR) from /repo, lets symx + z3 decide it, replays
every counterexample on the real code compiled natively, writes the evidence file."""
import hashlib, json, os, resource, shutil, signal, subprocess, sys, threading, time, random, shlex

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SPASM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
SYMX = os.path.join(BUILD, "symx")
HARN = os.path.join(VERIF, "harness")
NCPU = len(os.sched_getaffinity(0)) or 4
GRACE = 60      # once a violation is confirmed, the other obligations get this many seconds more
SRC = os.path.join(REPO, "src")
TOOLS = os.path.join(REPO, "tools")
INC = ["-I" + HARN + "/inc", "-I" + HARN, "-I" + SRC]
IRF = ["-O0", "-Xclang", "-disable-O0-optnone", "-fopenmp", "-ffp-contract=off", "-g", "-emit-llvm", "-c", "-w"]


class ToolError(Exception):
    pass


def sh(cmd, timeout=600, env=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, errors="replace", **kw)


def must(cmd, **kw):
    r = sh(cmd, **kw)
    if r.returncode:
        raise ToolError(" ".join(cmd) + "\n" + r.stdout[-3000:])
    return r.stdout


def filehash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.basename(p).encode() + b"\0")
        h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def headers():
    hs = [os.path.join(SRC, f) for f in os.listdir(SRC) if f.endswith(".h")]
    hs += [os.path.join(TOOLS, f) for f in os.listdir(TOOLS) if f.endswith(".h")]
    for d, _, fs in os.walk(HARN):
        hs += [os.path.join(d, f) for f in fs if f.endswith(".h")]
    return hs


def ensure_engine():
    r = sh(["make", "-s", "-j8", "-C", os.path.join(VERIF, "engine")], timeout=900)
    if r.returncode or not os.path.exists(SYMX):
        raise ToolError("cannot build the engine:\n" + r.stdout[-3000:])


_lock = threading.Lock()
_locks = {}


def once(key):
    with _lock:
        return _locks.setdefault(key, threading.Lock())


def to_bc(src, defs=(), tag=""):
    """C or C++ source -> bitcode, cached by content"""
    cxx = src.endswith(".cpp")
    key = filehash([src] + headers(), tag + " ".join(defs))
    out = os.path.join(BUILD, "bc", "%s.%s.bc" % (os.path.basename(src), key))
    with once(out):
        if os.path.exists(out):
            return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        if cxx:
            cmd = ["clang++"] + INC + ["-I" + HARN + "/fakeff", "-fno-exceptions", "-fno-rtti"]
        else:
            cmd = ["clang", "-std=gnu99"] + INC + ["-I" + TOOLS]
        tool = "-Dmain=tool_main" in defs
        must(cmd + IRF + [x for x in defs if x != "-Dmain=tool_main"] + [src, "-o", tmp])
        if tool:    # renamed after compilation: main() has an implicit return 0 that other functions have not
            must(["llvm-dis", tmp, "-o", tmp + ".ll"])
            ir = open(tmp + ".ll").read().replace("@main(", "@tool_main(")
            open(tmp + ".ll", "w").write(ir)
            must(["llvm-as", tmp + ".ll", "-o", tmp])
            os.unlink(tmp + ".ll")
        must(["opt", "-passes=sroa", tmp, "-o", tmp + "2"])
        os.unlink(tmp)
        os.rename(tmp + "2", out)
    return out


def to_obj(src, defs=(), san="address", weaken=True, realff=False):
    """native object of the real code"""
    cxx = src.endswith(".cpp")
    key = filehash([src] + headers(), "native" + san + str(weaken) + str(realff) + " ".join(defs))
    out = os.path.join(BUILD, "obj", "%s.%s.o" % (os.path.basename(src), key))
    with once(out):
        if os.path.exists(out):
            return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        sanf = {"address": ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], "undefined": ["-fsanitize=undefined", "-fno-sanitize-recover=undefined"]}.get(san, [])
        nat = ["-O1", "-g", "-fno-inline", "-fno-ipa-cp", "-fno-ipa-pure-const", "-ffp-contract=off", "-fopenmp", "-w"]
        if cxx and realff:
            cmd = ["g++", "-I" + SRC, "-O1", "-g", "-fopenmp", "-w"]
        elif cxx:
            cmd = ["g++", "-I" + HARN, "-I" + SRC, "-I" + HARN + "/fakeff"] + nat + sanf
        else:
            cmd = ["gcc", "-std=gnu99", "-I" + HARN, "-I" + SRC, "-I" + TOOLS] + nat + sanf
        tool = "-Dmain=tool_main" in defs
        must(cmd + [x for x in defs if x != "-Dmain=tool_main"] + ["-c", src, "-o", tmp])
        oc = ["--weaken"] if weaken else []
        if tool:
            oc += ["--redefine-sym", "main=tool_main"]
        if not src.endswith("/replay.c") and not (cxx and realff):
            for f in ("malloc", "calloc", "realloc", "free"):
                oc += ["--redefine-sym", "%s=sx_native_%s" % (f, f)]
        if oc:
            must(["objcopy"] + oc + [tmp])
        os.rename(tmp, out)
    return out


class Ob:
    """one obligation: a harness over symbolic inputs"""
    def __init__(self, name, harness, defs="", models=(), field="stub", src="lib", ff=False, threads=1, preempt=0, args="",
                 jobs=1, time=200, what="", bound="", tier="quick", kinds=None, reach=(), native=True, witnesses=4, exclude=(), env=None, search=False, tools=(), san="address"):
        self.__dict__.update(locals())
        del self.__dict__["self"]


def lib_sources(ob):
    l = []
    if ob.src == "lib":
        for f in sorted(os.listdir(SRC)):
            if f.endswith(".c") or f.endswith(".cpp"):
                if f in ob.exclude:
                    continue
                l.append(os.path.join(SRC, f))
    else:
        l = [os.path.join(REPO, f) for f in ob.src]
    return l


def link_ob(ob, d):
    defs = shlex.split(ob.defs)
    mods = [to_bc(os.path.join(HARN, ob.harness), defs)]
    mods += [to_bc(os.path.join(HARN, m.replace("engine:", "")), defs) for m in ob.models if not m.startswith("native:")]
    mods.append(to_bc(os.path.join(HARN, "libc_model.c")))
    if ob.field == "stub":
        mods.append(to_bc(os.path.join(HARN, "zz_stub.c")))
    for s in lib_sources(ob):
        mods.append(to_bc(s))
    for t in getattr(ob, "tools", ()) or ():
        mods.append(to_bc(os.path.join(REPO, t), ["-Dmain=tool_main"]))
    out = os.path.join(d, "all.bc")
    must(["llvm-link"] + mods + ["-o", out])
    return out


def native_bin(ob, d, san=None, realff=False):
    san = san or ob.san
    key = "native_%s_%d" % (san, realff)
    out = os.path.join(d, key)
    with once(out):
        if os.path.exists(out):
            return out
        defs = shlex.split(ob.defs)
        objs = [to_obj(os.path.join(HARN, ob.harness), defs + ["-DSX_REPLAY"], san, weaken=False),
                to_obj(os.path.join(HARN, "replay.c"), ["-DSX_REPLAY"], san, weaken=False)]
        objs += [to_obj(os.path.join(HARN, m.replace("native:", "")), defs + ["-DSX_REPLAY"], san, weaken=False) for m in ob.models if not m.startswith("engine:")]
        srcs = lib_sources(ob)
        objs += [to_obj(s, (), san, True, realff and s.endswith(".cpp")) for s in srcs]
        for t in getattr(ob, "tools", ()) or ():
            objs.append(to_obj(os.path.join(REPO, t), ["-Dmain=tool_main"], san))
        libs = ["-lm", "-fopenmp"]
        if realff:
            libs += shlex.split(sh(["pkg-config", "--libs", "fflas-ffpack"]).stdout.strip() or "-lopenblas -lgivaro -lgmp")
        must(["g++"] + ({"address": ["-fsanitize=address,undefined"], "undefined": ["-fsanitize=undefined"]}.get(san, [])) + objs + ["-o", out] + libs)
    return out


def run_native(binary, inputs, d, n, env=None):
    """returns (status, output): ok / fail / crash / mismatch / timeout"""
    f = os.path.join(d, "in%s.txt" % n)
    with open(f, "w") as g:
        for name, v in inputs:
            g.write("%s %d\n" % (name.replace(" ", "_") or "_", v))
    e = dict(os.environ, SX_INPUTS=f, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OMP_WAIT_POLICY="PASSIVE",
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", MALLOC_PERTURB_="165",
             UBSAN_OPTIONS="halt_on_error=1:exitcode=99:print_stacktrace=0")
    if env:
        e.update(env)
    if "native_address" not in binary:
        del e["MALLOC_PERTURB_"]        # (would touch gigabytes in C23)
    try:
        r = subprocess.run([binary], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=e, errors="replace", cwd=d)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    if r.returncode == 77:
        return "mismatch", r.stdout
    if r.returncode == 66 or "SX-FAIL:" in r.stdout:
        return "fail", r.stdout
    if r.returncode == 0 and "SX-OK" in r.stdout:
        return "ok", r.stdout
    return "crash", r.stdout


def merge(out):
    files = [out]
    if os.path.exists(out + ".parts"):
        files += [l.strip() for l in open(out + ".parts")]
    T = dict(complete=True, reach={}, reasons={}, functions=set(), assertions={}, cov={}, racy=set(), witnesses=[], violations=[], missing=0)
    for f in files:
        try:
            j = json.load(open(f))
        except Exception:
            T["missing"] += 1
            T["complete"] = False
            continue
        for k, v in j.items():
            if isinstance(v, bool):
                T[k] = T.get(k, True) and v
            elif isinstance(v, (int, float)):
                T[k] = T.get(k, 0) + v
        for k in ("reach", "reasons"):
            for a, b in j.get(k, {}).items():
                T[k][a] = T[k].get(a, 0) + b
        T["functions"] |= set(j.get("functions", []))
        for fl, ls in j.get("cov", {}).items():
            d = T["cov"].setdefault(fl, {})
            for a, b in ls.items():
                d[a] = d.get(a, 0) | b
        for a in j.get("assertions", []):
            T["assertions"][str(a)] = 1
        T["racy"] |= set(j.get("racy", []))
        T["witnesses"] += j.get("witnesses", [])
        T["violations"] += j.get("violations", [])
    for f in files[1:]:
        try:
            os.unlink(f)
        except OSError:
            pass
    return T


def norm_inputs(v):
    r = []
    for x in v:
        if isinstance(x, dict):
            r.append((x.get("name", "_"), int(x.get("value", x.get("v", 0)))))
        else:
            r.append((str(x[0]), int(x[1])))
    return r


def run_engine(cmd, log, limit, stop, env):
    """runs symx in its own process group, until it ends, the limit, or stop (a violation is confirmed already)"""
    t0 = time.time()
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, start_new_session=True,
                             preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)))
        why = None
        while p.poll() is None:
            if time.time() - t0 > limit:
                why = "engine timeout"
            elif stop["at"] is not None and time.time() > stop["at"]:
                why = "stopped: a violation is confirmed in another obligation"
            if why:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                break
            time.sleep(0.02)
    return p.returncode, why


def run_ob(ob, base, seed, deadline, stop):
    d = os.path.join(base, ob.name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t0 = time.time()
    res = dict(name=ob.name, ob=ob, dir=d, error=None)
    try:
        bc = link_ob(ob, d)
    except ToolError as e:
        res["error"] = "encoding: " + str(e)[-1500:]
        res["wall"] = time.time() - t0
        return res
    racy, tot = set(), None
    rounds = 0
    while True:
        left = min(ob.time, deadline - time.time())
        if left < 2:
            res["error"] = "no time left"
            break
        out = os.path.join(d, "out.json")
        for f in os.listdir(d):
            if f.startswith("out.json"):
                os.unlink(os.path.join(d, f))
        cmd = [SYMX, bc, "--out", out, "--time", "%d" % left, "--jobs", str(ob.jobs), "--threads", str(ob.threads), "--preempt", str(ob.preempt),
               "--witnesses", str(ob.witnesses), "--seed", str(seed)] + shlex.split(ob.args)
        if racy:
            cmd += ["--racy", ",".join(map(str, sorted(racy)))]
        res["cmd"] = " ".join(cmd)
        rc, why = run_engine(cmd, os.path.join(d, "log"), left + 15, stop, dict(os.environ, **(ob.env or {})))
        if why:
            res["error"] = why
            break
        if rc not in (0, 1):
            res["error"] = "engine exit %d: %s" % (rc, open(os.path.join(d, "log"), errors="replace").read()[-500:])
        tot = merge(out)
        rounds += 1
        if ob.threads > 1 and (tot["racy"] - racy) and rounds < 6 and not tot["violations"]:
            racy |= tot["racy"]
            continue
        break
    res["rounds"] = rounds
    res["racy"] = sorted(racy)
    res["tot"] = tot
    res["wall"] = time.time() - t0
    return res


def kinds_ok(ob, v):
    return ob.kinds is None or v["kind"] in ob.kinds or any(k.startswith(v["kind"] + ":") and k.split(":", 1)[1] in v["msg"] for k in ob.kinds)


def confirm(ob, d, v, n):
    """replay a counterexample natively.  returns (verdict, detail, binary)"""
    if not ob.native:
        return "engine-only", "", None
    ins = norm_inputs(v["inputs"])
    b = native_bin(ob, d)
    st, o = run_native(b, ins, d, n)
    if st in ("fail", "crash", "timeout"):
        return "confirmed", st + ": " + o[-1200:], b
    if ob.search:   # the solver's model is over-approximate (rounding, products): directed search for concrete operands
        st, o = run_native(native_bin(ob, d, san="none"), ins, d, n, env={"SX_SEARCH": "1"})
        if st in ("fail", "crash"):
            return "confirmed", st + ": " + o[-1200:], b
    if v["kind"].startswith("uninit") or "uninit" in v["msg"]:
        pb = native_bin(ob, d, san="none")
        e = dict(os.environ, SX_INPUTS=os.path.join(d, "in%s.txt" % n), OMP_NUM_THREADS="1")
        r = subprocess.run(["valgrind", "-q", "--error-exitcode=98", "--leak-check=no", pb], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, errors="replace", timeout=200)
        if r.returncode in (98, 66):
            return "confirmed", "valgrind: " + r.stdout[-1200:], pb
    if ob.threads > 1:
        return "schedule", "reproduced by the IR interpreter under schedule %s" % str(v.get("sched", ""))[:400], b
    return "unreproduced", st + ": " + o[-600:], b


def load_known(prop):
    k = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                # finding: property=C01 obligation=<name> msg=<substring>
                f = dict(x.split("=", 1) for x in l[len("finding:"):].strip().split(" ", 2))
                if f.get("property") == prop:
                    k.append(f)
    return k


def run_property(prop, obs, meta, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget = 780 if tier == "quick" else 6 * 3600
    deadline = t0 + budget
    os.makedirs(EVID, exist_ok=True)
    ensure_engine()
    base = os.path.join(BUILD, "run", prop)
    shutil.rmtree(base, ignore_errors=True)
    obs = [o for o in obs if o.tier == "quick" or tier == "thorough"]
    results, lock, sem = [], threading.Lock(), threading.Condition()
    free = [NCPU]
    stop = dict(at=None)
    known = load_known(prop)

    def worker(ob):
        need = min(ob.jobs, NCPU)
        with sem:
            while free[0] < need:
                sem.wait()
            free[0] -= need
        try:
            try:
                if stop["at"] is not None and time.time() > stop["at"]:
                    r = dict(name=ob.name, ob=ob, error="not started: a violation is confirmed in another obligation", tot=None, dir=base, wall=0)
                else:
                    r = run_ob(ob, base, seed, deadline, stop)
                    if stop["at"] is None and r.get("tot"):
                        for v in [v for v in r["tot"]["violations"] if kinds_ok(ob, v)][:1]:
                            if not known and confirm(ob, r["dir"], v, "first")[0] in ("confirmed", "schedule", "engine-only"):
                                stop["at"] = time.time() + GRACE
            except Exception as e:
                r = dict(name=ob.name, ob=ob, error="runner: %r" % e, tot=None, dir=base, wall=0)
            with lock:
                results.append(r)
        finally:
            with sem:
                free[0] += need
                sem.notify_all()
    # compile the shared bitcode in parallel first
    ths = [threading.Thread(target=lambda s=s: _try(lambda: to_bc(s))) for s in {x for o in obs for x in lib_sources(o)}]
    [t.start() for t in ths]
    [t.join() for t in ths]
    ths = [threading.Thread(target=worker, args=(o,)) for o in sorted(obs, key=lambda o: -o.time)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    results.sort(key=lambda r: r["name"])

    violations, unconf, disag, vacuous, errors, knownhits = [], [], [], [], [], []
    validated = 0
    wit_jobs = []
    for r in results:
        ob, T = r["ob"], r.get("tot")
        if r.get("error"):
            errors.append("%s: %s" % (r["name"], r["error"]))
        if not T:
            continue
        seen = {}
        nrep = 0
        for v in T["violations"]:
            if not kinds_ok(ob, v):
                continue
            k = (v["kind"], v["msg"], v["loc"])
            if seen.get(k, 0) >= 3 or nrep > 12:
                continue
            seen[k] = seen.get(k, 0) + 1
            nrep += 1
            try:
                verdict, det, b = confirm(ob, r["dir"], v, "v%d" % nrep)
            except Exception as e:
                verdict, det, b = "unreproduced", "native replay failed: %r" % e, None
            rec = dict(obligation=ob.name, kind=v["kind"], msg=v["msg"], loc=v["loc"], inputs=norm_inputs(v["inputs"]), sched=v.get("sched"), verdict=verdict, detail=det)
            if verdict in ("confirmed", "schedule", "engine-only"):
                kf = [f for f in known if f.get("obligation") in (ob.name, "*") and f.get("msg", "") in (v["msg"] + " " + v["loc"] + " " + det)]
                if kf:
                    knownhits.append((kf[0], rec))
                else:
                    violations.append((rec, r, b))
            else:
                unconf.append(rec)
        for w in ob.reach:
            if T["complete"] and not r.get("error") and not T["reach"].get(w):
                vacuous.append("%s: never reached '%s'" % (ob.name, w))
        if ob.native and T["witnesses"] and ob.threads == 1:
            random.Random(seed).shuffle(T["witnesses"])
            wit_jobs.append((r, T["witnesses"][:ob.witnesses]))

    def wit(r, ws, acc):
        ob = r["ob"]
        try:
            b = native_bin(ob, r["dir"], realff=False)
        except Exception as e:
            errors.append("%s: native build: %s" % (ob.name, str(e)[-600:]))
            return
        for i, w in enumerate(ws):
            st, o = run_native(b, norm_inputs(w["inputs"]), r["dir"], "w%d" % i)
            outs = [int(l.split()[1]) for l in o.splitlines() if l.startswith("SX-OUT ")]
            exp = [int(x) for x in w.get("outs", [])]
            acc.append((r, w, st, o, outs == exp[:len(outs)] and len(outs) == len(exp), exp, outs))
    acc = []
    ths = [threading.Thread(target=wit, args=(r, ws, acc)) for r, ws in wit_jobs] if time.time() < deadline else []
    import queue
    for i in range(0, len(ths), NCPU):
        [t.start() for t in ths[i:i + NCPU]]
        [t.join() for t in ths[i:i + NCPU]]
    for r, w, st, o, same, exp, outs in acc:
        ob = r["ob"]
        if st == "ok" and same:
            validated += 1
        elif st in ("fail", "crash"):
            rec = dict(obligation=ob.name, kind="witness", msg="the native run of a witness fails: " + o[-300:], loc="", inputs=norm_inputs(w["inputs"]), sched="", verdict="confirmed", detail=o[-1200:])
            (violations.append((rec, r, None)) if kinds_ok(ob, rec) or ob.kinds is None else None)
        else:
            disag.append(dict(obligation=ob.name, status=st, inputs=norm_inputs(w["inputs"])[:40], expected=exp[:20], native=outs[:20], out=o[-300:]))

    # report
    rc = 0
    for kf, rec in knownhits:
        print("KNOWN-FINDING: property=%s %s %s" % (prop, rec["obligation"], rec["msg"]))
    seenv = set()
    for n, (rec, r, b) in enumerate(violations):
        key = (rec["obligation"], rec["kind"], rec["msg"][:80], rec["loc"])
        if key in seenv:
            continue
        seenv.add(key)
        rd = os.path.join(EVID, "replay", "%s-%d" % (prop, len(seenv)))
        shutil.rmtree(rd, ignore_errors=True)
        os.makedirs(rd)
        with open(os.path.join(rd, "inputs.txt"), "w") as f:
            for name, v in rec["inputs"]:
                f.write("%s %d\n" % (name.replace(" ", "_") or "_", v))
        json.dump(rec, open(os.path.join(rd, "counterexample.json"), "w"), indent=1)
        with open(os.path.join(rd, "replay.sh"), "w") as f:
            f.write("#!/bin/sh\n# native replay of the counterexample on the real code of %s (obligation %s)\ncd %s && exec ./check --replay %s %s %s\n"
                    % (REPO, rec["obligation"], VERIF, prop, rec["obligation"], os.path.join(rd, "inputs.txt")))
        os.chmod(os.path.join(rd, "replay.sh"), 0o755)
        print("%s: [%s] %s at %s (%s)" % (rec["obligation"], rec["kind"], rec["msg"], rec["loc"], rec["verdict"]))
        print("VIOLATION property=%s replay=%s" % (prop, rd))
        rc = 1
        if len(seenv) >= 5:
            break

    def tot(k):
        return sum((r["tot"] or {}).get(k, 0) for r in results if r.get("tot"))
    funcs = sorted({f for r in results if r.get("tot") for f in r["tot"]["functions"]})
    reposyms = repo_functions()
    cov, lines = {}, {}
    for r in results:
        for fl, ls in (r["tot"]["cov"] if r.get("tot") else {}).items():
            rel = os.path.relpath(os.path.normpath(os.path.join(REPO, fl)), REPO)
            if rel.startswith(("src/", "tools/")):
                d = cov.setdefault(rel, {})
                for a, b in ls.items():
                    d[a] = d.get(a, 0) | b
    for fl, d in sorted(cov.items()):
        lines[fl] = "%d of %d lines of the functions reached" % (sum(1 for v in d.values() if v & 1), len(d))
    os.makedirs(os.path.join(BUILD, "cov"), exist_ok=True)
    with open(os.path.join(BUILD, "cov", prop + ".json"), "w") as f:
        json.dump(cov, f)
    enc = sorted(f for f in funcs if f in reposyms)
    per = []
    for r in results:
        T = r.get("tot")
        e = dict(obligation=r["name"], what=r["ob"].what, bound=r["ob"].bound, harness=r["ob"].harness, defines=r["ob"].defs, wall_s=round(r.get("wall", 0), 2), error=r.get("error"))
        if T:
            e.update(paths=T.get("paths", 0), proved=T.get("ok", 0), complete=T["complete"] and not r.get("error") and T.get("inconclusive", 0) == 0 and T.get("errpaths", 0) == 0,
                     queries=T.get("queries", 0), unsat=T.get("unsat", 0), sat=T.get("sat", 0), unknown=T.get("unknown", 0), cache_hits=T.get("cachehits", 0), solver_s=round(T.get("solver_time", 0), 2),
                     assertions=T.get("asserts", 0), assertions_symbolic=T.get("asserts_symbolic", 0), instructions=T.get("steps", 0), inconclusive=T.get("inconclusive", 0),
                     reach=T["reach"], reasons=T["reasons"], race_rounds=r.get("rounds"))
        per.append(e)
    complete = all(p.get("complete") for p in per)
    samples = []
    for r in results:
        if r.get("tot") and r["tot"]["witnesses"]:
            w = r["tot"]["witnesses"][0]
            samples.append(dict(obligation=r["name"], inputs=norm_inputs(w["inputs"])[:30], outs=w.get("outs", [])[:12]))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=int(tot("paths")), transitions=int(tot("steps")), traces_validated_against_impl=validated, samples=samples[:12] or [dict(note="no path completed")],
                            exhaustive=bool(complete), explanation="states = symbolic paths (each stands for every concrete input satisfying its path condition); transitions = LLVM IR instructions executed symbolically; the solver (z3) decides every branch and every assertion over all values within the stated bounds",
                            obligations=per, functions_encoded=enc, lines_executed_symbolically=lines, queries=int(tot("queries")), unsat=int(tot("unsat")), sat=int(tot("sat")), unknown=int(tot("unknown")), solver_s=round(tot("solver_time"), 2),
                            assertions_decided=int(tot("asserts")), unconfirmed_counterexamples=unconf[:10], native_disagreements=disag[:10], vacuous=vacuous, errors=errors,
                            known_findings=[rec["msg"] for _, rec in knownhits]),
              assumptions=meta.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(seenv))
    if os.path.exists("/root/.vp/EVIDENCE.schema.json"):
        pass
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    ncomp = sum(1 for p in per if p.get("complete"))
    if rc == 0 and obs and not any(p.get("proved") for p in per):
        rc = 2          # nothing was decided
    print("%s %s: %d obligations (%d exhausted within their bounds), %d paths, %d queries (%d unsat, %d sat, %d unknown), %.1fs solver, %d native traces agree, %.0fs" %
          (prop, tier, len(per), ncomp, tot("paths"), tot("queries"), tot("unsat"), tot("sat"), tot("unknown"), tot("solver_time"), validated, time.time() - t0))
    for x in vacuous + errors:
        print("note:", x[:400])
    for x in unconf[:5]:
        print("note: unconfirmed counterexample %s [%s] %s at %s: %s" % (x["obligation"], x["kind"], x["msg"], x["loc"], x["detail"][-200:].replace("\n", " | ")))
    for x in disag[:5]:
        print("note: native disagreement", json.dumps(x)[:300])
    if os.environ.get("KEEP_RUN") is None:
        shutil.rmtree(base, ignore_errors=True)
    return rc


def _try(f):
    try:
        f()
    except Exception:
        pass


_rf = None


def repo_functions():
    """names defined in the C sources of the repository, from the compiled bitcode"""
    global _rf
    if _rf is None:
        _rf = set()
        d = os.path.join(BUILD, "bc")
        names = {f for f in os.listdir(SRC) if f.endswith((".c", ".cpp"))} | {f for f in os.listdir(TOOLS) if f.endswith(".c")}
        for f in (os.listdir(d) if os.path.isdir(d) else []):
            if f.rsplit(".", 2)[0] in names:
                for l in sh(["llvm-nm", "--defined-only", os.path.join(d, f)]).stdout.splitlines():
                    p = l.split()
                    if len(p) >= 2 and p[-2].lower() in "tw":
                        _rf.add(p[-1])
    return _rf


def replay(prop, obs, name, inputs):
    ensure_engine() if False else None
    ob = [o for o in obs if o.name == name][0]
    d = os.path.join(BUILD, "replay", prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    ins = [(l.split()[0], int(l.split()[1])) for l in open(inputs) if l.strip()]
    b = native_bin(ob, d)
    st, o = run_native(b, ins, d, "r")
    print(o[-3000:])
    print("replay:", st)
    return 0 if st == "ok" else 1
