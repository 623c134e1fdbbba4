#!/usr/bin/env python3
"""Decides one property: check.py C01 [--tier quick|thorough] [--seed N]

1. TLC checks the design models of the property (spec/MC_*.tla).
2. The driver is built from the working tree of the repository and runs
   scenarios: behaviours that TLC generated from the specification and seeded
   random ones.
3. TLC checks the recorded traces against spec/Trace.tla.

Exit 0: held; exit 1 with a VIOLATION line: broken; exit 2: no answer."""
import sys, os, json, traceback, time, subprocess, tempfile, shutil, hashlib, re, random
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import script, mix, models

REPO = os.environ.get("LP_REPO", "/repo")
SRC = os.path.join(REPO, "src", "lpaggreg")
SPEC = os.path.join(HERE, "spec")
CACHE = os.path.join(HERE, ".cache")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 1)
TABLE = 16384

PARALLEL = ("C25",)     # scenarios of this property are several analyses: [what they share, first, second...]

class Broken(Exception):
    """the check itself could not be carried out"""

def log(*a):
    print(*a, flush=True)

# ------------------------------------------------------------------ build ---
CXX = ["g++", "-std=c++11", "-g1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
       "-ftrivial-auto-var-init=pattern"]     # what is used before it is set differs from null

# analyses in threads, under ThreadSanitizer
PAR = ["g++", "-std=c++11", "-g1", "-w", "-fsanitize=thread", "-DPAR", "-pthread", "-D_GLIBCXX_ASSERTIONS"]

def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def build(flags=CXX):
    srcs = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(SRC, "sources")) for f in fs if f.endswith((".cpp", ".cc", ".cxx"))]
    heads = [os.path.join(d, f) for d, _, fs in os.walk(SRC) for f in fs if f.endswith((".h", ".hpp"))]
    drv = os.path.join(HERE, "driver", "driver.cpp")
    if not srcs:
        raise Broken("no sources in %s" % SRC)
    key = digest(srcs + heads + [drv], " ".join(flags))
    out = os.path.join(CACHE, "driver-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="build-", dir=CACHE)
    try:
        incs = ["-I" + d for d in sorted({os.path.dirname(h) for h in heads})]
        def cc(n, s):
            o = os.path.join(tmp, "%d.o" % n)
            r = subprocess.run(flags + ["-O0" if s == drv else "-O1"] + incs + ["-c", s, "-o", o], stderr=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
            if r.returncode:
                raise Broken("%s does not compile:\n%s" % (s, r.stderr[-3000:]))
            return o
        with ThreadPoolExecutor(CORES) as ex:
            objs = list(ex.map(lambda a: cc(*a), enumerate([drv] + srcs)))
        exe = os.path.join(tmp, "driver")
        r = subprocess.run(flags + objs + ["-o", exe], stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise Broken("the driver does not link:\n" + r.stderr[-3000:])
        os.replace(exe, out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out

def tables():
    out = os.path.join(CACHE, "tables-%d.json" % TABLE)
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = "%s.%d" % (out, os.getpid())
        subprocess.run([sys.executable, os.path.join(HERE, "tools", "gentables.py"), tmp, str(TABLE)], check=True)
        os.replace(tmp, out)
    return out

# -------------------------------------------------------------------- TLC ---
def tlc(cfg, module, work, env=None, workers=1, heap="2g", extra=(), timeout=850):
    """runs TLC; returns (exit code, output)"""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work)
    # TLC writes beside the module: it gets a copy of the directory
    cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + meta,
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(meta, "m"), "-noGenerateSpecTE",
           "-config", cfg, *extra, module]
    e = dict(os.environ); e.update({"TABLES": tables()}); e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        return -1, (o.decode("utf8", "replace") if isinstance(o, bytes) else o) + "\n(timeout)"
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m: return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))

def proofs(work):
    """the laws of spec/Proofs.tla, for all integers"""
    t = time.time()
    d = os.path.join(work, "proofs"); os.mkdir(d)
    for f in ("Order.tla", "Proofs.tla"): shutil.copy(os.path.join(SPEC, f), d)
    for stretch in ("1", "5"):
        try:
            r = subprocess.run(["tlapm", "--threads", "2", "--stretch", stretch, "Proofs.tla"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=400)
        except (OSError, subprocess.TimeoutExpired) as e:
            raise Broken("the proofs could not be checked: %s" % e)
        m = re.search(r"All (\d+) obligations proved", r.stdout)
        if m and r.returncode == 0:
            return {"module": "Proofs", "obligations": int(m.group(1)), "proved": int(m.group(1)), "s": round(time.time() - t, 1)}
    raise Broken("not proved:\n" + r.stdout[-2000:])

def check_model(spec, work, seed):
    name, module, constants, args, wrong = spec
    t = time.time()
    cfg = os.path.join(work, name + ".cfg")
    open(cfg, "w").write(models.config(SPEC, module, constants))
    code, out = tlc(cfg, module + ".tla", work, extra=[a.replace("%SEED%", str(seed)) for a in args])
    gen_, dis = counts(out)
    if wrong:
        m = re.search(r"Error: (?:Invariant|Action property) (\w+) is violated", out)
        if not m:
            raise Broken("the model %s of a wrong design is not refuted (exit %d):\n%s" % (name, code, out[-2000:]))
        return {"model": name, "constants": constants, "states": dis, "transitions": gen_, "refuted_as_it_must_be": m.group(1), "s": round(time.time() - t, 1)}
    if code != 0:
        raise Broken("the model %s is not satisfied or failed (exit %d):\n%s" % (name, code, out[-3000:]))
    return {"model": name, "constants": constants, "states": dis, "transitions": gen_, "s": round(time.time() - t, 1)}

def behaviours(g, work, seed):
    t = time.time()
    try:
        scs, info, out = models.generate(g, work, seed, tlc)
    except models.Failed as e:
        raise Broken(str(e))
    gen_, dis = counts(out)
    info.update({"states": dis, "transitions": gen_, "s": round(time.time() - t, 1)})
    return scs, info

# ------------------------------------------------------------------ traces ---
def record(driver, scenarios, work, tag):
    """runs the scenarios; the trace as a list of lists of lines"""
    sp, op = os.path.join(work, tag + ".script"), os.path.join(work, tag + ".out")
    script.write_script(scenarios, sp)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:hard_rss_limit_mb=2500:allocator_may_return_null=0:detect_stack_use_after_return=0:symbolize=0")
    try:
        r = subprocess.run([driver, sp, op, "30"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=800)
    except subprocess.TimeoutExpired:
        raise Broken("the driver ran out of time")
    if r.returncode:
        raise Broken("the driver failed (%d): %s" % (r.returncode, r.stderr[-1000:]))
    res = {}
    for line in open(op):
        d = json.loads(line); res[(d["sc"], d["ix"])] = d["res"]
    out = []
    for n, sc in enumerate(scenarios):
        lines = [{"sc": n, "ix": -1, "op": {"op": "scenario"}, "res": {"ok": 1}}]
        for i, op_ in enumerate(sc):
            x = res.get((n, i))
            if x is None: break
            lines.append({"sc": n, "ix": i, "op": op_, "res": x})
            if "died" in x: break
        else:
            out.append(lines); continue
        if "died" in lines[-1]["res"]: out.append(lines)
        elif len(lines) == 1: out.append(None)     # not run: the driver stopped after too many deaths
        else: raise Broken("scenario %d was cut short" % n)
    os.unlink(sp); os.unlink(op)
    return out

def record_parallel(driver, scenarios, work, tag):
    """runs analyses alone and at the same time"""
    sp, op = os.path.join(work, tag + ".script"), os.path.join(work, tag + ".out")
    with open(sp, "w") as f:
        for n, sc in enumerate(scenarios):
            f.write("scenario %d\n" % n)
            for part in sc:
                f.write("".join(["thread\n"] * (part is not sc[0]) + [script.lower(o) + "\n" for o in part]))
    env = dict(os.environ, TSAN_OPTIONS="report_signal_unsafe=0:exitcode=0:log_path=/dev/null:history_size=4:report_thread_leaks=0:symbolize=0:second_deadlock_stack=0")
    try:
        r = subprocess.run([driver, sp, op, "30"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=800)
    except subprocess.TimeoutExpired:
        raise Broken("the driver ran out of time")
    if r.returncode:
        raise Broken("the driver failed (%d): %s" % (r.returncode, r.stderr[-1000:]))
    out = [[{"sc": n, "ix": -1, "op": {"op": "scenario"}, "res": {"ok": 1}}] for n in range(len(scenarios))]
    bad = set()
    for line in open(op):
        d = json.loads(line); t = out[d["sc"]]; ix = len(t) - 1
        if "died" in d:
            if d["died"]: t.append({"sc": d["sc"], "ix": ix, "op": {"op": "joined"}, "res": {"died": "crash or timeout"}})
            else: bad.add(d["sc"])       # it dies alone: nothing to compare
        elif "races" in d:
            t.append({"sc": d["sc"], "ix": ix, "op": {"op": "joined", "threads": len(scenarios[d["sc"]]) - 1}, "res": {"races": d["races"]}})
        else:
            t.append({"sc": d["sc"], "ix": ix, "op": {"op": "step", "th": d["th"], "n": d["n"], "solo": d["solo"]}, "res": {"dg": d["dg"]}})
    os.unlink(sp); os.unlink(op)
    for n in bad: out[n] = None
    for n, t in enumerate(out):
        if t and len(t) == 1: out[n] = None      # not run: the driver stopped after too many deaths
        elif t and t[-1]["op"]["op"] != "joined": raise Broken("scenario %d was cut short" % n)
    return out

def validate(traces, prop, work, tag):
    """TLC checks traces of scenarios; returns (violations, states, transitions, inconclusive)"""
    vio, st, tr, odd = [], 0, 0, []
    todo = [t for t in traces if t]
    pf = os.path.join(work, tag + ".props"); json.dump([prop], open(pf, "w"))
    while todo:
        tf = os.path.join(work, tag + ".trace")
        with open(tf, "w") as f:
            for t in todo:
                for l in t: f.write(json.dumps(l) + "\n")
        code, out = tlc("Trace.cfg", "Trace.tla", work, {"TRACE": tf, "PROPS": pf})
        os.unlink(tf)
        g, d = counts(out); st += d; tr += g
        # TLC may break a printed value over several lines
        for m in re.finditer(r'<<\s*"VIOLATED",\s*(\d+),\s*(-?\d+),\s*"(\w+)",(.*?)\}\s*>>', out, re.S):
            msg = "; ".join(re.findall(r'<<\s*"%s",\s*"((?:[^"\\]|\\.)*)"' % prop, m.group(4)))
            vio.append((int(m.group(1)), int(m.group(2)), m.group(3), msg))
        if code == 0:
            break
        total = sum(len(t) for t in todo)
        if code == -1 or d == 0 or d > total:
            raise Broken("TLC failed on a trace (exit %d):\n%s" % (code, out[-3000:]))
        # the line after the last state could not be judged: the rest is checked without its scenario
        at = d - 1
        for n, t in enumerate(todo):
            if at < len(t):
                err = re.search(r"Error: (?!The behavior)(.*?)(?:\n\n|Error: The behavior)", out, re.S)
                odd.append((t[at]["sc"], t[at]["ix"], t[at]["op"]["op"], (err.group(1) if err else out[-500:])[:600]))
                todo = todo[n + 1:]
                break
            at -= len(t)
        if len(odd) > 5:
            break
    return vio, st, tr, odd

def run_shard(a):
    driver, scs, prop, work, tag = a
    tr = (record_parallel if prop in PARALLEL else record)(driver, scs, work, tag)
    vio, st, n, odd = validate(tr, prop, work, tag)
    calls = sum(len(t) - 1 for t in tr if t)
    kinds = {}
    for t in tr:
        for l in (t or [])[1:]: kinds[l["op"]["op"]] = kinds.get(l["op"]["op"], 0) + 1
    return dict(vio=vio, states=st, transitions=n, odd=odd, calls=calls, kinds=kinds, done=sum(1 for t in tr if t), scs=scs)

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if "--seed" in sys.argv: seed = int(sys.argv[sys.argv.index("--seed") + 1])
    work = tempfile.mkdtemp(prefix="lp-%s-" % prop)
    try:
        return check(prop, tier, seed, work, t0)
    except Broken as e:
        log("NO ANSWER for %s: %s" % (prop, e)); return 2
    except Exception:
        log("NO ANSWER for %s: %s" % (prop, traceback.format_exc())); return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

def lowered(sc):
    return [lowered(o) if isinstance(o, list) else script.lower(o) for o in sc]

def save_replay(prop, sc, trace, what):
    d = os.path.join(HERE, "evidence", "replay"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.json" % prop)
    json.dump({"property": prop, "what": what, "script": lowered(sc), "calls": sc, "trace": trace}, open(p, "w"), indent=1)
    return p

def check(prop, tier, seed, work, t0):
    thorough = tier == "thorough"
    with ThreadPoolExecutor(CORES) as ex:
        fut = ex.submit(build, PAR if prop in PARALLEL else CXX)
        tables()
        ms = [ex.submit(check_model, m, work, seed) for m in models.models(prop, tier)]
        pf = ex.submit(proofs, work) if tier == "thorough" and prop in models.PROVED else None
        gs = [ex.submit(behaviours, g, work, seed) for g in models.generators(prop, tier, seed)]
        driver = fut.result()
        design = [f.result() for f in ms]
        made = [f.result() for f in gs]
        proved = pf.result() if pf else None
        generated = [sc for scs, _ in made for sc in scs]
    t1 = time.time()
    scs = generated + mix.scenarios(prop, seed, mix.SCALE.get(prop, (6, 40))[1 if thorough else 0])
    # big and small scenarios are spread evenly
    random.Random(seed).shuffle(scs)
    per = 400
    k = max(CORES, (len(scs) + per - 1) // per)
    shards = [scs[i::k] for i in range(k)]
    with ThreadPoolExecutor(CORES) as ex:
        rs = list(ex.map(run_shard, [(driver, s, prop, work, "s%d" % n) for n, s in enumerate(shards) if s]))
    t2 = time.time()
    viol = [(sc, ix, op, msg, r) for r in rs for sc, ix, op, msg in r["vio"]]
    odd = [o for r in rs for o in r["odd"]]
    states = sum(r["states"] for r in rs); trans = sum(r["transitions"] for r in rs)
    done = sum(r["done"] for r in rs)
    kinds = {}
    for r in rs:
        for a, b in r["kinds"].items(): kinds[a] = kinds.get(a, 0) + b
    confirmed = None
    if viol:
        # the shortest first; a violation counts if the scenario fails again by itself
        seen = set(); cand = []
        for sc, ix, op, msg, r in viol:
            if (id(r), sc) not in seen:
                seen.add((id(r), sc)); cand.append((len(json.dumps(r["scs"][sc])), r["scs"][sc]))
        cand.sort(key=lambda c: c[0])
        for n, (_, sc) in enumerate(cand[:8]):
            # which accesses collide varies from run to run
            for _ in range(5 if prop in PARALLEL else 1):
                tr = (record_parallel if prop in PARALLEL else record)(driver, [sc], work, "again%d" % n)
                v, _, _, _ = validate(tr, prop, work, "again%d" % n)
                if v: break
            if v:
                what = [{"call": ix, "op": op, "why": msg} for _, ix, op, msg in v]
                confirmed = (sc, what, save_replay(prop, sc, tr[0], what)); break
    d = os.path.join(HERE, "evidence"); os.makedirs(d, exist_ok=True)
    sample = min((s for s in scs), key=lambda s: abs(len(json.dumps(s)) - 900))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": sum(m["states"] for m in design) + sum(i["states"] for _, i in made) + states,
              "transitions": sum(m["transitions"] for m in design) + sum(i["transitions"] for _, i in made) + trans,
              "traces_validated_against_impl": done,
              "calls_validated": sum(r["calls"] for r in rs), "calls_by_kind": kinds,
              "scenarios_generated_by_tlc": len(generated), "design_models": design, "universes": [i for _, i in made],
              "samples": [lowered(sample)]},
          "assumptions": models.assumptions(prop),
          "wall_s": round(time.time() - t0, 1), "violations": len(viol) if confirmed else 0}
    if proved: ev["coverage"]["laws_proved_with_tlapm"] = proved
    json.dump(ev, open(os.path.join(d, prop + ".json"), "w"), indent=1)
    log("%s %s seed %d: %d design states, %d scenarios (%d from TLC), %d calls; %.0f s models and build, %.0f s traces"
        % (prop, tier, seed, sum(m["states"] for m in design), done, len(generated), sum(r["calls"] for r in rs), t1 - t0, t2 - t1))
    if confirmed:
        for w in confirmed[1][:5]: log("  call %d (%s): %s" % (w["call"], w["op"], w["why"]))
        log("VIOLATION property=%s replay=%s" % (prop, confirmed[2])); return 1
    # a scenario that only ran out of time when the machine was busy, and passes by itself, is judged
    if viol and not (len(cand) <= 8 and all("did not return: timeout" in m for _, _, _, m, _ in viol)):
        raise Broken("a rejection was not confirmed: %s" % (viol[0][:4],))
    if odd:
        raise Broken("%d scenarios could not be judged, first: %s" % (len(odd), odd[0]))
    return 0

if __name__ == "__main__":
    sys.exit(main())
