#!/usr/bin/env python3
"""How much of what is recorded is judged?  Changes one recorded value of a
trace at a time and has TLC judge the trace again with all properties.  Every
kind of recorded value that no judgement rejects is listed.

    tools/sensitivity.py [--seed N] [--per N]"""
import sys, os, json, random, copy, tempfile, shutil, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..")); sys.path.insert(0, HERE)
import check, mix, gen

def leaves(x, path=()):
    """paths of the recorded values: numbers [h, m, l] and parameters [a, m, text, n] are one value each"""
    if isinstance(x, dict):
        for k in x: yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        if len(x) == 3 and all(isinstance(e, int) for e in x): yield path, "num"; return
        if len(x) == 4 and isinstance(x[2], str): yield path, "par"; return
        if not x: return
        for n, e in enumerate(x): yield from leaves(e, path + (n,))
    elif isinstance(x, str): yield path, "str"
    elif isinstance(x, int): yield path, "int"

def name(path):
    return ".".join("*" if isinstance(p, int) else p for p in path)

def change(x, kind, r):
    if kind == "num": return r.choice([[x[0] + 1, x[1], x[2]], [x[0] - 1, x[1], x[2]], [x[0], x[1], x[2]] if False else [x[0], x[1] + 700, x[2]]])
    if kind == "par": return [1, 1, "changed", 536870912] if x[0] != 1 else [3, 2, "changed", 805306368]
    if kind == "str": return x + "!"
    return r.choice([x + 1, x - 1]) if x not in (0, 1) else 1 - x

def put(x, path, v):
    for p in path[:-1]: x = x[p]
    x[path[-1]] = v

def main():
    seed = int(sys.argv[sys.argv.index("--seed") + 1]) if "--seed" in sys.argv else 1
    per = int(sys.argv[sys.argv.index("--per") + 1]) if "--per" in sys.argv else 12
    r = random.Random(seed)
    props = ["C%02d" % n for n in range(1, 25)]
    scs = []
    for p in props:
        s = [x for x in mix.scenarios(p, seed, 1) if len(json.dumps(x)) < 6000]
        scs += r.sample(s, min(len(s), 60))
    work = tempfile.mkdtemp(prefix="lp-sens-")
    try:
        traces = [t for t in check.record(check.build(), scs, work, "s") if t]
        at = {}
        for n, t in enumerate(traces):
            for i, l in enumerate(t[1:], 1):
                for path, kind in leaves(l["res"]):
                    at.setdefault((l["op"]["op"], l["op"].get("kind", "") if l["op"]["op"] in ("qualm", "store") else "", name(path), kind), []).append((n, i, path))
        cases = []
        for key in sorted(at):
            for n, i, path in r.sample(at[key], min(per, len(at[key]))):
                t = copy.deepcopy(traces[n][:i + 1]); v = t[i]["res"]
                for p in path: v = v[p]
                put(t[i]["res"], path, change(v, key[3], r))
                # the rest of the scenario follows
                t += traces[n][i + 1:]
                cases.append((key, t))
        # TLC numbers the scenarios
        got = {}
        def judge(chunk):
            todo = list(chunk)
            while todo:
                tf, pf = tempfile.mktemp(dir=work), tempfile.mktemp(dir=work)
                json.dump(props, open(pf, "w"))
                with open(tf, "w") as f:
                    for c in todo:
                        for l in cases[c][1]: f.write(json.dumps(dict(l, sc=c)) + "\n")
                code, out = check.tlc("Trace.cfg", "Trace.tla", work, {"TRACE": tf, "PROPS": pf})
                for m in re.finditer(r'<<\s*"VIOLATED",\s*(\d+),.*?\}\s*>>', out, re.S): got.setdefault(int(m.group(1)), set()).update(re.findall(r'<<\s*"(C\d\d)"', m.group(0)))
                if code == 0: return
                g, d = check.counts(out); k = d - 1
                for n, c in enumerate(todo):
                    if k < len(cases[c][1]): got.setdefault(c, set()).add("unreadable"); todo = todo[n + 1:]; break
                    k -= len(cases[c][1])
                else: raise SystemExit(out[-2000:])
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(check.CORES) as ex: list(ex.map(judge, [list(range(len(cases)))[k::32] for k in range(32)]))
        tab = {}
        for c, (key, _) in enumerate(cases):
            a = tab.setdefault(key, [0, 0, set()]); a[1] += 1
            if got.get(c): a[0] += 1; a[2] |= got[c]
        for key in sorted(tab, key=lambda k: tab[k][0] / tab[k][1]):
            a = tab[key]
            print("%3d of %3d  %-9s %-2s %-22s %-4s %s" % (a[0], a[1], key[0], key[1], key[2], key[3], " ".join(sorted(a[2]))))
        print(len(cases), "changes,", sum(1 for c in range(len(cases)) if got.get(c)), "rejected")
    finally:
        shutil.rmtree(work, ignore_errors=True)
main()
