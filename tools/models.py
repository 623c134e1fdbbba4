"""The design models that TLC checks for each property, and the universes from
which TLC generates behaviours for the real library."""
import json, os, random, re
from gen import pow2

SEED = ["-seed", "%SEED%"]

# name: (module, constants in the quick tier, constants in the thorough tier)
MODELS = {
    # the optimum and the definition of a partition, on all partitions of small problems
    "MC_Best":   (SEED, dict(MaxNodes=4, MaxCells=4), dict(MaxNodes=5, MaxT=4, MaxCells=6, Samples=4)),
    # the algorithms of the library
    "OAlgo":     (SEED, {}, dict(MaxT=7, Samples=25)),
    "HAlgo":     (SEED, {}, dict(MaxNodes=6, Samples=4)),
    "DAlgo":     (SEED, {}, dict(MaxNodes=5, MaxT=4, MaxCells=6, Samples=3)),
    "SweepAlgo": (SEED, dict(Samples=1, Ties=1), dict(MaxCells=5, Samples=4, Bits=5)),
    "QAlgo":     (SEED, {}, dict(MaxNodes=5, MaxT=4, Samples=2)),
    "AggAlgo":   (SEED, {}, dict(MaxNodes=7)),
    "NormAlgo":  ([], {}, dict(N=4)),
    # definitions and their laws
    "MC_Def":    (SEED, {}, dict(MaxNodes=5, MaxT=4, Samples=6)),
    "MC_Tables": ([], {}, dict(MaxFactor=60, Step=16)),
    "MC_Path":   ([], {}, dict(N=6)),
    "MC_Order":  ([], {}, dict(Top=3)),
    "MC_Utm":    ([], {}, dict(MaxSize=60, WriteSize=4)),
    "MC_Store":  ([], {}, dict(Max=9)),
    "MC_Eq":     ([], dict(MaxBlocks=14), dict(MaxNodes=6)),
    "MC_Select": ([], {}, dict(N=5, K=6)),
    "Par":       ([], {}, dict(Threads=3, Calls=3, Steps=3)),
}
def V(x, **more): return dict(more, Variant='"%s"' % x)
# designs that are known to be wrong: the models must say so
WRONG = {
    "C01": [("OAlgo", V("no last cut"))],
    "C02": [("HAlgo", V("any order"))],
    "C03": [("DAlgo", V("children from the start only"))],
    "C04": [("OAlgo", V("value only")), ("OAlgo", V("no last cut"))],
    "C05": [("HAlgo", V("value only")), ("HAlgo", V("any order"))],
    "C06": [("DAlgo", V("children from the start only")), ("DAlgo", V("children are not cut"))],
    "C07": [("QAlgo", V("sums are kept"))],
    "C08": [("QAlgo", V("sums are kept")), ("QAlgo", V("children count"))],
    "C09": [("QAlgo", V("children count"))],
    "C10": [("NormAlgo", dict(Alias="TRUE"))],
    "C11": [("SweepAlgo", V("forward", Samples=1, Ties=1)), ("SweepAlgo", V("nothing between equal bounds", Samples=1, Ties=1))],
    "C12": [("SweepAlgo", V("no guard", Samples=1, Ties=1))],
    "C14": [("MC_Select", V("first")), ("MC_Select", V("bounded start"))],
    "C15": [("MC_Path", V("first child"))],
    "C16": [("AggAlgo", V("not emptied"))],
    "C21": [("MC_Utm", V("wrong diagonal"))],
    "C25": [("Par", dict(Static="TRUE"))],
}

# properties whose laws are also proved, for all integers (Proofs.tla, in the thorough tier)
PROVED = ("C04", "C05", "C06", "C12", "C13", "C17", "C20", "C21")

OF = {
    "C01": ["OAlgo", "MC_Best"], "C02": ["HAlgo", "MC_Best"], "C03": ["DAlgo", "MC_Best"],
    "C04": ["OAlgo", "MC_Best", "MC_Order"], "C05": ["HAlgo", "MC_Best", "MC_Order"], "C06": ["DAlgo", "MC_Best", "MC_Order"],
    "C07": ["QAlgo", "MC_Def", "MC_Tables"], "C08": ["QAlgo", "MC_Def", "MC_Tables"], "C09": ["QAlgo", "MC_Def", "MC_Tables"],
    "C10": ["NormAlgo", "MC_Def"], "C11": ["SweepAlgo"], "C12": ["SweepAlgo"], "C13": ["SweepAlgo", "MC_Best"],
    "C14": ["MC_Select"], "C15": ["MC_Path"], "C16": ["AggAlgo"], "C17": ["MC_Store"], "C18": [],
    "C19": ["MC_Def", "MC_Best"], "C20": ["MC_Order"], "C21": ["MC_Utm"], "C22": ["MC_Eq"], "C23": [], "C24": [], "C25": ["Par"],
}

def models(prop, tier):
    """(name, module, constants, further arguments of TLC, whether it must be violated)"""
    deep = tier == "thorough"
    return [(m, m, MODELS[m][2 if deep else 1], MODELS[m][0], False) for m in OF[prop]] + \
           [("%s-wrong%d" % (m, n), m, c, MODELS[m][0], True) for n, (m, c) in enumerate(WRONG.get(prop, []))]

def config(spec, module, constants):
    """the configuration of a module with other constants"""
    out = []
    left = dict(constants)
    for line in open(os.path.join(spec, module + ".cfg")):
        m = re.match(r"(CONSTANT\s+|\s+)(\w+)\s*=\s*(\S+)\s*$", line)
        if m and m.group(2) in left:
            line = "%s%s = %s\n" % (m.group(1), m.group(2), left.pop(m.group(2)))
        out.append(line)
    if left: raise ValueError("no such constants in %s: %s" % (module, left))
    return "".join(out)

# --------------------------------------------------------------- generators ---
PS = ["0", "0x1p-2", "0x1p-1", "0x1.8p-1", "1"]
PS9 = [pow2(a, 3) for a in range(9)]
KIND = {"C01": "O", "C02": "H", "C03": "D", "C04": "O", "C05": "H", "C06": "D", "C07": "O", "C08": "H", "C09": "D"}

def sw(seed, what, th=None, k=6):
    """a request for a sweep"""
    r = random.Random("%s/%s" % (seed, what))
    s = {"th": th or r.choice(["0.5", "0.1", "0.01", "0.001", "0x1p-12", "1e-5", "1e-6"]), "mode": "default", "asked": [[0, 0], [1, 0]] + [[r.randint(0, 128), 7] for _ in range(k)]}
    if what % 3 == 2:
        a, b = r.choice([(4, 12), (0, 8), (8, 16), (0, 0), (16, 16), (7, 9)])
        s.update({"mode": "range", "min": pow2(a, 4), "max": pow2(b, 4), "asked": [[a, 4], [b, 4]] + [[r.randint(a * 8, b * 8), 7] for _ in range(k)]})
    return s

def problem(kind, deep, seed, ps=PS, nsweep=1, select=False, plain=False, take=None):
    """small problems: all the matrices where they are few enough, else some"""
    g = dict(family="problem", kinds=[kind], nodes=[1, 1], T=[1, 1], cells=64, top=1, plain=plain, cap=800, den=1, ps=ps,
             sweeps=[sw(seed, n) for n in range(nsweep)], select=select, every=1)
    if kind == "O": g.update(T=[1, 4], cap=4096) if not deep else g.update(T=[1, 5], cap=20000)
    if kind == "H": g.update(nodes=[1, 6], cap=64) if not deep else g.update(nodes=[1, 7], cap=64, every=4)
    if kind == "D": g.update(nodes=[1, 4], T=[1, 3], cells=6, cap=64) if not deep else g.update(nodes=[1, 5], T=[1, 4], cells=8, cap=256, every=2)
    return [dict(g, take=take or (6000 if deep else 1000)),
            # larger entries: fewer ties
            dict(g, top=3, cap=3 if kind == "H" and deep else max(3, g["cap"] // 16), every=1, take=take or (4000 if deep else 500))]

def decisions(kind, deep, eq, take):
    g = dict(family="decision", kinds=[kind], nodes=[1, 5], T=[1, 4], cells=8, cap=24, eq=eq, every=1, take=take)
    if kind == "O": g.update(T=[1, 5] if not deep else [1, 6], cap=130 if not eq else 40)
    if deep: g.update(nodes=[1, 6], cap=60 if not eq else 30)
    return g

def values(kinds, deep, norm=0, agg=0, take=None):
    g = dict(family="values", kinds=kinds, nodes=[1, 4], T=[1, 3], V=[1, 2], cells=6, top=2, cap=100, norm=norm, agg=agg, every=1, take=take or (12000 if deep else 1200))
    if kinds == ["O"]: g.update(T=[1, 6], V=[1, 4], cap=300)
    if kinds == ["H"]: g.update(nodes=[1, 5], V=[1, 4], cap=30)
    if deep: g.update(cap=g["cap"] * 8, cells=8, nodes=[1, 5] if kinds != ["H"] else [1, 6])
    if agg: g.update(cap=g["cap"] // 4)
    return g

# objects for histories
TREE3 = [4, 3, 3, 4, -1]
def tri(h, T, f): return [[[f(x, i, d) for d in range(T - i)] for i in range(T)] for x in range(h)]
def defs(kind):
    """a store and a matrix of a kind, with the decisions that describe partitions"""
    if kind == "O":
        base = dict(kind="O", L=1, T=3, par=[-1], decs=[[0, 1, 2], [1, 1, 2]])
        st = dict(base, n=2, dims=[2, 1, 1], contents=[[1, 2, 1, 0, 0, 4], [3, 3, 3, 1, 1, 1]],
                  writes=[dict(at=[0, 0, 0, 0, 1], n=2, v=5), dict(at=[0, 1, 0, 0, 2], n=6, v=0)])
    elif kind == "H":
        base = dict(kind="H", L=3, T=1, par=TREE3, decs=[[1, 1, 1, 0, 0], [1, 1, 1, 1, 0]])
        st = dict(base, n=2, dims=[2, 1, 1], contents=[[1, 0, 2, 1, 2, 5], [2, 2, 2, 2, 2, 2]],
                  writes=[dict(at=[1, 0, 0, 0, 0], n=3, v=7), dict(at=[2, 1, 0, 0, 0], n=6, v=0)])
    else:
        base = dict(kind="D", L=2, T=2, par=[2, 2, -1],
                    decs=[[[[0, 1], [1]], [[0, 0], [1]], [[0, -1], [1]]], [[[0, 1], [1]], [[0, 1], [1]], [[-1, 0], [1]]]])
        st = dict(base, n=2, dims=[1, 1, 1], contents=[[1, 2, 0, 4], [2, 2, 2, 2]],
                  writes=[dict(at=[0, 0, 0, 0, 1], n=2, v=9), dict(at=[1, 0, 0, 0, 0], n=3, v=1)])
    H, T = len(base["par"]), base["T"]
    qm = dict(base, den=2, mat=tri(H, T, lambda h, i, d: [0, 0] if d == 0 and h < base["L"] else [(h * 3 + i + d * 2) % 5 + d, (h + 2 * i + d) % 3 + 1]))
    return st, qm

def api(kinds, seed, deep, nstores=1, nqualms=1, depth=9, every=50, pairs=False, take=1200, mx=None, simulate=0, drop=False, copy=False, aggs=False):
    S = [defs(k)[0] for k in kinds]; Q = [defs(k)[1] for k in kinds[:nqualms]]
    m = dict(stores=nstores, quals=2, heap=3, norm=2, parters=2, parts=2, gone=4); m.update(mx or {})
    g = dict(family="api", stores=S, qualms=Q if nqualms else [], ps=["0x1p-1", "1"], sweeps=[{"th": "0.1", "mode": "default"}, {"th": "0.02", "mode": "range", "min": "0x1p-2", "max": "0x1.8p-1"}],
             max=m, every=every, pairs=pairs, again=True, depth=depth, take=take, drop=drop, copy=copy, aggs=drop or aggs)
    g["from"] = 4 if not simulate else depth
    if simulate: g["simulate"] = simulate
    return g

def generators(prop, tier, seed=1):
    deep = tier == "thorough"
    if prop in ("C01", "C02", "C03"):
        k = KIND[prop]; return [decisions(k, deep, False, 3000 if deep else 700)] + problem(k, deep, seed, ps=PS, take=3000 if deep else 500)
    if prop in ("C04", "C05", "C06"): return problem(KIND[prop], deep, seed, ps=PS9)
    if prop in ("C07", "C08", "C09"): return [values([KIND[prop]], deep)]
    if prop == "C10":
        return [values([k], deep, norm=2, take=5000 if deep else 500) for k in "OHD"] + \
               [dict(family="normm", kinds=["O", "H", "D"], nodes=[1, 4], T=[1, 4], cells=6, top=2, plain=True, cap=2000 if deep else 150, den=d, every=1, take=6000 if deep else 600) for d in (1, 8)]
    if prop in ("C11", "C12"): return [g for k in "OHD" for g in problem(k, deep, seed, ps=["0"], nsweep=2, take=3000 if deep else 400)]
    if prop == "C13": return [g for k in "OHD" for g in problem(k, deep, seed, ps=[pow2(a, 4) for a in range(17)], take=2500 if deep else 350)]
    if prop == "C14": return [g for k in "OHD" for d in (1, 2, 4) for g in [dict(x, den=d, top=d) for x in problem(k, deep, seed, ps=[], nsweep=2, select=True, take=2500 if deep else 250)]]
    if prop == "C15": return [dict(family="meta", nodes=[1, 7 if deep else 6], every=1, take=20000)]
    if prop == "C16": return [values([k], deep, agg=16, take=5000 if deep else 450) for k in "OHD"]
    if prop == "C17": return [dict(family="store", kinds=["O", "H", "D"], dim=3 if not deep else 4, L=[1, 3], T=[1, 3], walk=24 if not deep else 200, every=1, take=900 if not deep else 20000)]
    if prop == "C18":
        if deep:
            return [api(k, seed, True, depth=12, every=60, take=6000) for k in "OHD"] + [api(k, seed, True, depth=9, every=30, pairs=True, take=6000) for k in "OHD"] + \
                   [api("OD", seed, True, nstores=2, depth=8, every=40, take=6000, mx=dict(quals=3)), api("OHD", seed, True, nstores=3, depth=60, every=1, take=6000, simulate=4000, mx=dict(quals=6, heap=8, parters=5, parts=12))]
        return [api(k, seed, False, depth=8, every=40, take=700) for k in "OHD"] + [api(k, seed, False, depth=7, every=20, pairs=True, take=400) for k in "OHD"] + \
               [api("OHD", seed, False, nstores=3, depth=40, every=1, take=400, simulate=400, mx=dict(quals=6, heap=8, parters=4, parts=8))]
    if prop == "C19": return [dict(family="relate", kinds=[k], nodes=[1, 4 if not deep else 5], T=[1, 4], V=[1, 3], cells=8, top=4, cap=4 if not deep else 12, ps=["0", "0x1p-1", "0x1.8p-1"], every=1, take=500 if not deep else 8000) for k in "OHD"]
    if prop == "C20": return [dict(family="algebra", top=2 if not deep else 4, some=12 if not deep else 60, take=100000),
                              dict(family="regs", top=64, depth=2, every=8 if not deep else 1, take=1500 if not deep else 20000),
                              dict(family="regs", top=4096, depth=20, every=40, simulate=100 if not deep else 1500, take=300 if not deep else 6000)]
    if prop == "C21": return [dict(family="utm", nodes=[1, 3], types=["int", "double", "long", "quality", "tradeoff"], writes=2 if not deep else 3, every=1, take=100000 if deep else 700)]
    if prop == "C22": return [decisions(k, deep, True, 2000 if deep else 120) for k in "OHD"]
    if prop == "C23":
        return [api(k, seed, deep, depth=9 if deep else 7, every=400 if deep else 60, take=6000 if deep else 500, drop=True, mx=dict(parters=1, parts=2, quals=1, heap=2, norm=1)) for k in "OHD"] + \
               [api("OHD", seed, deep, nstores=3, depth=45, every=1, take=6000 if deep else 400, simulate=4000 if deep else 400, drop=True, mx=dict(quals=6, heap=8, parters=4, parts=8, gone=12))]
    if prop == "C24":
        return [api(k, seed, deep, depth=8 if deep else 7, every=400 if deep else 60, take=6000 if deep else 500, copy=True, mx=dict(stores=2, quals=1, heap=2, norm=1, parts=2)) for k in "OHD"] + \
               [api("OHD", seed, deep, nstores=3, depth=45, every=1, take=6000 if deep else 400, simulate=4000 if deep else 400, copy=True, mx=dict(stores=6, quals=6, heap=8, parters=6, parts=10))]
    return []

class Failed(Exception):
    pass

def generate(g, work, seed, tlc):
    """the scenarios of a universe, as TLC writes them"""
    n = os.path.join(work, "gen-%d.json" % id(g))
    json.dump(g, open(n, "w"))
    mod = {"api": "Api", "regs": "Regs"}.get(g["family"], "Gen")
    extra = ["-seed", str(seed)]
    if g.get("simulate"):
        extra += ["-simulate", "num=%d" % g["simulate"], "-depth", str(g["depth"] + 1)]
    code, out = tlc(mod + ".cfg", mod + ".tla", work, {"GEN": n}, heap="4g", extra=extra)
    os.unlink(n)
    if code != 0:
        raise Failed("generating behaviours (%s) failed (exit %d):\n%s" % (g["family"], code, "\n".join(l for l in out.splitlines() if not l.startswith('"SCENARIO'))[-3000:]))
    lines = [l for l in out.splitlines() if l.startswith('"SCENARIO ')]
    total = len(lines)
    if not total: raise Failed("no behaviours (%s)" % g["family"])
    r = random.Random(seed)
    if len(lines) > g["take"]: lines = r.sample(lines, g["take"])
    scs = [json.loads(json.loads(l)[len("SCENARIO "):]) for l in lines]
    rest = "\n".join(l for l in out.splitlines() if not l.startswith('"SCENARIO'))
    return scs, dict(family=g["family"], generated=total, taken=len(scs)), rest

def assumptions(prop):
    a = ["TLC and the CommunityModules evaluate the specification correctly", "the driver (driver/driver.cpp) reports what the public functions return, and the library is built with g++ (AddressSanitizer)"]
    if prop in ("C07", "C08", "C09", "C10", "C19"): a.append("log2 of 1..16384 is correctly rounded by Python's decimal module (spec/MC_Tables checks its laws)")
    return a
