"""Seeded generators of scenarios (sequences of calls) for the trace checks.

They choose inputs and the order of calls only; what the results must be is
decided by the TLA+ specification.  All numbers stay where the specification
can compute with 32 bits (see Tractable in Trace.tla)."""
import copy, random

TABLE = 16384          # the largest sum of one value series

# ------------------------------------------------------------------ trees ---
def tree(r, L, shape=None, root_first=None):
    """parents of a random hierarchy with L leaves; inner nodes in any order"""
    shape = shape or r.choice(["random", "random", "binary", "flat", "chain", "caterpillar", "levels", "unary"])
    if L == 1 and shape != "unary" and r.random() < 0.3:
        return [-1]
    groups = [[i] for i in range(L)]          # current roots (as node ids)
    par = {}
    nid = [L]
    def join(nodes):
        k = nid[0]; nid[0] += 1
        for n in nodes:
            par[n] = k
        return k
    roots = list(range(L))
    if shape == "flat":
        roots = [join(roots)]
    elif shape == "caterpillar":
        r.shuffle(roots)
        cur = join([roots.pop()] + ([roots.pop()] if roots else []))
        while roots:
            cur = join([cur, roots.pop()])
        roots = [cur]
    elif shape == "levels":
        w = r.choice([2, 3, 4])
        while len(roots) > 1:
            roots = [join(roots[i:i + w]) for i in range(0, len(roots), w)]
        if L == 1:
            roots = [join(roots)]
    elif shape == "chain":
        # a leaf far below, the others higher
        cur = roots.pop(r.randrange(len(roots)))
        for _ in range(r.randint(1, 4)):
            cur = join([cur])
        while roots:
            k = r.randint(1, min(3, len(roots)))
            cur = join([cur] + [roots.pop(r.randrange(len(roots))) for _ in range(k)])
        roots = [cur]
    else:
        while len(roots) > 1 or roots[0] < L:
            if shape == "binary":
                k = 2
            elif shape == "unary":
                k = r.choice([1, 1, 2, 3])
            else:
                k = r.choice([1, 2, 2, 3, 4, 5]) if r.random() < 0.9 else len(roots)
            k = min(k, len(roots))
            if k == 1 and r.random() < 0.6 and len(roots) > 1:
                continue
            pick = r.sample(roots, k)
            roots = [x for x in roots if x not in pick] + [join(pick)]
            if nid[0] > 3 * L + 6:
                roots = [join(roots)] if len(roots) > 1 else roots
                break
    n = nid[0]
    inner = list(range(L, n))
    perm = inner[:]
    how = r.random()
    if how < 0.6:
        r.shuffle(perm)
    elif how < 0.75:
        perm.reverse()
    m = {x: x for x in range(L)}
    m.update(dict(zip(inner, perm)))
    out = [-1] * n
    for c, p in par.items():
        out[m[c]] = m[p]
    return out

def dims(r, kind, n, big=False):
    top = 5 if big else 3
    d = [r.randint(1, top) for _ in range(3)]
    if r.random() < 0.04:     # many series
        d = r.choice([[40, 1, 1], [17, 20, 1], [7, 6, 7], [300, 1, 1], [1, 65, 1], [1, 1, 33]])
    elif r.random() < 0.35:     # make them all different
        d = r.sample([1, 2, 3, 4, 5], 3)
    k = {"O": n - 1, "H": n - 1, "D": n - 2}[kind]
    return [d[i] if i < k else 1 for i in range(3)]

def values(r, count, cap, style=None):
    style = style or r.choice(["uniform", "uniform", "sparse", "steps", "homog", "peak", "zero_some", "big"])
    cap = max(1, cap)
    if style == "homog":
        c = r.randint(1, cap); return [c] * count
    if style == "sparse":
        return [r.randint(1, cap) if r.random() < 0.25 else 0 for _ in range(count)]
    if style == "peak":
        v = [r.choice([0, 1]) for _ in range(count)]; v[r.randrange(count)] = cap; return v
    if style == "steps":
        out = []; c = r.randint(0, cap)
        for _ in range(count):
            if r.random() < 0.3: c = r.randint(0, cap)
            out.append(c)
        return out
    if style == "zero_some":
        return [0 if r.random() < 0.5 else r.choice([1, 2, 3, min(cap, 4)]) for _ in range(count)]
    if style == "big":
        return [max(0, cap - r.randint(0, 3)) for _ in range(count)]
    return [r.randint(0, cap) for _ in range(count)]

MULS = ["1", "1", "1", "0x1p-10", "0x1p-30", "0x1p12", "0x1p25", "0.001", "0.7", "1e-6", "123.456"]
NS = {"O": [1, 2, 3, 4], "H": [1, 2, 3, 4], "D": [2, 3, 4]}

def store(r, sid, kind, L=None, T=None, n=None, par=None, d=None, mul=None, ctor=None, style=None, cap=None, tshape=None):
    n = n or r.choice(NS[kind])
    if kind == "O": L = 1
    if L is None: L = r.choice([1, 2, 3, 4, 5, 6, 8])
    if kind == "H": T = 1
    if T is None: T = r.choice([1, 2, 3, 4, 5, 6, 7, 9])
    if kind == "O": par = [-1]
    if par is None: par = tree(r, L, tshape)
    d = d or dims(r, kind, n)
    V = d[0] * d[1] * d[2]
    cap = min(cap or r.choice([1, 3, 10, 100, 1000]), max(1, (TABLE - 1) // (L * T)))
    mul = mul or r.choice(MULS)
    ctor = ctor or r.choice(["vec", "vec", "size"])
    vals = values(r, L * V * T, cap, style)
    op = {"op": "store", "sid": sid, "kind": kind, "n": n, "ctor": ctor, "L": L, "dims": d, "T": T,
          "mul": mul, "unit": mul == "1", "par": par, "vals": vals if ctor == "vec" else []}
    ops = [op]
    if ctor == "size":
        ops.append({"op": "fill", "sid": sid, "order": r.choice([0, 1, 2]), "vals": vals})
    op2 = dict(op); op2["cap"] = cap
    return ops, op2

def rset(r, s, v=None):
    d = s["dims"]
    at = [r.randrange(s["L"]), r.randrange(d[0]), r.randrange(d[1]), r.randrange(d[2]), r.randrange(s["T"])]
    return {"op": "set", "sid": s["sid"], "at": at, "v": r.randint(0, s["cap"]) if v is None else v}

# -------------------------------------------------------------- parameters ---
def pow2(a, m):
    from fractions import Fraction
    f = Fraction(a, 1 << m)
    return float(f).hex() if f else "0"

def params(r, k, bits=3):
    """k parameters a/2^bits' in [0,1] as text, with the ends often"""
    out = []
    for _ in range(k):
        x = r.random()
        if x < 0.12: out.append("0")
        elif x < 0.24: out.append("1")
        elif x < 0.4: out.append("0x1p-1")
        else:
            m = r.randint(1, bits); out.append(pow2(r.randint(0, 1 << m), m))
    return out

def anyparams(r, k):
    return [repr(round(r.random(), r.choice([1, 2, 5]))) if r.random() < .8 else pow2(r.randint(0, 1 << 24), 24) for _ in range(k)]

def mixparams(r, k, bits=3):
    """some with few bits, some with many, some with no end"""
    out = params(r, k, bits)
    for i in range(k):
        x = r.random()
        if x < .12: m = r.randint(9, 24); out[i] = pow2(r.randint(0, 1 << m), m)
        elif x < .2: out[i] = anyparams(r, 1)[0]
        elif x < .25: out[i] = r.choice(["1e-3", "1e-6", "0.999", "0.99999", "0x1p-24", "0x1.fffffep-1"])
    return out

THS = ["0.5", "0.1", "0.01", "0.001", "0x1p-7", "0x1p-10", "0.25", "0.9", "0x1p-13", "1e-4", "1e-5", "0x1p-18", "1e-6"]
COARSE = ["0.5", "0.1", "0.01", "0.001", "0x1p-7", "0x1p-9", "0.25", "0.9"]

# ---------------------------------------------------------------- matrices ---
def matrix(r, H, T, top, style, L, kids_of=None):
    """integer qualities [h][i][d] = [g, l]"""
    M = []
    for h in range(H):
        rows = []
        for i in range(T):
            row = []
            for d in range(T - i):
                if style == "tiny": q = [r.randint(0, 2), r.randint(0, 2)]
                elif style == "ties": s = r.choice([2, 4]); g = r.randint(0, s); q = [g, s - g]
                elif style == "equal": q = [1 * (d + 1), 1 * (d + 1)]
                elif style == "sparse": q = [r.randint(0, top) if r.random() < .3 else 0, r.randint(0, top) if r.random() < .3 else 0]
                elif style == "linear": q = [d, d] if h < L else [d * 2 + 1, d * 2 + 1]
                elif style == "growing":
                    w = (d + 1) * (d + 1) * (1 if h < L else 3)
                    q = [min(top, r.randint(0, w)), min(top, r.randint(0, w))]
                elif style == "rows":
                    # the quality of the inner nodes is the sum below plus a bit: cuts and children compete
                    q = [r.randint(0, 3) * (d + 1), r.randint(0, 3) * (d + 1)]
                elif style == "zero": q = [0, 0]
                elif style == "gain": q = [r.randint(0, top), 0]
                elif style == "loss": q = [0, r.randint(0, top)]
                elif style == "signed": q = [r.randint(-top, top), r.randint(-top, top)]
                elif style == "lossy": q = [r.randint(0, 3), r.randint(0, top)]
                elif style == "gainy": q = [r.randint(0, top), r.randint(0, 3)]
                else: q = [r.randint(0, top), r.randint(0, top)]
                if d == 0 and h < L and style not in ("free", "tiny") and r.random() < 0.95: q = [0, 0]
                row.append(q)
            rows.append(row)
        M.append(rows)
    return M

def planted(r, par, L, T, top):
    """integer qualities such that one partition of few, odd parts is much better than any other"""
    H = len(par); kids = [[c for c in range(H) if par[c] == h] for h in range(H)]
    sizes = [1] * H
    def size(h):
        if kids[h]: sizes[h] = sum(size(c) for c in kids[h])
        return sizes[h]
    root = par.index(-1); size(root)
    parts = set()
    def put(h, i, j, depth):
        x = r.random()
        if kids[h] and x < (.35 if depth < 3 else .15):
            for c in kids[h]: put(c, i, j, depth + 1)
        elif j > i and x < (.9 if depth < 1 else .6 if depth < 3 else .3):
            c = r.choice([i, i, j - 1, j - 1, r.randrange(i, j), (i + j) // 2])
            put(h, i, c, depth + 1); put(h, c + 1, j, depth + 1)
        else: parts.add((h, i, j))
    put(root, 0, T - 1, 0)
    # others: at most 1 a cell; the chosen parts: more than 2 a cell
    unit = max(1, top // (2 * L * T + 1)); what = r.choice(["gain", "loss", "both"])
    M = []
    for h in range(H):
        rows = []
        for i in range(T):
            row = []
            for d in range(T - i):
                n = sizes[h] * (d + 1)
                if (h, i, i + d) in parts: q = [2 * unit * n, 0]
                else: q = [r.randint(0, unit * n), r.randint(0, unit * n)]
                if what == "loss": q = [0, 2 * unit * n - q[0] + q[1]] if (h, i, i + d) not in parts else [0, 0]
                if what == "gain": q[1] = 0
                row.append(q)
            rows.append(row)
        M.append(rows)
    return M

def lopsided(r, qid, kind, L=None, T=None):
    """small gains next to great losses, or the reverse, and parameters for which they weigh the same"""
    if L is None and T is None and r.random() < .6:
        L, T = r.choice([1, 2, 3] if kind != "H" else [2, 3, 4]), r.choice([2, 3] if kind == "D" else [2, 3, 4])
    q = qualm(r, qid, kind, L=L, T=T, style="zero", den=1)
    cells = q["L"] * q["T"]; most = 25 - cells.bit_length(); bits = r.choice([most, most, max(4, most - 1), r.randint(4, max(4, most))]); few = r.choice([3, 20, 200])
    great = lambda: r.randint(0, 1 << bits) if r.random() < .5 else r.randint(0, few) << max(0, bits - few.bit_length())
    swap = r.random() < .5; base = r.randint(0, 1 << max(0, bits - 4)) if r.random() < .3 else 0
    for h, rows in enumerate(q["mat"]):
        for i, row in enumerate(rows):
            for d in range(len(row)):
                if d == 0 and h < q["L"]: continue
                g, l = r.randint(0, few), great()
                if base: l = base * (d + 1) + r.randint(0, few)      # almost the same
                row[d] = [l, g] if swap else [g, l]
    ps = []
    for _ in range(8):
        # the great ones count as much as the small ones
        m = min(24, max(1, bits - few.bit_length() + r.randint(-2, 3)))
        a = r.randint(1, 4)
        ps.append(pow2(a if swap else (1 << m) - a, m) if a <= 1 << m else "0.5")
    return q, ps + ["0", "1", pow2(1, 24), pow2((1 << 24) - 1, 24)]

def sc_lopsided(r, kind, **k):
    q, ps = lopsided(r, 1, kind, **k)
    ops = [q, {"op": "parter", "pid": 1, "qid": 1, "mode": r.choice(["obj", "mat"])}]
    return ops + [{"op": "best", "bid": b + 1, "pid": 1, "p": p} for b, p in enumerate(r.sample(ps, 8))]

STYLES = ["tiny", "ties", "equal", "sparse", "linear", "growing", "growing", "rows", "free", "uniform", "uniform"]

def qualm(r, qid, kind, L=None, T=None, par=None, top=None, style=None, den=None, cap_bits=29, pbits=8, tshape=None):
    if kind == "O": L, par = 1, [-1]
    if L is None: L = r.choice([1, 2, 3, 4, 5, 6])
    if kind == "H": T = 1
    if T is None: T = r.choice([1, 2, 3, 4, 5, 6, 7])
    if par is None: par = tree(r, L, tshape)
    H = len(par)
    style = style or r.choice(STYLES)
    # top * cells * 2 * 2^pbits < 2^30
    lim = max(1, (1 << (28 - pbits)) // (L * T))
    top = min(top or (r.choice([300, 1000, 5000]) if style in ("lossy", "gainy") else r.choice([3, 10, 40, 200])), lim if style not in ("lossy", "gainy") else lim * 8)
    den = den or r.choice([1, 1, 1, 4, 64, 1024])
    if style == "planted":
        M = planted(r, par, L, T, min(lim, 4 * L * T * 8))
        return {"op": "qualm", "qid": qid, "kind": kind, "L": L, "T": T, "den": den, "par": par, "mat": M}
    M = matrix(r, H, T, top, style, L)
    if style in ("equal", "linear", "growing", "rows") and T > lim:
        M = matrix(r, H, T, top, "uniform", L)
    return {"op": "qualm", "qid": qid, "kind": kind, "L": L, "T": T, "den": den, "par": par, "mat": M}

def asked(r, k, bits=7):
    return [[0, 0], [1, 0]] + [[r.randint(0, 1 << bits), bits] for _ in range(k)]

def sweepop(r, pid, th=None, ends=None, k=6, bits=7, cells=1):
    # fine thresholds take long on big problems
    th = th or r.choice(THS if cells <= 40 else COARSE)
    if ends is None and r.random() < .12:
        # a range of any two numbers
        a, b = sorted([r.choice([0.1, 0.2, 0.3, 0.47, 0.05]), r.choice([0.3, 0.6, 0.7, 0.95, 0.501])])
        return {"op": "sweep", "pid": pid, "th": th, "mode": "range", "min": repr(a), "max": repr(b), "asked": [], "base": r.choice([0, 1])}
    ends = ends if ends is not None else (None if r.random() < 0.7 else sorted([r.randint(0, 16), r.randint(0, 16)]))
    op = {"op": "sweep", "pid": pid, "th": th, "mode": "default", "asked": asked(r, k, bits), "base": r.choice([0, 0, 1])}
    if ends is not None:
        a, b = ends
        op.update({"mode": "range", "min": pow2(a, 4), "max": pow2(b, 4)})
        op["asked"] = [[a, 4], [b, 4]] + [[r.randint(a << (bits - 4), b << (bits - 4)), bits] for _ in range(k)]
    return op

def decisions(r, q):
    """a random consistent description of a partition"""
    par, L, T, kind = q["par"], q["L"], q["T"], q["kind"]
    kids = [[c for c in range(len(par)) if par[c] == h] for h in range(len(par))]
    if kind == "O":
        x = r.random(); return [T - 1 if x < .1 else i if x > .9 else r.randint(i, min(T - 1, i + r.choice([0, 1, 2, T]))) for i in range(T)]
    if kind == "H":
        x = r.random(); return [1 if not kids[h] else int(r.random() < x) for h in range(len(par))]
    out = []
    x = r.random()
    for h in range(len(par)):
        rows = []
        for i in range(T):
            row = []
            for j in range(i, T):
                c = [j]
                if kids[h]: c += [-1, -1]
                if j > i: c += [r.randrange(i, j), r.randrange(i, j)]
                row.append(r.choice(c[1:]) if len(c) > 1 and r.random() < x else j)
            rows.append(row)
        out.append(rows)
    return out

# --------------------------------------------------------------- scenarios ---
def ids():
    n = [0]
    def f():
        n[0] += 1; return n[0]
    return f

def sc_exact(r, kind, L=None, T=None, nbest=6, nsweep=1, pbits=3, style=None, par=None, th=None, tshape=None, mbits=None):
    """given integer qualities: best partitions, sweeps, selected parameters"""
    q = qualm(r, 1, kind, L, T, par=par, style=style, pbits=max(pbits, mbits or 10), tshape=tshape)
    ops = [q, {"op": "parter", "pid": 1, "qid": 1, "mode": r.choice(["obj", "mat"])}]
    for b, p in enumerate(mixparams(r, nbest, pbits)):
        ops.append({"op": "best", "bid": b + 1, "pid": 1, "p": p})
    for _ in range(nsweep):
        ops.append(sweepop(r, 1, th, cells=q["L"] * q["T"]))
        if r.random() < .7: ops.append({"op": "getp", "pid": 1})
        if r.random() < .7: ops.append({"op": "auc", "pid": 1, "scale": q["den"] ** 2 if q["den"] <= 64 else 0})
        if ops[-1]["op"] == "auc" and ops[-1]["scale"] == 0: ops.pop()
    for _ in range(2):
        if r.random() < .6: ops.append({"op": "part", "bid": 50, "qid": 1, "p": "0.5", "dec": decisions(r, q)})
    return ops

def sc_select(r, kind, L=None, T=None):
    """several sweeps of one partitioner with normalised-looking qualities: strategies and area"""
    den = r.choice([1, 2, 4, 16, 32])
    q = qualm(r, 1, kind, L, T, top=den, den=den, style=r.choice(["uniform", "ties", "growing", "free", "rows", "gain", "loss", "zero"]), pbits=10)
    ops = [q, {"op": "parter", "pid": 1, "qid": 1, "mode": "obj"}]
    if r.random() < .3: ops += [{"op": "getp", "pid": 1}, {"op": "auc", "pid": 1, "scale": den ** 2}]
    for _ in range(3):
        ops.append(sweepop(r, 1, k=1, cells=q["L"] * q["T"]))
        ops += [{"op": "getp", "pid": 1}, {"op": "auc", "pid": 1, "scale": den ** 2}]
    return ops

def sc_nearscore(r, kind):
    """a sweep that lists two partitions whose scores differ by a few units in 10^8"""
    D = 8192
    while True:
        g1, l1 = r.randint(0, 2000), r.randint(0, 2000)
        S = (D - g1) ** 2 + l1 ** 2
        for g in r.sample(range(g1 + 200, 7900), 3000):
            w = S - (D - g) ** 2
            if w <= 0: continue
            want = r.choice([1, 1, 2, 3, -1, 0, -3])
            l = round((w + want) ** .5)
            if l > l1 + 200 and l < 15000 and l * l - w in (1, 2, 3, -1, 0, -3):
                break
        else: continue
        break
    L, T, par = {"O": (1, 2, [-1]), "H": (2, 1, r.choice([[2, 2, -1], [3, 2, 3, -1]])), "D": r.choice([(2, 1, [2, 2, -1]), (1, 2, [1, -1]), (1, 2, [-1]), (2, 2, [2, 2, -1])])}[kind]
    root = par.index(-1); gx, lx = r.randint(0, g1), r.randint(0, l1)
    M = [[[[0, 0] for d in range(T - i)] for i in range(T)] for h in range(len(par))]
    # the finest parts are worth (g1, l1) together, the whole (g, l), others nothing
    M[0][0][0] = [gx, lx]
    if T == 2 or L == 2: M[L - 1][T - 1][0] = [g1 - gx, l1 - lx]
    for h in range(L, len(par)):
        for i in range(T):
            for d in range(T - i): M[h][i][d] = [0, 15000]
    for h in range(L):
        for i in range(T):
            for d in range(1, T - i): M[h][i][d] = [0, 15000]
    M[root][0][T - 1] = [g, l]
    if par == [3, 2, 3, -1]: M[2][0][0] = M[1][0][0]
    ops = [{"op": "qualm", "qid": 1, "kind": kind, "L": L, "T": T, "den": D, "par": par, "mat": M}, {"op": "parter", "pid": 1, "qid": 1, "mode": "obj"}]
    return ops + [{"op": "sweep", "pid": 1, "th": r.choice(["0.01", "0.1"]), "mode": "default", "asked": [], "base": r.choice([0, 1])}, {"op": "getp", "pid": 1}]

def sc_again(r, kind):
    """area and strategies of a sweep, then the qualities change and the sweep is repeated"""
    ops, s = store(r, 1, kind, cap=r.choice([3, 20, 100]), L=r.choice([2, 3, 4]), T=r.choice([2, 3, 4, 6]), mul="1")
    ops += [{"op": "qual", "qid": 1, "sid": 1}, {"op": "compute", "qid": 1, "values": 1}, {"op": "parter", "pid": 1, "qid": 1, "mode": "obj"}]
    for _ in range(2):
        th = r.choice(["0.99", "0.9", "0.5"]); ends = r.choice([[0, 15], [0, 8], [1, 9], [0, 16], [4, 4]])
        for again in range(2):
            ops.append(sweepop(r, 1, th=th, ends=ends, k=1))
            ops += [{"op": "getp", "pid": 1}, {"op": "auc", "pid": 1, "scale": 1}]
            if again == 0: ops.append({"op": "normalize", "qid": 1})
    return ops

def sc_values(r, kind, n=None, L=None, T=None, nset=6, tshape=None, d=None):
    ops, s = store(r, 1, kind, n=n, L=L, T=T, tshape=tshape, d=d)
    for _ in range(nset): ops.append(rset(r, s))
    ops.append({"op": "get", "sid": 1})
    for _ in range(2): ops.append(rset(r, s))
    ops.append({"op": "get", "sid": 1})
    return ops

def sc_quality(r, kind, norm=True, **kw):
    ops, s = store(r, 1, kind, **kw)
    ops += [{"op": "qual", "qid": 1, "sid": 1}, {"op": "compute", "qid": 1, "values": 1}]
    if r.random() < .4:
        ops += [rset(r, s), {"op": "compute", "qid": 1, "values": 1}]
    if norm:
        ops.append({"op": "normalize", "qid": 1})
        if r.random() < .5: ops.append({"op": "normalize", "qid": 1})
    return ops

def sc_normm(r, kind, L=None, T=None, style=None):
    """normalise a given matrix"""
    q = qualm(r, 1, kind, L, T, top=r.choice([1, 7, 100, 900]), style=style or r.choice(STYLES + ["zero", "gain", "loss", "signed", "signed"]))
    return [q, {"op": "normalize", "qid": 1}, {"op": "dumpq", "qid": 1}, {"op": "normalize", "qid": 1}]

def sc_data(r, kind, norm=None, nbest=4, nsweep=1, any_p=False, agg=True, **kw):
    """from values to partitions, sweeps and aggregates"""
    kw.setdefault("cap", r.choice([3, 20, 100]))
    ops, s = store(r, 1, kind, **kw)
    ops += [{"op": "qual", "qid": 1, "sid": 1}, {"op": "compute", "qid": 1, "values": 1}]
    norm = r.random() < .5 if norm is None else norm
    if norm: ops.append({"op": "normalize", "qid": 1})
    ops.append({"op": "parter", "pid": 1, "qid": 1, "mode": r.choice(["obj", "mat"])})
    ps = anyparams(r, nbest) if any_p else mixparams(r, nbest, 8)
    for b, p in enumerate(ps):
        ops.append({"op": "best", "bid": b + 1, "pid": 1, "p": p})
        if agg and r.random() < .7: ops.append({"op": "agg", "bid": b + 1, "sid": 1})
    for _ in range(nsweep):
        ops.append(sweepop(r, 1, th=r.choice(["0.1", "0.01", "0.003", "0.5", "1e-4", "3e-6"][:4 if s["L"] * s["T"] > 40 else 6]) if any_p else None, k=3, cells=s["L"] * s["T"]))
        ops += [{"op": "getp", "pid": 1}] + ([{"op": "auc", "pid": 1, "scale": 1}])
    return ops

def sc_agg(r, kind, n=None, L=None, T=None, d=None, tshape=None):
    ops, s = store(r, 1, kind, n=n, L=L, T=T, d=d, tshape=tshape)
    ops += [{"op": "qual", "qid": 1, "sid": 1}, {"op": "compute", "qid": 1, "values": 1}]
    q = {"par": s["par"], "L": s["L"], "T": s["T"], "kind": kind}
    for b in range(3):
        ops += [{"op": "part", "bid": b, "qid": 1, "p": "0.25", "dec": decisions(r, q)}, {"op": "agg", "bid": b, "sid": 1}]
    ops += [rset(r, s), {"op": "agg", "bid": 2, "sid": 1}, {"op": "get", "sid": 1}]
    return ops

def sc_eq(r, kind, L=None, T=None):
    """comparisons of described and best partitions, of the same and of other shapes"""
    q1 = qualm(r, 1, kind, L, T)
    q2 = qualm(r, 2, kind, q1["L"], q1["T"], par=q1["par"]) if r.random() < .6 else qualm(r, 2, kind)
    ops = [q1, q2]
    n = 0
    bs = []
    decs = {}
    for q in (q1, q2):
        ops.append({"op": "parter", "pid": q["qid"], "qid": q["qid"], "mode": "obj"})
        for _ in range(3):
            n += 1
            dec = decisions(r, q)
            if bs and r.random() < .35 and q["qid"] in decs:
                dec = decs[q["qid"]]
            if q["par"] == q1["par"] and q["T"] == q1["T"] and 1 in decs and r.random() < .4:
                dec = decs[1]
            decs[q["qid"]] = dec
            ops.append({"op": "part", "bid": n, "qid": q["qid"], "p": r.choice(["0", "0.5", "1"]), "dec": dec}); bs.append(n)
        for p in params(r, 2):
            n += 1
            ops.append({"op": "best", "bid": n, "pid": q["qid"], "p": p}); bs.append(n)
    for a in bs:
        for b in bs:
            if a <= b and r.random() < .6: ops.append({"op": "eq", "a": a, "b": b})
    return ops

def sc_eqnear(r, kind, L=None, T=None, k=6):
    """described partitions that differ in one place"""
    q = qualm(r, 1, kind, L, T, style="tiny")
    par, L, T = q["par"], q["L"], q["T"]
    kids = [[c for c in range(len(par)) if par[c] == h] for h in range(len(par))]
    base = decisions(r, q)
    if kind == "O":
        base = []; w = r.choice([1, 1, 2, 3])
        while len(base) < T:
            e = min(T, len(base) + r.randint(1, w)); n = e - len(base); base += [e - 1] * n
    if kind == "H" and r.random() < .6: base = [1 if not kids[h] else int(r.random() < .1) for h in range(len(par))]
    if kind == "D" and r.random() < .6:
        # mostly fine parts
        base = [[[(-1 if kids[h] and (i == j or r.random() < .6) else i if j > i else j) for j in range(i, T)] for i in range(T)] for h in range(len(par))]
    if kind == "O" and k >= 6 and T > 20 and r.random() < .7: base = list(range(T))     # the finest, when it has many parts
    decs = [base]
    for _ in range(k):
        d = copy.deepcopy(base)
        if kind == "O":
            starts = [i for i in range(T) if i == 0 or d[i - 1] < i]
            i = r.choice(starts); e = d[i]
            if e > i and r.random() < .5:
                c = r.randrange(i, e)
                for x in range(i, c + 1): d[x] = c
            elif e + 1 < T:
                f = d[e + 1]
                for x in range(i, f + 1): d[x] = f
        elif kind == "H":
            inner = [h for h in range(len(par)) if kids[h]]
            if inner: h = r.choice(inner); d[h] = 1 - d[h]
        else:
            for _ in range(3):
                h = r.randrange(len(par)); i = r.randrange(T); x = r.randrange(T - i)
                d[h][i][x] = r.choice([i + x] + ([-1] if kids[h] else []) + ([i + r.randrange(x)] if x else []))
        decs.append(d)
    # as many parts, one boundary a step further
    for _ in range(k // 2):
        d = copy.deepcopy(r.choice(decs))
        if kind == "O":
            ends = []; i = 0
            while i < T: ends.append(d[i]); i = d[i] + 1
            x = [n for n in range(len(ends) - 1) if ends[n] + 1 < ends[n + 1]]
            if x:
                ends[r.choice(x)] += 1
                d = [e for n, e in enumerate(ends) for _ in range(e - (ends[n - 1] if n else -1))]
        elif kind == "D":
            used = []
            def walk(h, i, j):
                c = d[h][i][j - i]
                if c == -1:
                    for x in kids[h]: walk(x, i, j)
                elif c < j:
                    used.append((h, i, j)); walk(h, i, c); walk(h, c + 1, j)
            walk(par.index(-1), 0, T - 1)
            if used:
                h, i, j = r.choice(used); c = d[h][i][j - i]
                d[h][i][j - i] = c + 1 if c + 1 < j else max(i, c - 1)
        decs.append(d)
    ops = [q] + [{"op": "part", "bid": b, "qid": 1, "p": r.choice(["0", "0.5"]), "dec": d} for b, d in enumerate(decs)]
    ops += [{"op": "eq", "a": a, "b": b} for a in range(len(decs)) for b in range(a, len(decs)) if a == 0 or r.random() < .3]
    return ops

def mapof(a, b):
    return list(range(a))

def sc_relate(r, what=None, big=1):
    """two analyses of the same data"""
    what = what or r.choice(["t1", "single", "alone", "reverse", "renumber", "series", "scale", "factor", "dup"])
    cap = r.choice([2, 5, 20])
    ops = []
    def two(sa, sb, nodemap, rev=False, factor=1):
        o = []
        for x, s in ((1, sa), (2, sb)):
            o.append(s)
            o += [{"op": "qual", "qid": x, "sid": x}, {"op": "compute", "qid": x, "values": 1}]
        o.append({"op": "relate", "a": 1, "b": 2, "map": nodemap, "rev": rev, "factor": factor})
        o += [{"op": "parter", "pid": x, "qid": x, "mode": "obj"} for x in (1, 2)]
        n = 0
        for p in params(r, 3, 6):
            o += [{"op": "best", "bid": n + 1, "pid": 1, "p": p}, {"op": "best", "bid": n + 2, "pid": 2, "p": p},
                  {"op": "relbest", "a": n + 1, "b": n + 2, "factor": factor}]
            n += 2
        if factor == 1 and r.random() < .5:
            o += [{"op": "normalize", "qid": x} for x in (1, 2)]
            o.append({"op": "relate", "a": 1, "b": 2, "map": nodemap, "rev": rev, "factor": 1})
        return o
    def st(sid, kind, n, L, dims, T, par, vals, mul="1"):
        return {"op": "store", "sid": sid, "kind": kind, "n": n, "ctor": "vec", "L": L, "dims": dims, "T": T, "mul": mul,
                "unit": mul == "1", "par": par, "vals": vals}
    V = r.randint(1, 3)
    if what == "t1":
        L = r.randint(1, 7 * big); par = tree(r, L); v = values(r, L * V, cap)
        return two(st(1, "H", 2, L, [V, 1, 1], 1, par, v), st(2, "D", 3, L, [V, 1, 1], 1, par, v), list(range(len(par))))
    if what in ("single", "alone"):
        T = r.randint(1, 9 * big); v = values(r, V * T, cap)
        par = [-1] if what == "alone" else r.choice([[1, -1], [2, -1, 1], [1, 2, -1]])
        root = par.index(-1)
        return two(st(1, "O", 2, 1, [V, 1, 1], T, [-1], v), st(2, "D", 3, 1, [V, 1, 1], T, par, v), [root])
    kind = r.choice("OHD")
    L = 1 if kind == "O" else r.randint(1, 6 * big); T = 1 if kind == "H" else r.randint(1, 7 * big)
    par = [-1] if kind == "O" else tree(r, L); H = len(par)
    n = {"O": 2, "H": 2, "D": 3}[kind]
    v = values(r, L * V * T, cap)
    A = st(1, kind, n, L, [V, 1, 1], T, par, v)
    idm = list(range(H))
    if what == "reverse" and kind == "H": what = "series"
    if what == "renumber" and kind == "O": what = "series"
    if what == "reverse":
        w = [v[x * T + T - 1 - t] for x in range(L * V) for t in range(T)]
        return two(A, st(2, kind, n, L, [V, 1, 1], T, par, w), idm, rev=True)
    if what == "renumber":
        perm = list(range(L, H)); r.shuffle(perm); leafperm = list(range(L)); r.shuffle(leafperm)
        m = leafperm + perm
        p2 = [0] * H
        for h in range(H): p2[m[h]] = -1 if par[h] == -1 else m[par[h]]
        w = [0] * len(v)
        for h in range(L): w[m[h] * V * T:(m[h] + 1) * V * T] = v[h * V * T:(h + 1) * V * T]
        return two(A, st(2, kind, n, L, [V, 1, 1], T, p2, w), m)
    if what == "series":
        perm = list(range(V)); r.shuffle(perm); w = [0] * len(v)
        for h in range(L):
            for k in range(V):
                w[(h * V + perm[k]) * T:(h * V + perm[k] + 1) * T] = v[(h * V + k) * T:(h * V + k + 1) * T]
        return two(A, st(2, kind, n, L, [V, 1, 1], T, par, w), idm)
    if what == "scale":
        return two(A, st(2, kind, n, L, [V, 1, 1], T, par, v, mul=r.choice(["0x1p-12", "0x1p15", "0.37", "1e-9", "1e9"])), idm)
    if what == "dup":
        # every series twice: everything twice
        w = []
        for h in range(L):
            x = v[h * V * T:(h + 1) * V * T]; w += x + x
        return two(A, st(2, kind, n, L, [2 * V, 1, 1], T, par, w), idm, factor=2)
    f = r.randint(2, 5)
    return two(A, st(2, kind, n, L, [V, 1, 1], T, par, [f * x for x in v]), idm, factor=f)

def sc_algebra(r):
    ops = []
    big = r.choice([3, 10, 1000])
    def q(): return [r.randint(-big if r.random() < .3 else 0, big), r.randint(-big if r.random() < .3 else 0, big)]
    for _ in range(6):
        a, b = q(), q()
        if r.random() < .25: b = a[:]
        if r.random() < .25: b = [a[0], b[1]]
        if r.random() < .25: b = [b[0], a[1]]
        ops.append({"op": "qarith", "den": r.choice([1, 1, 4, 32]), "a": a, "b": b})
    for _ in range(3):
        ops.append({"op": "qnear", "g": r.randint(1, 1000), "l": r.randint(1, 1000), "scale": r.choice(["1", "1", "0.001", "1e-7", "1e-15", "0x1p-70", "1e6", "1e15", "1e40"])})
    for _ in range(6):
        a, b = [r.randint(-9, 9)] + q(), [r.randint(-9, 9)] + q()
        m = r.randint(0, 10)
        ops.append({"op": "tarith", "a": a, "b": b, "p": r.choice(["0", "1", "0x1p-1", pow2(r.randint(0, 1 << m), m)])})
    for _ in range(3):
        k = r.choice([1, 2, 3])
        # the same order far from zero
        off = [r.choice([0, 0, r.randint(20, 60), -r.randint(20, 60)]) for _ in range(3)]
        ops.append({"op": "torder", "off": off, "items": [[r.randint(-k, k), r.randint(0, k), r.randint(0, k)] for _ in range(r.choice([5, 8]))]})
    return ops

def sc_utm(r, n=None):
    ops = []
    for ty in ["int", "double", "long", "quality", "tradeoff"]:
        k = n or r.choice([1, 2, 3, 4, 5, 7, 10, 16, 23])
        given = r.random() < .4; init = r.randint(1, 50) if given else 0
        cells = [(i, j) for i in range(k) for j in range(i, k)]
        w = []
        for _ in range(r.randint(0, 8)):
            i, j = r.choice(cells)
            w.append([r.choice(["w", "p"]) if not given else "w", i, j, r.randint(0, 99)])
            if r.random() < .3 and k < 30: w.append(["d"])
            if r.random() < .2 and k < 30:
                # back to nothing, or to what it was made with
                i, j = r.choice([(0, k - 1), (0, 0), (k - 1, k - 1), r.choice(cells), (i, j)])
                w += [["w", i, j, r.randint(1, 99)]] * (r.random() < .5) + [["w", i, j, r.choice([0, init])], ["d"]]
        c = cells[:]; r.shuffle(c)
        if not given and ty in ("quality", "tradeoff") and r.random() < .5:
            w += [["p", i, j, 1000 + x] for x, (i, j) in enumerate(c)]
        else:
            w += [["w", i, j, 1000 + x] for x, (i, j) in enumerate(c)]
        w.append(["d"])
        ops.append({"op": "utm", "type": ty, "n": k, "given": given, "init": init, "writes": w, "distinct": True})
    return ops

def sc_meta(r, L=None, shape=None):
    L = L or r.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 13])
    return [{"op": "meta", "L": L, "par": tree(r, L, shape)} for _ in range(5)]

def sc_history(r, length=25, kinds="OHD", drop=False, copy=False):
    """a random history over several objects of several kinds; some end, some are copied"""
    f = ids(); ops = [{"op": "loose"}] if drop else []
    S, Q, P, B, A, K = {}, {}, {}, {}, {}, {}
    swept = set()
    def add_store():
        kind = r.choice(kinds); sid = f()
        o, s = store(r, sid, kind, L=r.choice([1, 2, 3, 4]), T=r.choice([1, 2, 3, 4]), mul=r.choice(["1", "0x1p-10"]), cap=r.choice([1, 2, 9]))
        ops.extend(o); S[sid] = s
        qid = f(); ops.append({"op": "qual", "qid": qid, "sid": sid})
        Q[qid] = dict(kind=kind, sid=sid, par=s["par"], L=s["L"], T=s["T"], done=False)
    def add_qualm():
        qid = f(); q = qualm(r, qid, r.choice(kinds), L=r.choice([1, 2, 3]), T=r.choice([1, 2, 3, 4]), den=r.choice([1, 2, 8])); ops.append(q)
        Q[qid] = dict(kind=q["kind"], sid=None, par=q["par"], L=q["L"], T=q["T"], done=True)
    add_store()
    if r.random() < .5: add_qualm()
    for _ in range(length):
        x = r.random()
        if (drop or copy) and r.random() < .22:
            sort, objs = r.choice([("store", S), ("qual", Q), ("parter", P), ("part", B)] + ([("agg", A), ("take", K)] if drop else []))
            if not objs: continue
            o = r.choice(list(objs))
            if copy and sort in ("store", "parter", "part") and (not drop or r.random() < .5):
                n = f(); ops.append({"op": "copy", "what": sort, "from": o, "to": n})
                objs[n] = dict(objs[o], sid=n) if sort == "store" else objs[o]
                if sort == "parter" and o in swept: swept.add(n)
            elif drop:
                ops.append({"op": "drop", "what": sort, "id": o}); del objs[o]
                swept.discard(o)
                if not Q and not S: add_store()
            continue
        done = [q for q in Q if Q[q]["done"]]
        if x < .04 and len(S) < 3: add_store()
        elif x < .07 and len(Q) < 6: add_qualm()
        elif x < .10 and S:
            sid = r.choice(list(S)); qid = f(); s = S[sid]
            ops.append({"op": "qual", "qid": qid, "sid": sid}); Q[qid] = dict(kind=s["kind"], sid=sid, par=s["par"], L=s["L"], T=s["T"], done=False)
        elif x < .24 and S:
            s = S[r.choice(list(S))]
            o = rset(r, s, v=r.choice([0, 1, 2]))
            ops.append(o)
            if r.random() < .3: ops.append({"op": "get", "sid": s["sid"]})
        elif x < .38 and Q:
            q = r.choice(list(Q)); ops.append({"op": "compute", "qid": q, "values": 0 if Q[q]["sid"] is None else 1}); Q[q]["done"] = True
        elif x < .45 and done:
            ops.append({"op": "normalize", "qid": r.choice(done)})
        elif x < .50 and done:
            ops.append({"op": "dumpq", "qid": r.choice(done)})
        elif x < .58 and done:
            q = r.choice(done); p = f(); ops.append({"op": "parter", "pid": p, "qid": q, "mode": r.choice(["obj", "mat"])}); P[p] = Q[q]
        elif x < .74 and P:
            p = r.choice(list(P)); b = f(); ops.append({"op": "best", "bid": b, "pid": p, "p": r.choice(["0", "0.25", "0.5", "0.75", "1"])}); B[b] = P[p]
        elif x < .82 and P:
            p = r.choice(list(P)); ops.append(sweepop(r, p, th=r.choice(["0.5", "0.1", "0.02"]), k=1)); swept.add(p)
        elif x < .86 and P:
            p = r.choice(list(P)); ops.append({"op": "lists", "pid": p})
        elif x < .89 and swept:
            p = r.choice(sorted(swept)); ops.append({"op": "getp", "pid": p})
        elif x < .905 and B:
            t = f(); ops.append({"op": "take", "tid": t, "bid": r.choice(list(B))}); K[t] = 1
        elif x < .92 and B:
            ops.append({"op": "dumpb", "bid": r.choice(list(B))})
        elif x < .96 and B:
            b = r.choice(list(B)); q = B[b]
            c = [s for s in S.values() if s["kind"] == q["kind"] and s["par"] == q["par"] and s["T"] == q["T"]]
            if c and r.random() < .5: ops.append({"op": "agg", "bid": b, "sid": r.choice(c)["sid"]})
            elif c: a = f(); ops.append({"op": "aggkeep", "aid": a, "bid": b, "sid": r.choice(c)["sid"]}); A[a] = 1
            elif A: ops.append({"op": "dumpagg", "aid": r.choice(list(A))})
        elif B:
            b = r.choice(list(B)); c = [k for k in B if B[k]["kind"] == B[b]["kind"]]
            ops.append({"op": "eq", "a": b, "b": r.choice(c)})
    for q in [q for q in Q if Q[q]["done"]]: ops.append({"op": "dumpq", "qid": q})
    for b in B: ops.append({"op": "dumpb", "bid": b})
    for p in P: ops.append({"op": "lists", "pid": p})
    for t in K: ops.append({"op": "dumptake", "tid": t})
    for a in A: ops.append({"op": "dumpagg", "aid": a})
    for s in S: ops.append({"op": "get", "sid": s})
    return ops

def sc_parts(r, kind, L=None, T=None, k=8):
    """partitions made from random descriptions"""
    q = qualm(r, 1, kind, L, T)
    return [q] + [{"op": "part", "bid": b, "qid": 1, "p": r.choice(["0", "0.5", "1", "0.3"]), "dec": decisions(r, q)} for b in range(k)]

def sc_sweeps(r, kind):
    """several sweeps of one partitioner: thresholds of all magnitudes, ranges, the same again"""
    q = qualm(r, 1, kind, top=r.choice([10, 40, 200]), style=r.choice(["growing", "uniform", "rows", "ties"]), pbits=10)
    ops = [q, {"op": "parter", "pid": 1, "qid": 1, "mode": "obj"}]
    for _ in range(2):
        ops.append(sweepop(r, 1, th=r.choice(["1e-8", "1e-6", "1e-4", "0x1p-24", "0x1p-12", "0.03", "0.3", "0.99"]), k=8, bits=9))
        ops.append(sweepop(r, 1, th=r.choice(["0.001", "0.02"]), ends=r.choice([[0, 8], [8, 16], [4, 12], [0, 0], [16, 16], [5, 5], [0, 1], [15, 16], None])))
        ops.append({"op": "lists", "pid": 1})
    return ops

def sc_change(r, kind):
    """one partitioner asked the same again after its qualities changed under it, and a new one beside it"""
    L, T = dict(O=(1, r.choice([3, 4, 6])), H=(r.choice([3, 4, 6]), 1), D=r.choice([(2, 3), (3, 2), (2, 4), (3, 4), (4, 3)]))[kind]
    ops, s = store(r, 1, kind, L=L, T=T, mul="1", cap=r.choice([3, 9, 20]), style=r.choice(["uniform", "steps", "peak"]))
    th = r.choice(["0.5", "0.25", "0.1", "0.02"]); ends = r.choice([None, None, [0, 16], [0, 8], [4, 16]])
    ask = r.sample(["0", "0.25", "0.5", "0.75", "1"], 5)
    b = [0]
    def look(pid, order):
        def best():
            out = []
            for p in ask[:4] + ([] if ask[4] not in "01" else [ask[4]]):
                b[0] += 1; out.append({"op": "best", "bid": b[0], "pid": pid, "p": p})
            return out
        sw = [sweepop(r, pid, th=th, ends=ends)]
        return sum([dict(s=sw, b=best(), l=[{"op": "lists", "pid": pid}, {"op": "getp", "pid": pid}])[o] for o in order], [])
    ops += [{"op": "qual", "qid": 1, "sid": 1}, {"op": "compute", "qid": 1, "values": 1}, {"op": "parter", "pid": 1, "qid": 1, "mode": r.choice(["obj", "mat"])}]
    ops += look(1, r.choice(["sb", "bs", "s", "s", "b"]))
    for n in range(2):
        c = r.choice(["norm", "norm", "set", "again"])
        if c == "norm": ops.append({"op": "normalize", "qid": 1})
        else:
            if c == "set": ops += [rset(r, s) for _ in range(r.choice([1, 3]))]
            ops.append({"op": "compute", "qid": 1, "values": 1})
            if r.random() < .3: ops.append({"op": "normalize", "qid": 1})
        if r.random() < .5: ops.append({"op": "dumpq", "qid": 1})
        new = [{"op": "parter", "pid": 10 + n, "qid": 1, "mode": "obj"}] + look(10 + n, r.choice(["b", "sb"]))
        old = look(1, r.choice(["b", "b", "lbs", "sb", "bs"]))
        ops += r.choice([new + old, old + new])
    return ops

def sc_bigutm(r, n, types=("int", "double", "long", "quality", "tradeoff")):
    """every position of a big matrix"""
    return [{"op": "utmfill", "type": t, "n": n, "order": r.randrange(4)} for t in types]

def sc_last(r, kind):
    """everything that something was made from ends, then it is used"""
    ops, s = store(r, 1, kind, cap=r.choice([3, 20]), L=r.choice([1, 2, 3, 4]), T=r.choice([1, 2, 3, 4]))
    ops = [{"op": "loose"}] + ops + [{"op": "qual", "qid": 1, "sid": 1}, {"op": "compute", "qid": 1, "values": 1}]
    def some(c): return [x for x in c if r.random() < .6]
    if r.random() < .3: ops += [{"op": "drop", "what": "store", "id": 1}, {"op": "compute", "qid": 1, "values": 1}]; gone = True
    else: gone = False
    ops.append({"op": "parter", "pid": 1, "qid": 1, "mode": r.choice(["obj", "mat"])})
    ops.append({"op": "best", "bid": 1, "pid": 1, "p": r.choice(["0", "0.5", "1"])})
    if not gone:
        ops.append({"op": "aggkeep", "aid": 1, "bid": 1, "sid": 1})
        if r.random() < .5: ops.append({"op": "aggkeep", "aid": 2, "bid": 1, "sid": 1})
        if r.random() < .7: ops.append({"op": "drop", "what": "store", "id": 1}); gone = True
    if r.random() < .4: ops += [{"op": "normalize", "qid": 1}]
    if r.random() < .8: ops.append({"op": "drop", "what": "qual", "id": 1})
    ops += [{"op": "best", "bid": 2, "pid": 1, "p": r.choice(["0.25", "0.75"])}, sweepop(r, 1, th="0.1", k=1), {"op": "getp", "pid": 1}, {"op": "auc", "pid": 1, "scale": 1}, {"op": "lists", "pid": 1}]
    ops.append({"op": "drop", "what": "parter", "id": 1})
    ops += [{"op": "dumpb", "bid": 1}, {"op": "dumpb", "bid": 2}, {"op": "eq", "a": 1, "b": 2}]
    if not gone: ops += [{"op": "agg", "bid": 2, "sid": 1}, {"op": "drop", "what": "store", "id": 1}]
    ops.append({"op": "drop", "what": "part", "id": 1})
    ops += [{"op": "dumpagg", "aid": o["aid"]} for o in ops if o["op"] == "aggkeep"]
    ops += [{"op": "dumpb", "bid": 2}, {"op": "drop", "what": "part", "id": 2}]
    ops += [{"op": "dumpagg", "aid": o["aid"]} for o in ops if o["op"] == "aggkeep"]
    return ops

def sc_kept(r, kind):
    """parts and aggregates kept after all they came from, while the values are written and analysed again"""
    ops, s = store(r, 1, kind, cap=r.choice([3, 20]), L=r.choice([1, 2, 3, 4]), T=r.choice([1, 2, 3, 4]))
    ops = [{"op": "loose"}] + ops + [{"op": "qual", "qid": 1, "sid": 1}]
    for n in range(1, r.choice([2, 3, 4])):
        ops.append({"op": "compute", "qid": 1, "values": 1})
        if r.random() < .3: ops.append({"op": "normalize", "qid": 1})
        ops += [{"op": "parter", "pid": n, "qid": 1, "mode": r.choice(["obj", "mat"])}, {"op": "best", "bid": n, "pid": n, "p": r.choice(["0", "0.25", "0.5", "1", "1"])}]
        if r.random() < .3: ops += [{"op": "copy", "what": "part", "from": n, "to": 50 + n}, {"op": "take", "tid": 50 + n, "bid": 50 + n}, {"op": "drop", "what": "part", "id": 50 + n}]
        ops.append({"op": "take", "tid": n, "bid": n})
        if r.random() < .3: ops.append({"op": "aggkeep", "aid": n, "bid": n, "sid": 1})
        end = [{"op": "drop", "what": "part", "id": n}, {"op": "drop", "what": "parter", "id": n}]
        r.shuffle(end); ops += end
        ops += [rset(r, s) for _ in range(r.choice([1, 1, 3]))]
    ops += [{"op": "compute", "qid": 1, "values": 1}, {"op": "dumpq", "qid": 1}]
    if r.random() < .5: ops.append({"op": "normalize", "qid": 1})
    if r.random() < .3: ops.append({"op": "drop", "what": "qual", "id": 1})
    ops += [{"op": "dumptake", "tid": o["tid"]} for o in ops if o["op"] == "take"] + [{"op": "dumpagg", "aid": o["aid"]} for o in ops if o["op"] == "aggkeep"]
    return ops

def sc_copies(r, kind):
    """copies of a store, a partitioner and a partition, changed apart"""
    ops, s = store(r, 1, kind, cap=r.choice([3, 20]), L=r.choice([1, 2, 3, 4]), T=r.choice([2, 3, 4]))
    t = dict(s, sid=2)
    def w(x): return rset(r, x)
    ops += [{"op": "copy", "what": "store", "from": 1, "to": 2}, w(s), w(t), {"op": "get", "sid": 1}, {"op": "get", "sid": 2}]
    for x in (1, 2): ops += [{"op": "qual", "qid": x, "sid": x}, {"op": "compute", "qid": x, "values": 1}]
    ops += [w(s), {"op": "compute", "qid": 2, "values": 1}, {"op": "compute", "qid": 1, "values": 1}]
    ops += [{"op": "parter", "pid": 1, "qid": 1, "mode": "obj"}]
    if r.random() < .7: ops.append(sweepop(r, 1, th="0.1", k=1))
    ops += [{"op": "copy", "what": "parter", "from": 1, "to": 2}]
    a, b = r.sample([1, 2], 2)
    ops += [sweepop(r, a, th="0.05", ends=[2, 9], k=1), {"op": "lists", "pid": b}, {"op": "getp", "pid": a}, {"op": "lists", "pid": a}, sweepop(r, b, th="0.2", ends=[5, 16], k=1), {"op": "lists", "pid": a}, {"op": "auc", "pid": a, "scale": 1}, {"op": "auc", "pid": b, "scale": 1}]
    ops += [{"op": "best", "bid": 1, "pid": a, "p": "0.5"}, {"op": "copy", "what": "part", "from": 1, "to": 2}, {"op": "best", "bid": 1, "pid": b, "p": "1"},
            {"op": "dumpb", "bid": 2}, {"op": "eq", "a": 1, "b": 2}, {"op": "agg", "bid": 2, "sid": 2}, {"op": "agg", "bid": 1, "sid": 1}, {"op": "dumpb", "bid": 2}]
    return ops

# --------------------------------------------------------- several analyses ---
def sc_analysis(r, kind):
    """the calls of one analysis"""
    x = r.random()
    if x < .3: s = sc_data(r, kind, nbest=3)
    elif x < .45: s = sc_exact(r, kind, nbest=3)
    elif x < .55: s = sc_quality(r, kind)
    elif x < .65: s = sc_agg(r, kind)
    elif x < .7: s = sc_values(r, kind)
    elif x < .75: s = sc_eq(r, kind)
    elif x < .8: s = sc_select(r, kind)
    elif x < .9: s = sc_history(r, length=15, kinds=kind)
    else: s = sc_algebra(r)[:3] + sc_utm(r)[:1] + sc_meta(r)[:1]
    return [o for o in s if o["op"] not in ("relate", "relbest")]

def sc_sharing(r, kind, k):
    """analyses of values and qualities in common, which none of them changes"""
    ops, s = store(r, 1, kind, cap=r.choice([3, 20]))
    ops += [{"op": "qual", "qid": 1, "sid": 1}, {"op": "compute", "qid": 1, "values": 1}]
    if r.random() < .5: ops.append({"op": "normalize", "qid": 1})
    q = qualm(r, 2, kind, L=s["L"], T=s["T"], par=s["par"]); ops.append(q)
    out = [ops]
    for _ in range(k):
        a = []
        for pid in r.sample([1, 2], 2):
            a.append({"op": "parter", "pid": pid, "qid": pid, "mode": r.choice(["obj", "mat"])})
            for b in range(2): a.append({"op": "best", "bid": 10 * pid + b, "pid": pid, "p": pow2(r.randint(0, 16), 4)})
            a.append(sweepop(r, pid, th=r.choice(["0.1", "0.02"]), k=1))
            a += [{"op": "getp", "pid": pid}, {"op": "lists", "pid": pid}, {"op": "agg", "bid": 10 * pid, "sid": 1}, {"op": "eq", "a": 10 * pid, "b": 10 * pid + 1}, {"op": "dumpq", "qid": pid}]
        a.insert(r.randrange(len(a)), {"op": "part", "bid": 50, "qid": 2, "p": "0.5", "dec": decisions(r, q)})
        if r.random() < .5: a += [{"op": "compute", "qid": 1, "values": 1}, {"op": "get", "sid": 1}, {"op": "normalize", "qid": 1}, {"op": "parter", "pid": 3, "qid": 1, "mode": "obj"}, {"op": "best", "bid": 51, "pid": 3, "p": "0.5"}]
        out.append(a)
    return out

def sc_parallel(r):
    k = r.choice([2, 3, 4])
    if r.random() < .35: return sc_sharing(r, r.choice("OHD"), k)
    if r.random() < .7:
        kind = r.choice("OHD")
        if r.random() < .4:
            a = sc_analysis(r, kind); return [[]] + [a] * k     # the same data: results are the same, memory is not
        return [[]] + [sc_analysis(r, kind) for _ in range(k)]
    return [[]] + [sc_analysis(r, r.choice("OHD")) for _ in range(k)]
