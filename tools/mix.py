"""Which scenarios the check of each property runs, by tier.

Every entry is a function of a seeded generator; what they produce are inputs
and orders of calls, never expectations."""
import random
import gen
from gen import *

KIND = {"C01": "O", "C02": "H", "C03": "D", "C04": "O", "C05": "H", "C06": "D", "C07": "O", "C08": "H", "C09": "D"}
# how many random scenarios, quick and thorough
SCALE = {"C14": (4, 30), "C18": (4, 30), "C21": (2, 10), "C22": (4, 25), "C23": (3, 25), "C24": (3, 25)}
# sizes at which implementations tend to change their behaviour
EDGES = [15, 16, 17, 31, 32, 33]
MORE = [63, 64, 65, 100, 127, 128, 129]

def sized(r, kind, big):
    """a size out of the ordinary for the kind"""
    n = r.choice(EDGES if not big else EDGES + MORE)
    if kind == "O": return dict(L=1, T=n)
    if kind == "H": return dict(L=n, T=1)
    return r.choice([dict(L=min(n, 17), T=r.choice([2, 3, 4])), dict(L=r.choice([2, 3, 4]), T=min(n, 17)), dict(L=r.choice([6, 8, 9]), T=r.choice([8, 9, 10]))])

def huge(r, kind):
    """larger than 8 bits can count, or much larger than ordinary"""
    if kind == "O": return dict(L=1, T=r.choice([257, 280, 300]))
    if kind == "H": return dict(L=r.choice([257, 280, 300]), T=1)
    return r.choice([dict(L=1, T=r.choice([40, 66])), dict(L=2, T=r.choice([34, 65])), dict(L=3, T=30), dict(L=40, T=3), dict(L=70, T=2)])

def mid(r, kind):
    if kind == "O": return dict(L=1, T=r.choice([8, 10, 12, 14, 20, 24]))
    if kind == "H": return dict(L=r.choice([8, 10, 12, 16, 20]), T=1)
    return dict(L=r.choice([4, 6, 8, 10]), T=r.choice([5, 6, 8, 10]))

def all_dims(r, kind):
    """one store of every dimension with different sizes"""
    out = []
    for n in NS[kind]:
        d = r.sample([1, 2, 3, 4, 5], 3)
        k = {"O": n - 1, "H": n - 1, "D": n - 2}[kind]
        out.append((n, [d[i] if i < k else 1 for i in range(3)]))
    return out

def partitions(r, kind, k):
    s = []
    for i in range(k):
        s += [sc_exact(r, kind), sc_exact(r, kind, **mid(r, kind)), sc_data(r, kind, any_p=True, agg=False),
              sc_parts(r, kind), sc_eq(r, kind), sc_exact(r, kind, nbest=4, style=r.choice(["signed", "lossy", "gainy"]))]
        if i % 60 == 5: s += [sc_exact(r, kind, nbest=2, nsweep=1, th="0.5", **huge(r, kind)), sc_parts(r, kind, k=2, **huge(r, kind))]
        if i % 4 == 0: s.append(sc_exact(r, kind, nbest=3, **sized(r, kind, i % 8 == 0)))
        if i % 4 == 1: s.append(sc_parts(r, kind, **sized(r, kind, False)))
    return s

def optimal(r, kind, k):
    s = []
    for i in range(k):
        s += [sc_exact(r, kind, nbest=10), sc_exact(r, kind, nbest=10, **mid(r, kind)), sc_exact(r, kind, nbest=12, style=r.choice(["ties", "tiny", "equal", "linear"])),
              sc_exact(r, kind, nbest=10, style=r.choice(["signed", "lossy", "gainy"])), sc_exact(r, kind, nbest=6, style=r.choice(["signed", "lossy", "gainy"]), **mid(r, kind)),
              sc_data(r, kind, nbest=8, agg=False), sc_lopsided(r, kind)]
        if i % 3 == 0: s.append(sc_lopsided(r, kind, **mid(r, kind)))
        s += [sc_exact(r, kind, nbest=4, style="planted", **mid(r, kind)) for _ in range(2)]
        if i % 4 == 0: s.append(sc_exact(r, kind, nbest=4, **sized(r, kind, i % 8 == 0)))
        if i % 4 == 1: s.append(sc_exact(r, kind, nbest=2, nsweep=0, style="planted", **sized(r, kind, i % 8 == 1)))
        if i % 15 == 8: s.append(sc_exact(r, kind, nbest=2, nsweep=0, style="planted", **huge(r, kind)))
        if i % 8 == 2 and kind == "D": s.append(sc_exact(r, kind, nbest=2, nsweep=0, style="planted", **r.choice([dict(L=1, T=r.randint(18, 36)), dict(L=r.randint(12, 36), T=r.choice([2, 3])), dict(L=2, T=r.randint(12, 30))])))
        if i % 4 == 2: s.append(sc_data(r, kind, nbest=4, agg=False, **mid(r, kind)))
        if i % 60 == 5: s += [sc_exact(r, kind, nbest=3, nsweep=1, th="0.5", style=st, **huge(r, kind)) for st in ("growing", "uniform")]
        if i % 60 == 35 or i == 7: s += [sc_data(r, kind, nbest=3, nsweep=0, agg=False, cap=20, **huge(r, kind))]
    return s

def qualities(r, kind, k):
    s = []
    for i in range(k):
        for n, d in all_dims(r, kind):
            s.append(sc_quality(r, kind, norm=False, n=n, d=d))
        s += [sc_quality(r, kind, norm=False), sc_quality(r, kind, norm=False, **mid(r, kind))]
        if i % 3 == 0: s.append(sc_quality(r, kind, norm=False, **sized(r, kind, i % 6 == 0)))
        if i % 40 == 5: s.append(sc_quality(r, kind, norm=False, d=[1, 1, 1], cap=40, **huge(r, kind)))
    return s

def normal(r, k):
    s = []
    for _ in range(k):
        for kind in "OHD":
            s += [sc_quality(r, kind), sc_quality(r, kind, style="homog"), sc_quality(r, kind, style=r.choice(["sparse", "zero_some", "steps"])), sc_normm(r, kind), sc_normm(r, kind, style=r.choice(["zero", "gain", "loss"])),
                  sc_quality(r, kind, **mid(r, kind))]
    return s

def sweeps(r, k, sel=False):
    s = []
    for i in range(k):
        for kind in "OHD":
            s += [sc_exact(r, kind, nbest=1, nsweep=3), sc_exact(r, kind, nbest=1, nsweep=2, **mid(r, kind)), sc_exact(r, kind, nbest=0, nsweep=2, style="planted", **mid(r, kind)), sc_sweeps(r, kind), sc_data(r, kind, nbest=1, nsweep=2, agg=False)]
            s.append(sc_exact(r, kind, nbest=1, nsweep=2, style=r.choice(["signed", "lossy", "gainy"])))
            if i % 3 == 0: s.append(sc_exact(r, kind, nbest=1, nsweep=1, **sized(r, kind, False)))
    return s

def monotone(r, k):
    s = []
    for i in range(k):
        for kind in "OHD":
            s += [sc_exact(r, kind, nbest=14), sc_exact(r, kind, nbest=12, **mid(r, kind)), sc_exact(r, kind, nbest=16, style=r.choice(["ties", "equal", "linear"])), sc_data(r, kind, nbest=12, agg=False)]
    return s

def scenarios(prop, seed, scale):
    r = random.Random("%s/%d" % (prop, seed))
    k = lambda n: max(1, int(n * scale))
    if prop in ("C01", "C02", "C03"): return partitions(r, KIND[prop], k(30))
    if prop in ("C04", "C05", "C06"): return optimal(r, KIND[prop], k(30))
    if prop in ("C07", "C08", "C09"): return qualities(r, KIND[prop], k(20))
    if prop == "C10": return normal(r, k(20))
    if prop in ("C11", "C12"): return sweeps(r, k(14))
    if prop == "C13": return monotone(r, k(12))
    if prop == "C14": return [f for _ in range(k(40)) for kind in "OHD" for f in ([sc_select(r, kind), sc_again(r, kind), sc_nearscore(r, kind)] + ([sc_data(r, kind, norm=True, nbest=0, agg=False), sc_select(r, kind, **mid(r, kind))] if r.random() < .5 else []))]
    if prop == "C15":
        s = [sc_meta(r) for _ in range(k(120))]
        s += [sc_meta(r, L=r.choice(EDGES + MORE)) for _ in range(k(30))]
        s += [sc_meta(r, L=r.choice([257, 300]))[:2] for _ in range(k(1))]
        # more than 16 bits count, of either sign
        s += [sc_meta(r, L=n, shape=sh)[:1] for n, sh in [(r.randint(32768, 34000), "flat"), (r.randint(1000, 3000), "levels")] + ([(r.randint(65536, 67000), "flat"), (33000, "levels"), (3000, "caterpillar")] if scale > 8 else [])]
        for kind in "HD":
            s += [sc_exact(r, kind, nbest=1, nsweep=0) for _ in range(k(20))]
            s += [sc_quality(r, kind, norm=False) for _ in range(k(20))]
        return s
    if prop == "C16":
        s = []
        for i in range(k(12)):
            for kind in "OHD":
                for n, d in all_dims(r, kind): s.append(sc_agg(r, kind, n=n, d=d))
                s.append(sc_data(r, kind, nbest=3))
                if i % 4 == 0: s.append(sc_agg(r, kind, **mid(r, kind)))
                if i % 24 == 1: s += [sc_agg(r, kind, d=[1, 1, 1], **huge(r, kind)), sc_agg(r, kind, **sized(r, kind, True))]
        return s
    if prop == "C17":
        # more leaves or series than 16 bits count, of either sign
        n = r.randint(65536, 67000)
        s = [sc_values(r, "H", n=1, L=r.choice([n, n // 2]), d=[1, 1, 1], tshape="flat")]
        for kind, x in [("O", 1), ("H", 1), ("D", 2)]:
            d = r.choice([[2, n // 2, 1], [n // 3, 3, 1]])
            s += [sc_values(r, kind, n=x + 1, L=1, T=1, d=[n, 1, 1]), sc_values(r, kind, n=x + 2, L=1, T=1, d=d)]
            if kind != "D": s.append(sc_values(r, kind, n=x + 3, L=1, T=1, d=r.choice([[n // 6, 2, 3], [2, 3, n // 6], [1, n, 1]])))
        for i in range(k(30)):
            for kind in "OHD":
                for n, d in all_dims(r, kind): s.append(sc_values(r, kind, n=n, d=d))
                s.append(sc_values(r, kind))
                if i % 4 == 0: s.append(sc_values(r, kind, **sized(r, kind, False)))
                if i % 30 == 3: s.append(sc_values(r, kind, d=[1, 1, 1], **huge(r, kind)))
        return s
    if prop == "C18":
        return [sc_history(r, length=r.choice([15, 25, 40]), kinds=r.choice(["O", "H", "D", "OHD"])) for _ in range(k(300))] + [sc_change(r, kind) for _ in range(k(25)) for kind in "OHD"]
    if prop == "C23": return [f for _ in range(k(100)) for f in [sc_history(r, length=r.choice([15, 25, 40]), kinds=r.choice(["O", "H", "D", "OHD"]), drop=True)] + [sc_last(r, kind) for kind in "OHD"] + [sc_kept(r, kind) for kind in "OHD"]]
    if prop == "C24": return [f for _ in range(k(80)) for f in [sc_history(r, length=r.choice([15, 25, 40]), kinds=r.choice(["O", "H", "D", "OHD"]), copy=True), sc_history(r, length=25, kinds=r.choice("OHD"), copy=True, drop=True)] + [sc_copies(r, kind) for kind in "OHD"]]
    if prop == "C19":
        return [sc_relate(r, what, big=b) for _ in range(k(20)) for b in (1, 2) for what in ["t1", "single", "alone", "reverse", "renumber", "series", "scale", "factor", "dup"]]
    if prop == "C20": return [sc_algebra(r) for _ in range(k(150))]
    if prop == "C21": return [sc_utm(r) for _ in range(k(100))] + [sc_utm(r, n) for n in list(range(1, 12)) + EDGES + [40]] + \
                             [sc_bigutm(r, n) for n in [64, 100, 128, 129, 200, 255, 256, 257, 300] + ([363, 512, 513] if scale > 5 else [])] + [sc_bigutm(r, 363, ["int"])]
    if prop == "C22": return [f for i in range(k(80)) for kind in "OHD" for f in ([sc_eq(r, kind), sc_eqnear(r, kind)] + ([sc_eqnear(r, kind, **mid(r, kind))] if i % 3 == 0 else []) +
                             ([sc_eqnear(r, kind, **sized(r, kind, i % 6 == 1))] if i % 3 == 1 else []) + ([sc_eqnear(r, kind, k=4, L=1 if kind == "O" else 40, T=70 if kind == "O" else 1 if kind == "H" else 3), sc_eqnear(r, kind, k=3, **huge(r, kind))] if i % 80 == 2 else []))]
    if prop == "C25": return [sc_parallel(r) for _ in range(k(24))]
    raise KeyError(prop)
