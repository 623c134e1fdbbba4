"""Calls as JSON objects (the form TLC writes and reads) and as driver lines."""

def flat(x):
    if isinstance(x, list):
        for e in x:
            yield from flat(e)
    else:
        yield x

def toks(*xs):
    return " ".join(str(t) for x in xs for t in flat(x))

def lower(op):
    o = op["op"]
    if o == "store":
        s = toks("store", op["sid"], op["kind"], op["n"], op["ctor"], op["L"], op["dims"], op["T"], op["mul"],
                 len(op["par"]), op["par"])
        return s + (" " + toks(op["vals"]) if op["ctor"] == "vec" else "")
    if o == "fill":
        return toks("fill", op["sid"], op["order"], op["vals"])
    if o == "set":
        return toks("set", op["sid"], op["at"], op["v"])
    if o == "get":
        return toks("get", op["sid"])
    if o == "meta":
        return toks("meta", op["L"], len(op["par"]), op["par"])
    if o == "qual":
        return toks("qual", op["qid"], op["sid"])
    if o == "qualm":
        return toks("qualm", op["qid"], op["kind"], op["L"], op["T"], op["den"], len(op["par"]), op["par"], op["mat"])
    if o == "compute":
        return toks("compute", op["qid"], op["values"])
    if o in ("normalize", "dumpq"):
        return toks(o, op["qid"])
    if o == "parter":
        return toks("parter", op["pid"], op["qid"], op["mode"])
    if o == "best":
        return toks("best", op["bid"], op["pid"], op["p"])
    if o == "dumpb":
        return toks("dumpb", op["bid"])
    if o == "part":
        return toks("part", op["bid"], op["qid"], op["p"], op["dec"])
    if o == "sweep":
        s = toks("sweep", op["pid"], op["th"], op["mode"])
        s += " " + toks(op["min"], op["max"]) if op["mode"] == "range" else ""
        return s + " " + str(op.get("base", 0))
    if o == "aggkeep":
        return toks("aggkeep", op["aid"], op["bid"], op["sid"])
    if o == "take":
        return toks("take", op["tid"], op["bid"])
    if o == "dumptake":
        return toks("dumptake", op["tid"])
    if o == "dumpagg":
        return toks("dumpagg", op["aid"])
    if o == "copy":
        return toks("copy", op["what"], op["from"], op["to"])
    if o == "drop":
        return toks("drop", op["what"], op["id"])
    if o in ("lists", "getp"):
        return toks(o, op["pid"])
    if o == "auc":
        return toks("auc", op["pid"], op["scale"])
    if o == "agg":
        return toks("agg", op["bid"], op["sid"])
    if o == "eq":
        return toks("eq", op["a"], op["b"])
    if o == "loose":
        return "loose"
    if o in ("relate", "relbest"):
        return "nop"
    if o == "qarith":
        return toks("qarith", op["den"], op["a"], op["b"])
    if o == "qnear":
        return toks("qnear", op["g"], op["l"], op.get("scale", "1"))
    if o == "tarith":
        return toks("tarith", op["a"], op["b"], op["p"])
    if o == "regs":
        return toks("regs", len(op["q"]), op["q"], len(op["t"]), [[v[0] / 2] + v[1:] for v in op["t"]], len(op["calls"]), op["calls"])
    if o == "torder":
        return toks("torder", op.get("off", [0, 0, 0]), len(op["items"]), op["items"])
    if o == "utm":
        return toks("utm", op["type"], op["n"], "none" if not op["given"] else op["init"], op["writes"])
    if o == "utmfill":
        return toks("utmfill", op["type"], op["n"], op["order"])
    raise ValueError(o)

def write_script(scenarios, path):
    with open(path, "w") as f:
        for n, sc in enumerate(scenarios):
            f.write("scenario %d\n" % n)
            for op in sc:
                f.write(lower(op) + "\n")
