import sys, os, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *
from vf.core import SITE, VENV_PY, BUILD, VERIF
import numpy as np

c = Check("C25", "monitored",
          "Stores of GRIB fields (two editions, with and without bitmap, some replaced later), viewed as arrays by random definitions: which keys form which axis and in which order, values in any order, "
          "whole, single and fixed chunks, one to three parts joined along any axis, with other keys differing between them. Shape, chunk shape and numbers of chunks are judged by arithmetic, every chunk "
          "(and, through z3fdb and zarr, slices of the whole array) value by value against the decoded message whose identifier the index means. Definitions that cannot work, missing fields, fields of "
          "another size, and indexes out of range must raise an error. distinct = (axes, chunkings, parts, kind of defect, outcome)",
          ["Values are compared as single precision numbers, the precision of the view.",
           "A missing or oversized field may make building fail (the field size is taken from a field of the part); it must never give values."])

DBK = {"class": "rd", "stream": "oper", "domain": "g", "expver": "0001"}
SCHEMA = """
param: Param;
step: Step;
date: Date;
levelist: Double;
expver: Expver;
time: Time;

[ class, expver, stream, date, time, domain
  [ type, levtype
    [ step, levelist, param ]]
]
"""
POOL = dict(date=["20200101", "20200102", "20200103"], time=["0000", "0600", "1200"], step=["0", "6", "12", "24"], levelist=["500", "850", "1000", "300"], param=["130", "131", "132", "133"], type=["an", "fc"])
KEYS = ("date", "time", "step", "levelist", "param")
G = {"date": "dataDate", "time": "dataTime", "levelist": "level", "step": "step", "param": "paramId"}


def tup(k):
    return tuple(k[n] for n in KEYS + ("type",))


def fits(cards, n):
    """chunk sizes the documentation allows: the fastest keys whole, times a divisor of the next one's number of values"""
    if n < 1:
        return False
    t = 1
    for card in reversed(cards):
        if n % t == 0 and card % (n // t) == 0:
            return True
        t *= card
    return False


class W:
    def __init__(self, cs, wd, res):
        self.r = r = rng_for("c25", cs["seed"], cs["n"])
        self.res, self.wd = res, wd
        self.cfg = local_config(wd, 1, schema=SCHEMA)
        self.path = write(os.path.join(wd, "cfg.yaml"), self.cfg)
        b = os.path.join(BUILD, "plain")
        self.cc = track(Driver(wd, "plain", None, "cxx"))
        self.py = track(Driver(wd, "plain", {"PYTHONPATH": os.path.join(b, "py"), "FDB5_DIR": b, "ECCODES_DIR": os.path.join(SITE, "eccodeslib"), "ECCODES_PYTHON_USE_FINDLIBS": "1",
                                             "FINDLIBS_DISABLE_PACKAGE": "yes", "PYTHONDONTWRITEBYTECODE": "1"}, "py", argv=[VENV_PY, os.path.join(VERIF, "src", "viewdrv.py")]))
        self.fields = {}
        self.fillv = r.choice([-20.0, 0.0, 1e30, -1.5])

    def fail(self, sig, msg):
        raise Violation(sig, msg)

    def store(self, keys, small=()):
        r = self.r
        h = "w"
        keys = sorted(keys)
        r.shuffle(keys)
        again = [k for k in keys if r.random() < .1]
        self.cc.ok({"op": "open", "h": h, "config": self.cfg})
        for part in (keys, again):
            for t in part:
                k = dict(zip(KEYS + ("type",), t))
                op = {"op": "grib", "sample": f"regular_ll_pl_grib{r.choice([1, 2])}", "seed": r.randrange(1 << 40), "values": True,
                      "set": [["setLocalDefinition", 1]] + [[n, v] for n, v in dict(DBK, type=k["type"]).items() if n != "domain"] + [[G[n], int(k[n])] for n in KEYS]}
                if t in small:
                    op["set"] += [["Nj", 10]]
                    op["npoints"] = 160
                elif r.random() < .25:
                    op["missing"] = True
                g = self.cc.ok(op)
                v = np.array(g["get"]["values"], dtype="float64").astype("float32")
                if op.get("missing"):
                    v[v == np.float32(9999)] = np.float32(self.fillv)
                self.cc.ok({"op": "archive", "h": h, "key": [[n, v] for n, v in dict(DBK, levtype="pl", **k).items()], "hex": g["hex"]})
                self.fields[t] = v
            self.cc.ok({"op": "flush", "h": h})
        self.cc.ok({"op": "close", "h": h})

    def close_to(self, got, exp):
        return got.shape == exp.shape and bool(np.all(np.abs(got.astype("float64") - exp.astype("float64")) <= 1e-6 * np.maximum(1, np.abs(exp.astype("float64")))))


def run(cs, wd, res):
    w = W(cs, wd, res)
    r = w.r
    # ------------------------------------------------ definition
    nax = r.choice([1, 2, 2, 3])
    order = list(KEYS)
    r.shuffle(order)
    used = order[:r.choice([nax, nax, min(nax + 1, 5), min(nax + 2, 5)])]
    cuts = sorted(r.sample(range(1, len(used)), nax - 1)) if nax > 1 else []
    axes = [used[a:b] for a, b in zip([0] + cuts, cuts + [len(used)])]
    nparts = r.choice([1, 1, 2, 2, 3])
    ext = r.randrange(nax) if nparts > 1 or r.random() < .3 else None
    card = {n: r.choice([1, 2, 3, 4 if len(POOL[n]) > 3 else 3]) for n in used}
    while np.prod(list(card.values())) * nparts > 60:
        n = r.choice(used)
        card[n] = max(1, card[n] - 1)
    parts = []
    for p in range(nparts):
        cd = dict(card)
        if p and r.random() < .5:
            n = r.choice(axes[ext])
            cd[n] = r.randrange(1, len(POOL[n]) + 1)
        vals = {}
        for n in KEYS:
            vals[n] = r.sample(POOL[n], cd[n]) if n in used else [r.choice(POOL[n])]
        vals["type"] = [r.choice(POOL["type"])]
        if parts and r.random() < .3:      # keys of other axes need not agree, only their numbers
            pass
        elif parts:
            for n in KEYS:
                if n not in axes[ext]:
                    vals[n] = list(parts[0][n])
        parts.append(vals)
    sizes = [[int(np.prod([len(v[n]) for n in ax])) for ax in axes] for v in parts]
    chunk = []
    for i, ax in enumerate(axes):
        u = r.random()
        divs = [d for d in range(1, 25) if all(fits([len(v[n]) for n in ax], d) for v in parts)]
        chunk.append("whole" if u < .35 else "single" if u < .55 else r.choice(divs))
    defect = r.choice([None, None, None, None, "missing", "small", "chunk", "twice", "unmapped", "noext", "badext", "shape", "range"])
    if defect in ("noext", "shape") and nparts < 2:
        defect = "range"
    axdefs = [[[ax, ch] for ax, ch in zip(axes, chunk)] for _ in parts]
    if defect == "chunk":
        ax = axes[0]
        bad = [d for d in range(0, 40) if not fits([len(parts[0][n]) for n in ax], d)]
        axdefs = [[[ax, bad[0] if r.random() < .2 else r.choice(bad[1:])]] + a[1:] for a in axdefs]
    elif defect == "twice":
        axdefs = [a + [[[r.choice(used)], "single"]] for a in axdefs]
    elif defect == "unmapped":
        many = [n for n in used if any(len(v[n]) > 1 for v in parts)]
        if not many:
            defect = None
        else:
            n = r.choice(many)
            axdefs = [[[[m for m in ax if m != n], ch] for ax, ch in a if [m for m in ax if m != n]] for a in axdefs]
            if not axdefs[0]:
                defect, axdefs = None, [[[ax, ch] for ax, ch in zip(axes, chunk)] for _ in parts]
    elif defect == "shape":
        o = [i for i in range(nax) if i != ext]
        n = next((n for i in o for n in axes[i] if len(parts[1][n]) < len(POOL[n])), None)
        if n is None:
            defect = None
        else:
            parts[1] = dict(parts[1])
            parts[1][n] = parts[1][n] + [next(x for x in POOL[n] if x not in parts[1][n])]
    if defect == "noext":
        ext_given = None
    elif defect == "badext":
        ext_given = nax + r.choice([0, 1, 5])
    else:
        ext_given = ext

    # ------------------------------------------------ store
    need = {t for v in parts for t in itertools.product(*[v[n] for n in KEYS + ("type",)])}
    noise = {tuple(r.choice(POOL[n]) for n in KEYS + ("type",)) for _ in range(r.choice([0, 3, 8]))} - need
    lost = r.choice(sorted(need)) if defect == "missing" else None
    small = {r.choice(sorted(need))} if defect == "small" and len(need) > 1 else set()
    if defect == "small" and not small:
        defect = None
    w.store((need | noise) - {lost}, small)

    # ------------------------------------------------ view
    def sel(v):
        s = dict(DBK, levtype="pl")
        for n in KEYS + ("type",):
            f = r.choice(["str", "list", "num"])
            s[n] = v[n][0] if len(v[n]) == 1 and f == "str" else "/".join(v[n]) if f == "str" else [int(x) if f == "num" and n in ("step", "levelist", "param") else x for x in v[n]]
        return s
    op = {"op": "view", "config": w.path, "parts": [{"sel": sel(v), "axes": a} for v, a in zip(parts, axdefs)], "fill": w.fillv}
    if ext_given is not None:
        op["extend"] = ext_given
    v = w.py.do(op)
    kinds = tuple((len(ax), ch if isinstance(ch, str) else "fixed") for ax, ch in zip(axes, chunk))
    w.res.saw((kinds, nparts, ext, defect, "err" in v))
    if defect in ("chunk", "twice", "unmapped", "noext", "badext", "shape"):
        if "err" not in v:
            w.fail("accepted:" + defect, f"{op} gives a view: {v}")
        res.count("refused definitions")
        w.cc.quit(), w.py.quit()
        return
    if "err" in v:
        if defect in ("missing", "small"):
            res.count("refused stores")
            w.cc.quit(), w.py.quit()
            return
        w.fail("refused", f"{op}: {v}")
    np_ = v["shape"][-1]
    e = ext or 0
    shape = [sizes[0][i] if i != e else sum(s[i] for s in sizes) for i in range(nax)]
    cshape = [1 if ch == "single" else shape[i] if ch == "whole" else ch for i, ch in enumerate(chunk)]
    full = len(next(iter(w.fields.values())))
    if v["shape"] != shape + [np_] or v["chunk"] != cshape + [np_] or v["chunks"] != [-(-s // k) for s, k in zip(shape, cshape)] + [1] or np.float32(v["fill"]) != np.float32(w.fillv) \
            or (np_ not in {len(x) for x in w.fields.values()}):
        w.fail("shape", f"{op}: {v}; expected {shape} in chunks of {cshape}")

    def field(ix):
        """the field an index means: part along the extension axis, then values of the keys, the last fastest"""
        ix = list(ix)
        for vals, s in zip(parts, sizes):
            if ix[e] < s[e]:
                break
            ix[e] -= s[e]
        k = {n: vals[n][0] for n in KEYS + ("type",)}
        for ax, i in zip(axes, ix):
            for n in reversed(ax):
                i, j = divmod(i, len(vals[n]))
                k[n] = vals[n][j]
        return tup(k)
    chunks = list(itertools.product(*[range(n) for n in v["chunks"]]))
    r.shuffle(chunks)
    for ci in chunks[:40]:
        idx = list(itertools.product(*[range(k * i, min(k * i + k, s)) for i, k, s in zip(ci, cshape, shape)]))
        broken = any(t not in w.fields or len(w.fields[t]) != np_ for t in map(field, idx))
        a = w.py.do({"op": "at", "i": list(ci)})
        if broken:
            if "err" not in a:
                w.fail("values-of-nothing", f"{op}: chunk {ci} holds a field that is {'missing' if lost else 'of another size'}, but was delivered")
            res.count("refused chunks")
            continue
        if "err" in a:
            w.fail("chunk-refused", f"{op}: chunk {ci}: {a}")
        got = np.frombuffer(bytes.fromhex(a["hex"]), dtype="float32")
        if a["dtype"] != "float32" or got.size != int(np.prod(v["chunk"])):
            w.fail("chunk-size", f"{op}: chunk {ci}: {a['n']} values, {a['dtype']}")
        got = got.reshape(v["chunk"])
        for ix in idx:
            x = got[tuple(i - k * j for i, k, j in zip(ix, cshape, ci))]
            if not w.close_to(x, w.fields[field(ix)]):
                n = int(np.argmax(x != w.fields[field(ix)]))
                who = [t for t, y in w.fields.items() if w.close_to(x, y)]
                w.fail("values", f"{op}: index {ix} means {field(ix)}; point {n} is {x[n]}, not {w.fields[field(ix)][n]} (field delivered: {who})")
            res.count("fields compared")
    for _ in range(3):
        i = r.randrange(nax + 1)
        ci = [r.randrange(n) for n in v["chunks"]]
        if r.random() < .7:
            ci[i] = v["chunks"][i] + r.choice([0, 1, 1 << 40])
        else:
            ci = ci[:-1] if r.random() < .5 else ci + [0]
        if "err" not in w.py.do({"op": "at", "i": ci}):
            w.fail("out-of-range", f"{op}: {v}: chunk {ci} was delivered")
    # ------------------------------------------------ the same through zarr
    if not lost and not small:
        sub, want = [], []
        for s in shape + [np_]:
            if r.random() < .4:
                sub.append([0, s]), want.append(range(s))
            else:
                a = r.randrange(s)
                b = r.randrange(a, s) + 1
                sub.append([a, b]), want.append(range(a, b))
        z = w.py.do(dict(op, op="zarr", sub=sub))
        if "err" in z:
            w.fail("zarr-refused", f"{op} {sub}: {z}")
        got = np.frombuffer(bytes.fromhex(z["hex"]), dtype=z["dtype"]).reshape(z["got"])
        exp = np.empty([len(x) for x in want], dtype="float32")
        for ix in itertools.product(*[range(len(x)) for x in want[:-1]]):
            exp[ix] = w.fields[field([x[i] for x, i in zip(want, ix)])][want[-1].start:want[-1].stop]
        if z["shape"] != shape + [np_] or z["chunk"] != cshape + [np_]:
            w.fail("zarr-shape", f"{op}: {z['shape']} {z['chunk']}; expected {shape + [np_]} in {cshape + [np_]}")
        if not w.close_to(got, exp):
            w.fail("zarr-values", f"{op} {sub}: {int(np.sum(got != exp)) if got.shape == exp.shape else got.shape} of {exp.size} values differ")
        res.count("arrays read through zarr")
    w.cc.quit(), w.py.quit()


ensure("plain", ("fdbdrv", "pybind"))
c.run(run, [{"n": i, "seed": c.seed} for i in range(c.n(240, 3000))])
c.finish(60)
