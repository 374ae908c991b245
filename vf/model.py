"""Schemas, key spaces and the reference model of what an FDB holds."""
import copy, itertools, struct
import numpy as np

SCHEMA_A = """
param: Param;
step: Step;
date: Date;
levelist: Double;
expver: Expver;
time: Time;
number: Integer;

[ class, expver, stream=oper/dcda/scda, date, time
  [ type, levtype=sfc
    [ step, param ]]
  [ type, levtype
    [ step, levelist, param ]]
]
[ class, expver, stream=enfo/efov, date, time
  [ type, levtype
    [ step, number, levelist?, param ]]
]
[ class, expver, stream=moda, date, time
  [ type, levtype, step?
    [ levelist?, param ]]
]
"""
# (db keys, index keys, datum keys) of each rule; a predicate on a full key picks the rule
RULES_A = [
    (("class", "expver", "stream", "date", "time"), ("type", "levtype"), ("step", "param")),
    (("class", "expver", "stream", "date", "time"), ("type", "levtype"), ("step", "levelist", "param")),
    (("class", "expver", "stream", "date", "time"), ("type", "levtype"), ("step", "number", "levelist", "param")),
    (("class", "expver", "stream", "date", "time"), ("type", "levtype", "step"), ("levelist", "param")),
]


def rule_a(k):
    s = k["stream"]
    if s in ("oper", "dcda", "scda"):
        return RULES_A[0] if k["levtype"] == "sfc" else RULES_A[1]
    if s in ("enfo", "efov"):
        return RULES_A[2]
    return RULES_A[3]


SCHEMA_B = """
param: Param;
step: Step;
date: Date;
levelist: Double;
expver: Expver;
time: Time;
number: Integer;

[ class=od/rd, expver, stream=oper, domain?, date, time
  [ type, levtype=pl, origin?
    [ step, levelist?, param, quantile? ]]
  [ type, levtype=sfc
    [ step, number?, param ]]
]
[ class=e1/o, expver, stream, domain?
  [ type, levtype, date, time?
    [ step?, number?, param ]]
]
"""
RULES_B = [
    (("class", "expver", "stream", "domain", "date", "time"), ("type", "levtype", "origin"), ("step", "levelist", "param", "quantile")),
    (("class", "expver", "stream", "domain", "date", "time"), ("type", "levtype"), ("step", "number", "param")),
    (("class", "expver", "stream", "domain"), ("type", "levtype", "date", "time"), ("step", "number", "param")),
]


def rule_b(k):
    if k["class"] in ("od", "rd"):
        return RULES_B[0] if k["levtype"] == "pl" else RULES_B[1]
    return RULES_B[2]


POOL = dict(
    cls=["od", "rd"], expver=["0001", "xxxx", "0099"], date=["20200101", "20200102", "20191231"], time=["0000", "1200"],
    type=["an", "fc"], step=["0", "6", "12", "120"], param=["130", "131", "167", "130200"],
    levelist=["1", "500", "850", "0.5"], number=["1", "2", "10"])


class KeySpace:
    """A small random subspace, so that collisions, masking and partial overlap happen often."""

    def __init__(self, rng, streams=("oper", "enfo", "moda"), ndb=3):
        self.rng = rng
        pick = lambda name, k: rng.sample(POOL[name], min(k, len(POOL[name])))
        self.dbs = []
        for _ in range(ndb):
            self.dbs.append(dict(**{"class": rng.choice(POOL["cls"])}, expver=rng.choice(POOL["expver"]),
                                 stream=rng.choice(list(streams)), date=rng.choice(POOL["date"]), time=rng.choice(POOL["time"])))
        self.type = pick("type", 2)
        self.step = pick("step", 3)
        self.param = pick("param", 3)
        self.levelist = pick("levelist", 2)
        self.number = pick("number", 2)

    def key(self, db=None):
        r = self.rng
        k = dict(db or r.choice(self.dbs))
        k["type"] = r.choice(self.type)
        k["levtype"] = r.choice(["sfc", "pl"] if k["stream"] != "moda" else ["pl", "sfc"])
        s = k["stream"]
        if s in ("oper", "dcda", "scda"):
            if k["levtype"] == "pl":
                k["levelist"] = r.choice(self.levelist)
            k["step"] = r.choice(self.step)
        elif s in ("enfo", "efov"):
            k["step"] = r.choice(self.step)
            k["number"] = r.choice(self.number)
            if k["levtype"] == "pl":
                k["levelist"] = r.choice(self.levelist)
        else:
            if r.random() < 0.5:
                k["step"] = r.choice(self.step)
            if k["levtype"] == "pl":
                k["levelist"] = r.choice(self.levelist)
        k["param"] = r.choice(self.param)
        return k


class KeySpaceB:
    """Optional keys at every level; values that are prefixes of each other"""

    POOL = dict(expver=["0001", "0010", "000x", "0xx1", "xxxx"], domain=["g", "gg", "g1", "e"], date=["20200101", "20200110", "20201010"],
                time=["0000", "0100", "1000"], type=["a", "an", "ans"], origin=["o", "or", "ori"], step=["1", "10", "100", "0"],
                levelist=["1", "10", "100", "0.1", "1.5"], param=["1", "13", "130", "130200"], number=["1", "10", "100", "11"],
                quantile=["q", "q1", "q10"])

    def __init__(self, rng, ndb=3):
        self.rng = rng
        for n, pool in self.POOL.items():
            setattr(self, n, rng.sample(pool, min(len(pool), rng.choice([2, 3, 3]))))
        self.dbs = []
        for _ in range(ndb):
            c = rng.choice(["od", "rd", "e1", "o"])
            d = {"class": c, "expver": rng.choice(self.expver), "stream": "oper" if c in ("od", "rd") else rng.choice(["oper", "op", "oper1"])}
            if rng.random() < .6:
                d["domain"] = rng.choice(self.domain)
            if c in ("od", "rd"):
                d["date"], d["time"] = rng.choice(self.date), rng.choice(self.time)
            self.dbs.append(d)

    def key(self, db=None):
        r = self.rng
        k = dict(db or r.choice(self.dbs))
        k["type"] = r.choice(self.type)
        k["levtype"] = r.choice(["sfc", "pl"])
        opt = lambda n, p=.5: r.random() < p and k.__setitem__(n, r.choice(getattr(self, n)))
        if k["class"] in ("od", "rd"):
            k["step"] = r.choice(self.step)
            if k["levtype"] == "pl":
                opt("origin"), opt("levelist"), opt("quantile")
            else:
                opt("number")
        else:
            k["date"] = r.choice(self.date)
            opt("time"), opt("step"), opt("number")
        k["param"] = r.choice(self.param)
        return k


def parts(k, rule_of=rule_a):
    """-> (dbkey, idxkey, datumkey) as frozensets of present (name, value)"""
    r = rule_of(k)
    return tuple(frozenset((n, k[n]) for n in lvl if k.get(n, "") != "") for lvl in r)


def elem_parts(item):
    """The same from a list element"""
    return tuple(frozenset((a, b) for a, b in lvl if b != "") for lvl in item["k"])


def keylist(k, order=None, rng=None):
    items = list(k.items())
    if rng:
        rng.shuffle(items)
    return [[a, b] for a, b in items]


def req(d):
    return [[k, v if isinstance(v, list) else [v]] for k, v in d.items()]


def full(p):
    d = {}
    for lvl in p:
        d.update(dict(lvl))
    return d


def matches(p, request):
    """All names of the request present in the element, each with a requested value"""
    d = full(p)
    return all(n in d and d[n] in vs for n, vs in request.items())


def expand(request):
    names = list(request)
    for combo in itertools.product(*(request[n] for n in names)):
        yield dict(zip(names, combo))


class Model:
    """Committed content: per database an ordered list of index batches. A batch = one flushed index:
    (idxkey, {datumkey: (seed, len)}). Readers see, for each key, the newest batch's entry."""

    def __init__(self, rule_of=rule_a):
        self.rule_of = rule_of
        self.dbs = {}       # dbkey -> list of [idxkey, {datum: (seed,len)}]
        self.created = set()    # databases that exist on disk, with or without content
        self.locked = {}    # dbkey -> set of disabled identifiers
        self.writes = 0

    # --- writers
    def pending(self):
        return {}

    def archive(self, pend, k, seed, ln):
        d, i, x = parts(k, self.rule_of)
        pend.setdefault(d, {}).setdefault(i, {})[x] = (seed, ln)
        self.created.add(d)
        self.writes += 1
        return d, i, x

    def flush(self, pend, session=None):
        for d, idxs in pend.items():
            for i, data in idxs.items():
                self.dbs.setdefault(d, []).append([i, dict(data), session])
        pend.clear()

    def consolidate(self, session):
        """A sub-toc writer closes: its batches are replaced, at the end, by one index per index key"""
        for d, bs in self.dbs.items():
            mine = {}
            for b in bs:
                if b[2] == session:
                    mine.setdefault(b[0], {}).update(b[1])
            if mine:
                self.dbs[d] = [b for b in bs if b[2] != session] + [[i, data, None] for i, data in mine.items()]

    # --- readers
    def all(self):
        """every stored (parts, rec), masked ones included"""
        for d, bs in self.dbs.items():
            for i, data, _ in bs:
                for x, rec in data.items():
                    yield (d, i, x), rec

    def visible(self):
        out = {}
        for p, rec in self.all():
            out[p] = rec
        return out

    def list(self, request, mode="full"):
        """-> multiset (list) of (parts, rec)"""
        rows = [(p, r) for p, r in self.all() if matches(p, request)]
        if mode == "full":
            return rows
        vis = {}
        n = {}
        for p, r in rows:
            vis[p] = r
            n[p] = n.get(p, 0) + 1
        if mode == "dedup":
            return list(vis.items())
        # onlydup: masked entries only
        masked = []
        cnt = {}
        for p, r in rows:
            cnt[p] = cnt.get(p, 0) + 1
            if cnt[p] < n[p]:
                masked.append((p, r))
        return masked

    def get(self, k):
        return self.visible().get(parts(k, self.rule_of))

    def retrieve(self, request):
        """-> list of (parts, rec) for a fully specified (multi-valued) request"""
        vis = self.visible()
        return [(p, r) for p, r in vis.items() if matches(p, request)]


# ------------------------------------------------------------------------------------------------- payload
M64 = (1 << 64) - 1


def mix(z):
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return z ^ (z >> 31)


def payload(seed, ln):
    n = max(ln, 16)
    nw = (n + 7) // 8 + 1
    base = mix((seed + 0x1234567) & M64)
    with np.errstate(over="ignore"):
        z = np.uint64(base) + np.arange(nw, dtype=np.uint64) * np.uint64(0x9E3779B97F4A7C15)
        z = (z ^ (z >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
        z = (z ^ (z >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
        z = z ^ (z >> np.uint64(31))
    b = bytearray(z.tobytes())
    b[0:4] = b"VFP1"
    b[4:8] = struct.pack("<I", ln)
    b[8:16] = struct.pack("<Q", seed)
    return bytes(b[:ln])
