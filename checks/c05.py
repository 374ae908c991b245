import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *
from vf.profiles import history, VARIANTS

c = Check("C05", "monitored", "random schemas (value lists, exclusions, optional keys, defaults, hidden keys, type annotations, several rules and comments) built together with a "
          "reference interpretation. Decisions of the parsed, the printed and reparsed, and the encoded and decoded schema over random identifiers and requests are compared with "
          "the reference and with each other; histories run on databases with generated schemas, and with a schema file that changes under existing databases. "
          "distinct = (what was decided, level reached, shape of the rule)")

# ------------------------------------------------------------------------------------------- schemas with a reference
POOL = {"class": ["od", "rd", "e1", "o"], "expver": ["0001", "xxxx", "0xx1"], "stream": ["oper", "enfo", "op", "oper1"], "date": ["20200101", "20200110", "20191231"],
        "time": ["0000", "1200", "0100"], "domain": ["g", "gg", "e"], "type": ["an", "fc", "a"], "levtype": ["sfc", "pl", "p"], "origin": ["o", "or", "x1"],
        "step": ["0", "1", "10"], "number": ["1", "2", "10"], "levelist": ["1", "500", "0.5"], "param": ["1", "13", "130"], "quantile": ["q1", "q10", "q"]}
LEVELS = [["class", "expver", "stream", "date", "time", "domain"], ["type", "levtype", "origin", "number", "date", "time"],
          ["step", "number", "levelist", "param", "quantile", "origin"]]
TYPES = {"param": "Param", "step": "Step", "date": "Date", "levelist": "Double", "expver": "Expver", "time": "Time", "number": "Integer"}


class Pred:
    """one predicate: kind is any, in, out, opt or hidden"""

    def __init__(self, key, kind="any", vals=(), dflt="", typ=None):
        self.key, self.kind, self.vals, self.dflt, self.typ = key, kind, list(vals), dflt, typ

    def text(self, r):
        s = lambda: r.choice(["", "", " ", "  "])
        k = self.key + (s() + ":" + s() + self.typ if self.typ else "")
        if self.kind == "in":
            return k + s() + "=" + s() + (s() + "/" + s()).join(self.vals)
        if self.kind == "out":
            return k + s() + "=" + s() + "!" + (s() + "/" + s()).join(self.vals)
        if self.kind == "opt":
            return k + "?" + self.dflt
        if self.kind == "hidden":
            return k + "-" + self.dflt
        return k

    def optional(self):
        return self.kind in ("opt", "hidden")

    def match(self, k):
        if self.kind == "in":
            return k.get(self.key) in self.vals
        if self.kind == "out":
            return self.key not in k or k[self.key] not in self.vals
        return True

    def value(self, k):
        """what a field has for it; None if it cannot be decided"""
        if self.kind == "hidden":
            return ""
        if self.kind == "opt":
            return k.get(self.key, "")
        return k.get(self.key)

    def shape(self):
        return (self.kind, min(len(self.vals), 3), bool(self.dflt), self.typ)


class Unjudged(Exception):
    pass


class Rule:
    def __init__(self, preds, kids=()):
        self.preds, self.kids = preds, list(kids)

    def text(self, r, lvl=0):
        sep = lambda: r.choice([", ", ",", " , ", ",\n"])
        out = "[" + r.choice(["", " "])
        out += "".join((sep() if i else "") + p.text(r) for i, p in enumerate(self.preds))
        for k in self.kids:
            out += "\n" + "  " * (lvl + 1) + (f"# comment [ {r.choice('abc')} ]\n" if r.random() < .1 else "") + k.text(r, lvl + 1)
        return out + r.choice(["", " "]) + "]" + ("\n" if lvl == 0 else "")

    def key(self, k):
        """the key of this level, None if the rule does not match"""
        out = []
        for p in self.preds:
            if not p.match(k):
                return None
            if p.value(k) is None:
                raise Unjudged      # a mandatory key that the identifiers lack
            out.append((p.key, p.value(k)))
        return out

    def named(self, d, pairs):
        """may a key that names exactly these values have been made by this rule?"""
        names = {n for n, _ in pairs}
        return names <= {p.key for p in self.preds} and {p.key for p in self.preds if not p.optional()} <= names and all(p.match({n: v for n, v in pairs if v != ""}) for p in self.preds)


def decide(rules, k):
    """first database, index and datum rule that match, each searched below the previous one"""
    for a in rules:
        ka = a.key(k)
        if ka is None:
            continue
        for b in a.kids:
            kb = b.key(k)
            if kb is None:
                continue
            for x in b.kids:
                kx = x.key(k)
                if kx is not None:
                    return (ka, kb, kx), (a, b, x)
    return None, None


def rand_pred(r, name, hidden, constrain, dflt=True):
    typ = TYPES.get(name) if r.random() < .1 else None
    kind = r.choices(["any", "in", "out", "opt", "hidden"], [40, constrain, constrain * .5, 20, hidden])[0]
    if kind == "in" or kind == "out":
        return Pred(name, kind, r.sample(POOL[name], r.choice([1, 1, 2, 3] if kind == "in" else [1, 2])), typ=typ)
    if kind == "opt":
        return Pred(name, kind, dflt=r.choice(POOL[name]) if dflt and r.random() < .3 else "", typ=typ)
    if kind == "hidden":
        return Pred(name, kind, dflt=r.choice(POOL[name]) if r.random() < .7 else "")
    return Pred(name, typ=typ)


def rand_schema(r, hidden=5, datum_constraints=True, ndb=4, strict=False):
    rules = []
    for _ in range(r.randint(1, ndb)):
        a = r.sample(LEVELS[0], r.randint(2, 5))
        if strict:
            a = sorted(set(a) | {"class", "expver"}, key=LEVELS[0].index)
        kids = []
        for _ in range(r.randint(1, 3)):
            pool = [n for n in LEVELS[1] if n not in a]
            b = r.sample(pool, r.randint(1, min(4, len(pool))))
            pool = [n for n in LEVELS[2] if n not in b]
            x = r.sample(pool, r.randint(1, min(4, len(pool))))
            if strict and "param" not in x:
                x.append("param")
            kids.append(Rule([rand_pred(r, n, hidden, 25) for n in b],
                             [Rule([rand_pred(r, n, hidden, 12 if datum_constraints else 0) if n != "param" or not strict else Pred(n) for n in x])]))
        rules.append(Rule([rand_pred(r, n, hidden, 25) if not (strict and n in ("class", "expver") and r.random() < .5) else Pred(n) for n in a], kids))
    return rules


def render(r, rules, types=True):
    head = ""
    for n, t in TYPES.items():
        if types and r.random() < .8:
            head += f"{n}{r.choice(['', ' '])}:{r.choice(['', ' '])}{t};\n"
        if r.random() < .1:
            head += "# a comment; [class]\n"
    return head + r.choice(["\n", ""]) + r.choice(["", "\n"]).join(x.text(r) for x in rules)


def rand_key(r, rules, exact=.6):
    """identifiers made for one path of the schema, or for none"""
    if r.random() < .15:
        names = r.sample(sorted(POOL), r.randint(3, len(POOL)))
        return {n: r.choice(POOL[n]) for n in names}
    a = r.choice(rules)
    b = r.choice(a.kids)
    k = {}
    for p in a.preds + b.preds + b.kids[0].preds:
        if p.kind == "hidden" and r.random() < .7 or p.kind == "opt" and r.random() < .5:
            continue
        if p.kind == "in" and r.random() < .9:
            k[p.key] = r.choice(p.vals)
        elif p.kind == "out" and r.random() < .8 and set(POOL[p.key]) - set(p.vals):
            k[p.key] = r.choice(sorted(set(POOL[p.key]) - set(p.vals)))
        else:
            k[p.key] = r.choice(POOL[p.key])
    if r.random() < .1 and k:
        k.pop(r.choice(sorted(k)))
    return k


# ------------------------------------------------------------------------------------------- decisions
def decisions(i, wd, res):
    r = rng_for("c05d", c.seed, i)
    d = track(Driver(wd, "plain"))
    for n in range(12):
        rules = rand_schema(r)
        text = render(r, rules)
        keys = [rand_key(r, rules) for _ in range(40)]
        reqs, fps, exp, fpx = [], [], [], []
        for _ in range(10):
            k = rand_key(r, rules)
            reqs.append({m: sorted({v} | set(r.sample(POOL[m], r.randint(0, 2)))) for m, v in k.items()})
        for _ in range(8):
            a = r.choice(rules)
            fps.append(":".join("" if p.kind == "opt" and r.random() < .4 else p.dflt if p.kind == "hidden" else r.choice(p.vals if p.kind == "in" else POOL[p.key]) for p in a.preds))
        o = d.do({"op": "schema", "text": text, "keys": [keylist(k, rng=r) for k in keys], "reqs2": [req(q) for q in reqs], "fps": fps})
        bad = lambda sig, msg: (_ for _ in ()).throw(Violation(sig, f"{msg}\nschema:\n{text}"))
        if "err" in o:
            bad("schema-rejected", f"a valid schema is refused: {short(o)}")
        if not o["again"]:
            bad("schema-stream", "encoding, decoding and encoding again gives other bytes")
        for way, m in (("b", "printed and parsed again"), ("c", "encoded and decoded")):
            for part in ("keys", "exp", "fp"):
                for j, (x, y) in enumerate(zip(o["a"][part], o[way][part])):
                    if x != y and not (isinstance(x, str) and isinstance(y, str)):
                        bad(f"schema-differs:{way}", f"{part} {[keys, reqs, fps][('keys', 'exp', 'fp').index(part)][j]}: decided {short(x)}, after being {m}: {short(y)}")
        if o["d1"] != o["d2"] or o["d1"] != o["d3"]:
            bad("schema-prints-differently", f"printed as {o['d1']}\n then {o['d2']}\n decoded {o['d3']}")
        for k, got in zip(keys, o["a"]["keys"]):
            try:
                e, path = decide(rules, k)
                for a in rules:     # a dataset key may appear once only
                    if a.key(k) and next(b for b in rules if b.named(k, a.key(k))) is not a:
                        raise Unjudged
                    if path and a is path[0]:
                        break
            except Unjudged:
                res.count("unjudged")
                continue
            want = e and [sorted(list(x) for x in lvl) for lvl in e]
            got = [sorted(l) for l in got] if isinstance(got, list) else got
            if got != want:
                bad("schema-decision", f"{k} should be split as {want}, the schema decided {short(got)}")
            res.count("decisions")
            res.saw(("keys", tuple(len(x) for x in e) if e else 0, len(rules), tuple(sorted(p.kind for p in path[0].preds)) if path else 0))
        for q, got in zip(reqs, o["a"]["exp"]):
            want = set()
            for a in rules:
                for combo in itertools.product(*([v for v in q[p.key] if p.match({p.key: v})] if p.key in q and p.kind != "hidden" else [""] for p in a.preds)):
                    want.add(tuple((p.key, v) for p, v in zip(a.preds, combo)))
            if any(p.kind == "hidden" for a in rules for p in a.preds):
                continue
            if not isinstance(got, list) or {tuple(sorted(map(tuple, g))) for g in got} != {tuple(sorted(w)) for w in want}:
                bad("schema-expansion", f"request {q} matches the databases {sorted(want)}, the schema says {short(got)}")
            res.count("expansions")
            res.saw(("exp", min(len(want), 8), len(rules)))
        for f, got in zip(fps, o["a"]["fp"]):
            if any(p.kind == "hidden" for a in rules for p in a.preds):
                continue
            vals = f.split(":")
            want = None
            for a in rules:
                if len(vals) == len(a.preds) and all(p.vals.count(v) if p.kind == "in" else v not in p.vals if p.kind == "out" else True for p, v in zip(a.preds, vals)):
                    want = [[p.key, v] for p, v in zip(a.preds, vals)]
                    break
            if isinstance(got, str):
                continue    # not a value of its type
            if (sorted(got) if got else got) != (sorted(want) if want else want) and not (got is None and want and any(v == "" for v in vals)):
                bad("schema-fingerprint", f"the values {f} belong to {want}, the schema says {short(got)}")
            res.count("fingerprints")
    d.quit()


# ------------------------------------------------------------------------------------------- histories
class GenKS:
    def __init__(self, r, rules, ndb, dbs=None):
        self.r, self.rules = r, rules
        self.pool = {n: r.sample(v, min(len(v), 3)) for n, v in POOL.items()}
        for n, v in self.pool.items():
            setattr(self, n, v)
        self.dbs = []
        for _ in range(400):
            if len(self.dbs) == ndb:
                break
            k = self.make()
            if k:
                self.dbs.append(k)
        self.keys = [x for x in (self.make() for _ in range(60)) if x] + self.dbs

    def make(self):
        k = rand_key(self.r, self.rules)
        return k if usable(self.rules, k) else None

    def key(self, db=None):
        return dict(self.r.choice(self.keys))


def usable(rules, k):
    """does the schema take it, consume all of it, and find the way back from the keys it makes?"""
    try:
        e, path = decide(rules, k)
    except Unjudged:
        return False
    if not e or set(k) - {n for lvl in e for n, _ in lvl}:
        return False
    first = [a for a in rules if a.named(k, e[0])]
    if first[0] is not path[0]:
        return False
    # the values of a directory name alone must find the rule too
    if any(len(a.preds) == len(e[0]) and a is not path[0] and all(p.match({p.key: v}) for p, (_, v) in zip(a.preds, e[0])) for a in rules):
        return False
    second = [b for b in path[0].kids if b.named(k, e[1])]
    # no two databases of different rules may have the same name
    return second[0] is path[1] and len(second) == 1 and all(v != "" or p.kind == "opt" for lvl, rule in zip(e, path) for (_, v), p in zip(lvl, rule.preds))


def rule_of(rules):
    def f(k):
        e, path = decide(rules, k)
        if e is None:
            raise Unjudged
        return tuple(tuple(n for n, _ in lvl) for lvl in e)
    return f


class GenWorld(World):
    def archive(self, h, k=None, **kw):
        k = dict(k or self.ks.key())
        self.visited(k)
        return super().archive(h, k, **kw)

    def visited(self, k):
        """rules whose lower levels do not match leave an empty database"""
        path = decide(self.rules, k)[1]
        for a in self.rules:
            ka = a.key(k)
            if ka is not None:
                self.model.created.add(frozenset((n, v) for n, v in ka if v != ""))
            if path and a is path[0]:
                break

    def check_depth(self, request, level):
        if level > 1:       # the names of directories can be read in several ways
            super().check_depth(request, level)

    def vague(self, request):
        """does it name optional keys that a stored field does not have?"""
        return any(set(d) < set(request) and all(d[n] in request[n] for n in d) for d in map(full, self.model.visible()))

    def check_retrieve(self, request, *a, **kw):
        if not self.vague(request):
            return super().check_retrieve(request, *a, **kw)

    def check_inspect(self, request, *a, **kw):
        if not self.vague(request):
            return super().check_inspect(request, *a, **kw)

    def widen(self, n, v):
        return [v] if n in self.fixed else super().widen(n, v)


def generated(r, dflt=False):
    while True:
        rules = rand_schema(r, hidden=0, datum_constraints=False, strict=True)
        if not dflt:
            for a in rules:
                for p in a.preds + [p for b in a.kids for p in b.preds + b.kids[0].preds]:
                    p.dflt = ""
        ks = GenKS(r, rules, 5)
        if len(ks.dbs) >= 2 and len(ks.keys) >= 12:
            return rules, ks


def fixed_names(rules):
    return {p.key for a in rules for p in a.preds + [p for b in a.kids for p in b.preds] if p.kind in ("in", "out")}


def hist(i, wd, res):
    r = rng_for("c05h", c.seed, i)
    rules, ks = generated(r)
    name, env, roots = VARIANTS[i % len(VARIANTS)]
    if name == "dbnames" or "FDB_DEDUPLICATE_FIELDS" in env or "MaxNbDBsOpen" in env.get("VF_RES", ""):     # a rule tried in vain opens databases, too
        name, env, roots = VARIANTS[0]
    text = render(r, rules)
    w = GenWorld(r, wd, res, env=env, config=local_config(wd, roots, schema=text), rule_of=rule_of(rules), ks=ks, tag=name + "/gen", lens=[16, 40, 1000])
    w.rules = rules
    w.fixed = fixed_names(rules) | {"date", "time", "stream", "domain", "number", "origin", "type", "levtype"}

    def refused(w):
        """identifiers that no rule takes"""
        for _ in range(30):
            k = rand_key(r, rules)
            try:
                if decide(rules, k)[0] is None:
                    break
            except Unjudged:
                pass
        else:
            return
        h = w.fresh()
        o = w.do({"op": "archive", "h": h, "key": keylist(k, rng=r), "seed": 1, "len": 16})
        if "err" not in o:
            w.fail("archived-without-rule", f"{k} matches no rule and was archived\n{text}")
        w.do({"op": "close", "h": h})
        w.visited(k)
        res.saw(("refused", len(k)))
    history(w, 80, dict(archive=40, flush=14, close=6, restart=2, retrieve=14, inspect=8, list=16, depth=0, axes=4, compact=0, immut=0, stats=2, refused=3), extra={"refused": refused})


# ------------------------------------------------------------------------------------------- the schema file changes
S_OLD = ["[ class, expver, date\n  [ type, levtype\n    [ step, param ]]]\n",
         "[ class, expver, date\n  [ type, step\n    [ levtype, param ]]]\n",
         "[ class, expver, date\n  [ type, levtype, param\n    [ step ]]]\n",
         "[ class, expver, date\n  [ type=an, levtype\n    [ step, param ]]\n  [ type, param\n    [ step, levtype ]]]\n",
         "step: Step;\n[ class, expver, date\n  [ levtype, type\n    [ param, step ]]]\n",
         "[ class, expver, date\n  [ step\n    [ type, param, levtype ]]]\n"]
RULE_OLD = [(("type", "levtype"), ("step", "param")), (("type", "step"), ("levtype", "param")), (("type", "levtype", "param"), ("step",)), None,
            (("levtype", "type"), ("param", "step")), (("step",), ("type", "param", "levtype"))]


def changed(i, wd, res):
    """databases of different ages, each with the schema of its time"""
    r = rng_for("c05c", c.seed, i)
    cur = r.randrange(len(S_OLD))
    age = {}
    dbname = lambda k: (k["class"], k["expver"], k["date"])

    def rule(k):
        # a key that names no database (requests) gets the rule of today
        n = age.get(dbname(k), cur) if all(x in k for x in ("class", "expver", "date")) else cur
        ix, dt = RULE_OLD[n] or ((("type", "levtype"), ("step", "param")) if k.get("type") == "an" else (("type", "param"), ("step", "levtype")))
        return ("class", "expver", "date"), ix, dt
    cfg = local_config(wd, schema=S_OLD[cur])
    sp = yaml_schema(cfg)

    class KS:
        dbs = [{"class": a, "expver": b, "date": x} for a in ("od", "rd") for b in ("0001", "0002") for x in ("20200101", "20200102", "20200103")]
        type, levtype, step, param = ["an", "fc"], ["sfc", "pl"], ["0", "6", "12"], ["130", "131", "167"]

        def key(self, db=None):
            k = dict(db or r.choice(self.dbs[:self.n]))
            for n in ("type", "levtype", "step", "param"):
                k[n] = r.choice(getattr(self, n))
            return k
    ks = KS()
    ks.n = 3
    sub = i % 3 == 1
    w = World(r, wd, res, env={"FDB_SUB_TOCS": "1"} if sub else {}, config=cfg, rule_of=rule, ks=ks, tag="changed" + ("/sub" if sub else ""), lens=[16, 40])
    w.max_handles = 1
    arch = w.archive

    def archive(h, k=None, **kw):
        k = k or ks.key()
        age.setdefault(dbname(k), cur)
        return arch(h, k, **kw)
    w.archive = archive
    for phase in range(4):
        for _ in range(r.choice([8, 20])):
            a = r.choice(["archive"] * 5 + ["flush", "close", "list", "retrieve", "inspect", "restart"])
            if a in ("archive", "flush") and "w0" not in w.handles:
                w.open("w0")
            if a == "archive": w.archive("w0")
            elif a == "flush": w.flush("w0")
            elif a == "close" and "w0" in w.handles: w.close("w0")
            elif a == "list": w.check_list(w.rand_request() if r.random() < .7 else {}, r.choice(["full", "dedup"]))
            elif a == "retrieve": w.check_retrieve(w.rand_full())
            elif a == "inspect": w.check_inspect(w.rand_full())
            elif a == "restart": restart(w)
        for h in list(w.handles):
            w.close(h)
        w.check_all()
        # a new schema for databases to come
        old, cur = cur, r.choice([x for x in range(len(S_OLD)) if x != cur])
        with open(sp, "w") as f:
            f.write(S_OLD[cur])
        if r.random() < .5:      # a different path, too
            sp2 = write(os.path.join(wd, f"schema.{phase}"), S_OLD[cur])
            w.config = w.config.replace(sp, sp2)
            sp = sp2
        restart(w)
        ks.n = min(ks.n + 3, len(ks.dbs))
        w.check_all()
        res.saw(("changed", old, cur, len(age), sub))
    w.end()


def yaml_schema(cfg):
    return re.search(r"schema: (\S+)", cfg).group(1)


ensure("plain")
c.run(decisions, range(c.n(60, 3000)))
c.run(hist, range(c.n(120, 6000)))
c.run(changed, range(c.n(48, 2000)))
c.finish(300)
