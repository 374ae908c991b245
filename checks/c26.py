import sys, os, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *
from vf.core import SITE, VENV_PY, BUILD, VERIF

c = Check("C26", "monitored",
          "Random stores written in turns through pyfdb and through the C++ API (identifiers as dictionaries and lists of pairs; GRIB messages without identifier), and after every few steps the same "
          "question asked through both: list at each level with and without masked fields, inspect, axes at each level, status, control, stats, wipe and purge (dry and done), enabled; selections as "
          "strings, numbers, slash-separated and to/by ranges, lists, tuples, sets; retrieved handles read by random sequences of read, readinto, readall, size, close and re-open. Answers must agree "
          "with the C++ answer, data with the archived bytes (model), refusals of one side with an exception of the other; answers consumed after the FDB, then the iterator, were dropped and collected. "
          "distinct = (operation, form of the selection, lifetime, size of the answer)",
          ["Requests are expanded by MARS rules in pyfdb: the C++ side is asked the expanded request as computed by the check.",
           "read(n) beyond the end is documented to pad with zeros: what is returned must begin with exactly the bytes left."])

DBK = {"class": "rd", "stream": "oper", "domain": "g"}
SCHEMA = """
param: Param;
step: Step;
date: Date;
levelist: Double;
expver: Expver;
time: Time;

[ class, expver, stream, date, time, domain
  [ type, levtype
    [ step, levelist, param ]]
]
"""
POOL = dict(expver=["0001", "xxxx"], date=["20200101", "20200102"], time=["0000", "1200"], type=["an", "fc"], step=["0", "6", "12"], levelist=["500", "850", "1000"], param=["130", "131", "133"])
ORDER = ("class", "expver", "stream", "date", "time", "domain", "type", "levtype", "step", "levelist", "param")
G = {"date": "dataDate", "time": "dataTime", "levelist": "level", "step": "step", "param": "paramId"}
L1, L2 = ORDER[:6], ORDER[6:8]


IDS = ("list", "retrieve", "archive", "wipe", "uniqueroot")


class Both:
    def __init__(self, cs, wd, res):
        self.r = rng_for("c26", cs["seed"], cs["n"])
        self.res, self.wd = res, wd
        self.cfg = local_config(wd, self.r.choice([1, 2]), schema=SCHEMA)
        b = os.path.join(BUILD, "plain")
        self.cc = track(Driver(wd, "plain", None, "cxx"))
        self.py = track(Driver(wd, "plain", {"PYTHONPATH": os.path.join(b, "py"), "FDB5_DIR": b, "ECCODES_DIR": os.path.join(SITE, "eccodeslib"), "ECCODES_PYTHON_USE_FINDLIBS": "1",
                                                  "FINDLIBS_DISABLE_PACKAGE": "yes", "PYTHONDONTWRITEBYTECODE": "1"}, "py", argv=[VENV_PY, os.path.join(VERIF, "src", "pydrv.py")]))
        self.all, self.now, self.locked = [], {}, {}
        self.nh = 0
        self.dbs = [dict(DBK, expver=self.r.choice(POOL["expver"]), date=self.r.choice(POOL["date"]), time=self.r.choice(POOL["time"])) for _ in range(self.r.choice([1, 2, 3]))]
        self.trace = []

    def fail(self, sig, msg):
        raise Violation(sig, msg, trace=self.trace[-40:])

    def key(self, db=None):
        k = dict(db or self.r.choice(self.dbs), levtype="pl")
        for n in ("type", "step", "levelist", "param"):
            k[n] = self.r.choice(POOL[n])
        return k

    # ---------------------------------------------------------------- both sides
    def handle(self):
        self.nh += 1
        h = f"h{self.nh}"
        self.cc.ok({"op": "open", "h": h, "config": self.cfg})
        self.pyopen(h)
        return h

    def pyopen(self, h):
        op = {"op": "open", "h": h, "config": self.cfg, "form": self.r.choice(["str", "dict", "path"])}
        if self.r.random() < .2:
            op["user"] = {"useSubToc": True}
        self.py.ok(op)

    def p(self, op):
        self.trace.append(op)
        return self.py.do(op)

    def select(self, keys, partial=True):
        """a selection covering the given names of keys drawn from the store: (in pyfdb's terms, as name -> values)"""
        r = self.r
        names = [n for n in ORDER if not partial or r.random() < .6]
        base = r.choice(keys) if keys and r.random() < .93 else self.key(dict(DBK, expver="zzzz", date="20210101", time="1200"))
        vals = {}
        for n in names:
            vs = {base[n]}
            if n in POOL and n not in ("type", "expver") and r.random() < .4:      # several of these are refused by the MARS language
                vs |= set(r.sample(POOL[n], r.randrange(1, len(POOL[n]) + 1)))
            vals[n] = sorted(vs, key=lambda v: (len(v), v))
        s, forms = {}, set()
        for n, vs in vals.items():
            form = r.choice(["str", "list", "num", "nums", "range"])
            plain = n in ("step", "levelist", "param", "date")      # survives as a number
            if n == "step" and form == "range" and vs == ["0", "6", "12"]:
                s[n] = "0/to/12/by/6"
            elif form in ("str", "range"):
                s[n] = "/".join(vs)
                form = "str"
            elif form == "num" and len(vs) == 1 and plain:
                s[n] = int(vs[0])
            elif form == "nums" and plain:
                s[n] = [int(v) if r.random() < .6 else v for v in vs]
            else:
                form = "list"
                s[n] = list(vs)
            forms.add(form)
        items = list(s.items())
        r.shuffle(items)
        return dict(items), vals, tuple(sorted(forms))

    def request(self, vals, h):
        return {"h": h, "req": [[n, v] for n, v in vals.items()]} if vals else {"h": h, "all": True}

    def holds(self, k, vals):
        return all(k[n] in v for n, v in vals.items())

    # ---------------------------------------------------------------- questions
    def ask(self, o, h=None):
        r = self.r
        own = h is None
        h = h or self.handle()
        keys = [k for k, _ in self.all] or [self.key()]
        sel, vals, forms = self.select(keys, o not in ("inspect", "retrieve"))
        if o in ("status", "control", "wipe"):
            sel, vals = ({n: v for n, v in x.items() if n in L1} for x in (sel, vals))
        if o == "purge":
            sel, vals = ({n: v for n, v in x.items() if n in L1} for x in (sel, vals))
        op = {"op": o, "h": h, "sel": sel, "cont": r.choice(["list", "tuple", "set", "keys"])}
        cop = dict({"op": o}, **self.request(vals, h))
        if own and r.random() < .5:
            op["drop"] = r.choice(["early", "late"])
        if o == "list":
            op["level"] = cop["level"] = r.choice([1, 2, 3, 3])
            if r.random() < .7:
                op["masked"] = r.random() < .5
            cop["mode2"] = "full" if op.get("masked") else "dedup"
        if o in ("list", "inspect"):
            op["read"] = r.random() < .5
            op["chunk"] = r.choice([1, 7, 1024, 100000])
        if o == "axes":
            if r.random() < .8:
                op["level"] = cop["level"] = r.choice([1, 2, 3])
        changes = False
        if o == "control":
            op["action"] = cop["action"] = r.choice(["enable", "disable"])
            op["ids"] = cop["ids"] = r.sample(["list", "retrieve", "archive", "wipe", "uniqueroot"], r.randrange(1, 4))
            changes = True
        if o in ("wipe", "purge"):
            op["how"] = {"doit": False}
            if o == "wipe" and r.random() < .3:
                op["how"]["porcelain"] = cop["porcelain"] = True
            if o == "purge" and r.random() < .3:
                op["how"]["porcelain"] = cop["porcelain"] = True
        b = self.cc.do(cop) if not changes or r.random() < .5 else None
        a = self.p(op)
        if b is None:
            b = self.cc.do(cop)
        self.same(o, a, b, op, vals)
        if o == "list" and "err" not in a:
            self.listed(a["items"], vals, op)
        n = len(a.get("items", a.get("axes", ())))
        self.res.saw((o, forms, op.get("drop"), min(n, 4), op.get("level"), op.get("masked"), "err" in a))
        self.res.count("answers compared")
        if own:
            self.done(h, "drop" in op)

    def done(self, h, dropped=False):
        self.cc.ok({"op": "close", "h": h})
        if not dropped:
            self.py.ok({"op": "close", "h": h})

    def norm(self, o, side, x):
        if o in ("list", "inspect"):
            if side == "py":
                k = {n: v for l in x["k"] for n, v in l}
                if k != x["ck"]:
                    self.fail("combined-key", f"keys() {x['k']} but combined_key() {x['ck']}")
                if "none" in x and x["none"] != [None, None, True, True]:
                    self.fail("no-location", f"{x}")
                return ([[sorted(map(tuple, l)) for l in x["k"]], x.get("uri"), x.get("off"), x.get("len")])
            return [[sorted(map(tuple, l)) for l in x["k"]], x.get("path"), x.get("off"), x.get("len")]
        path = lambda u: u.split("//", 1)[1] if "//" in u else u.split(":", 1)[1] if ":" in u.split("/")[0] else u
        if o in ("status", "control"):
            key = {n: v for n, v in x["key"].items()} if side == "py" else {n: [v] for n, v in x["key"]}
            ids = set(x["ids"])           # fdbdrv gives what is allowed, pyfdb what is not
            return [sorted(key.items()), path(x["loc"]), sorted(ids if side == "py" else set(IDS) - ids)]
        if o == "wipe":
            t = {"error": "ERROR", "info": "CATALOGUE_INFO", "catalogue": "CATALOGUE", "index": "CATALOGUE_INDEX", "catalogue-safe": "CATALOGUE_SAFE", "control": "CATALOGUE_CONTROL",
                 "store": "STORE", "aux": "STORE_AUX", "store-safe": "STORE_SAFE", "unknown": "UNKNOWN"}
            return [x["type"] if side == "py" else t[x["type"]], x["msg"], sorted(path(u) for u in x["uris"])]
        return {n: x[n] for n in ("index", "db")} if o == "stats" else x

    def same(self, o, a, b, op, vals):
        if ("err" in a) != ("err" in b):
            self.fail(o + "-outcome", f"{op}: pyfdb {str(a)[:500]}, C++ {str(b)[:500]}")
        if "err" in a:
            return
        if o == "axes":
            x, y = a["axes"], {k: sorted(v) for k, v in b["axes"].items()}
        else:
            x = sorted((self.norm(o, "py", i) for i in a["items"]), key=repr)
            y = sorted((self.norm(o, "cc", i) for i in b["items"]), key=repr)
        if x != y:
            if os.environ.get("VF_DBG"): print("DBG", x, y, sep="\n")
            self.fail(o + "-answer", f"{op}: pyfdb {short(x)} | C++ {short(y)}")

    def tup(self, k):
        return tuple(k[n] for n in ORDER)

    def listed(self, items, vals, op):
        """against what was archived"""
        lv = op["level"]
        if any("list" in v for v in self.locked.values()):
            return
        if lv == 3:
            if op.get("masked"):
                exp = sorted(self.tup(k) for k, b in self.all if self.holds(k, vals))
            else:
                exp = sorted({self.tup(k) for k, b in self.all if self.holds(k, vals)})
            got = sorted(self.tup(i["ck"]) for i in items)
            if got != exp:
                self.fail("list-content", f"{op}: {short(got)}, archived {short(exp)}")
            if op["read"]:
                for i in items:
                    ok = [b.hex() for k, b in self.all if self.tup(k) == self.tup(i["ck"])]
                    if not op.get("masked"):
                        ok = ok[-1:]
                    if i["hex"] not in ok or len(i["hex"]) != 2 * i["len"]:
                        self.fail("list-data", f"{op}: {i['ck']}: {short(i['hex'], 60)}… of {len(i['hex']) // 2} bytes")

    def retrieve(self):
        r = self.r
        h = self.handle()
        keys = [k for k, _ in self.all] or [self.key()]
        sel, vals, forms = self.select(keys, False)
        hits = {self.tup(k): b for k, b in self.all if self.holds(k, vals)}
        op = {"op": "retrieve", "h": h, "sel": sel, "cont": r.choice(["list", "tuple", "set", "keys"])}
        a = self.p(dict(op, reads=[["readall"] + r.choice([[], [1], [1000], [1 << 20]])]))
        b = self.cc.do(dict({"op": "retrieve", "mode": "hex"}, **self.request(vals, h)))
        if ("err" in a) != ("err" in b):
            self.fail("retrieve-outcome", f"{op}: pyfdb {str(a)[:500]}, C++ {str(b)[:500]}")
        if "err" in a:
            return self.done(h)
        T = bytes.fromhex(a["res"][0]) if isinstance(a["res"][0], str) else self.fail("readall", f"{op}: {a['res']}")
        if len(T) != len(b["hex"]) // 2:
            self.fail("retrieve-bytes", f"{op}: pyfdb {len(T)} bytes, C++ {len(b['hex']) // 2}")
        left, pos = list(hits.values()), 0
        while pos < len(T):
            m = next((x for x in left if T.startswith(x, pos)), None)
            if m is None:
                self.fail("retrieve-data", f"{op}: byte {pos} starts none of the fields expected")
            left.remove(m)
            pos += len(m)
        if left:
            self.fail("retrieve-lacks", f"{op}: {len(left)} fields of {len(hits)} missing")
        # any pattern of reads
        reads, S = [], len(T)
        opened = False
        for _ in range(r.randrange(3, 12)):
            u = r.random()
            if u < .15:
                reads.append(["open"])
            elif u < .22:
                reads.append(["close"])
            elif u < .3:
                reads.append(["size"])
            elif u < .37:
                reads.append(["readall", r.choice([1, 3, 1024, 1 << 18])])
            elif u < .42:
                reads.append(["read"])
            elif u < .52:
                reads.append(["readhow", r.choice(["bytes", "array", "every", "back", "cut"]), r.choice([1, 2, 16, 1000])])
            elif u < .75:
                reads.append(["read", r.choice([1, 2, 17, 100, 1000, max(S, 1), S + 5])])
            else:
                reads.append(["readinto", r.choice([1, 5, 64, 999, 5000, max(S, 1), S + 3])])
        reads = [["open"]] * (r.random() < .8) + reads
        if r.random() < .5:
            op["drop"] = True
        a = self.p(dict(op, reads=reads))
        if "err" in a:
            self.fail("retrieve-again", f"{op}: {a}")
        opened, pos = False, 0
        for rd, x in zip(reads, a["res"]):
            bad = None
            err = isinstance(x, dict)
            if rd[0] == "open":
                if not opened:
                    opened, pos = True, 0
                bad = err
            elif rd[0] == "close":
                opened = False
                bad = err
            elif rd[0] == "size":
                if S:
                    bad = x != S
            elif rd[0] == "readall":
                if not opened:
                    pos = 0
                bad = err or bytes.fromhex(x) != T[pos:]
                opened = False
            elif rd[0] == "readhow" and rd[1] == "bytes":
                bad = not err or x.get("changed")       # an object that cannot be changed is not
            elif rd[0] == "readhow" and opened:
                if not err:               # filled with what comes next, and nothing else touched; or refused before anything is read
                    n = len(x[1]) // 2
                    want = T[pos:pos + x[0]]
                    bad = len(want) != x[0] or not want and pos < S or bytes.fromhex(x[1])[:x[0]] != want or (len(x) > 2 and not x[2])
                    pos += x[0]
            elif not opened:
                bad = not err          # documented: RuntimeError
            elif rd[0] == "read":
                if S:
                    want = T[pos:pos + (rd[1] if len(rd) > 1 else S)]
                    n = min(rd[1] if len(rd) > 1 else S, S)
                    bad = err or (bytes.fromhex(x) != (want + bytes(n - len(want)) if want else b""))
                    pos += len(want)
            else:
                want = T[pos:pos + rd[1]]
                bad = err or x[0] != len(want) or bytes.fromhex(x[1])[:len(want)] != want or set(bytes.fromhex(x[1])[len(want):]) - {0xA5}
                pos += len(want)
            if bad:
                self.fail("read-pattern", f"{op}: {reads}: {rd} at {pos} of {S} gave {short(x, 200)}")
        self.res.saw(("retrieve", forms, min(len(hits), 4), tuple(sorted({x[1] if x[0] == "readhow" else x[0] for x in reads})), op.get("drop")))
        self.res.count("handles read")
        self.done(h, "drop" in op)

    # ---------------------------------------------------------------- changes
    def archive(self):
        r = self.r
        side = r.choice(["py", "py", "cc"])
        d = self.py if side == "py" else self.cc
        h = "w"
        d.ok({"op": "open", "h": h, "config": self.cfg}) if side == "cc" else self.pyopen(h)
        new = []
        for _ in range(r.randrange(1, 6)):
            k = self.key()
            if any(self.tup(k) == self.tup(x) for x, _ in new):
                continue               # replaced within a session: never listed
            if r.random() < .12 and side == "py":
                hexa = self.cc.ok({"op": "grib", "sample": f"regular_ll_pl_grib{r.choice([1, 2])}", "seed": r.randrange(1 << 40),
                                   "set": [["setLocalDefinition", 1]] + [[G.get(n, n), int(k[n]) if n in G else k[n]] for n in ORDER if n not in ("domain", "levtype")]})["hex"]
                d.ok({"op": "archive", "h": h, "hex": hexa})
                self.trace.append(["grib", k])
            else:
                hexa = r.randbytes(r.choice([16, 17, 100, 1000, 4096, 20000])).hex()
                pairs = [[n, k[n]] for n in ORDER]
                op = {"op": "archive", "h": h, "hex": hexa, "key": pairs}
                if side == "py":
                    r.shuffle(pairs)
                    op["aslist"] = r.random() < .5
                else:
                    op = {"op": "archive", "h": h, "key": pairs, "hex": hexa}
                self.trace.append([side, "archive", k, len(hexa) // 2])
                d.ok(op)
            new.append((k, bytes.fromhex(hexa)))
        if side == "py":
            if self.p({"op": "dirty", "h": h}) != {"dirty": True}:
                self.fail("dirty", "dirty() is false after archive")
        d.ok({"op": "flush", "h": h, "with": r.random() < .5} if side == "py" else {"op": "flush", "h": h})
        if side == "py" and self.p({"op": "dirty", "h": h}) != {"dirty": False}:
            self.fail("dirty", "dirty() after flush")
        d.ok({"op": "close", "h": h})
        self.all += new
        self.res.count("fields archived", len(new))
        self.res.saw(("archive", side))

    def refused(self):
        """what pyfdb says must be refused is, without effect"""
        r = self.r
        h = self.handle()
        k = self.key()
        kind = r.choice(["missing", "list", "slash", "twice", "type", "level", "map"])
        pairs = [[n, k[n]] for n in ORDER]
        if kind == "missing":
            pairs = [x for x in pairs if x[0] != r.choice(["expver", "param", "step", "type"])]
            if len(pairs) == len(ORDER):
                return self.done(h)
            a = self.p({"op": "archive", "h": h, "hex": "00" * 20, "key": pairs, "aslist": True})
            b = self.cc.do({"op": "archive", "h": h, "hex": "00" * 20, "key": pairs})
            if "err" not in a or "err" not in b:
                self.fail("accepted", f"identifier without a key the schema needs: pyfdb {a}, C++ {b}")
        elif kind == "list":
            a = self.p({"op": "archive", "h": h, "hex": "00" * 20, "key": [[n, [v] if n == "step" else v] for n, v in pairs], "aslist": True})
        elif kind == "slash":
            a = self.p({"op": "archive", "h": h, "hex": "00" * 20, "key": [[n, "0/6" if n == "step" else v] for n, v in pairs]})
        elif kind == "twice":
            a = self.p({"op": "archive", "h": h, "hex": "00" * 20, "key": pairs + [["step", "6"]], "aslist": True})
        elif kind == "map":
            a = self.p({"op": "list", "h": h, "level": 3, "sel": {"class": {"rd": 1}}})
        elif kind == "type":
            a = self.p({"op": "list", "h": h, "level": 3, "sel": {"class": None}})
        else:
            a = self.p({"op": "list", "h": h, "level": 3, "sel": {"nosuchkeyword": "1"}})
        if "err" not in a:
            self.fail("accepted", f"{kind}: {a}")
        self.res.saw(("refused", kind, a["err"]))
        for d in (self.cc, self.py):
            d.do({"op": "flush", "h": h})
        self.done(h)

    def remove(self):
        """purge or wipe done through pyfdb: the store then holds what it should, as C++ sees it"""
        r = self.r
        h = self.handle()
        if r.random() < .6:
            a = self.p({"op": "purge", "h": h, "sel": {}, "how": {"doit": True}})
            if "err" in a:
                self.fail("purge", f"{a}")
            last = {}
            for k, b in self.all:
                last[self.tup(k)] = (k, b)
            b = self.cc.ok({"op": "list", "h": h, "all": True, "mode2": "dedup", "read": True})
            if sorted(self.tup(dict(itertools.chain.from_iterable(map(lambda l: map(tuple, l), i["k"])))) for i in b["items"]) != sorted(last):
                self.fail("purge-content", "purge through pyfdb changed what the store answers")
            # masked fields in files shared with current ones stay
            b = self.cc.ok({"op": "list", "h": h, "all": True, "mode2": "full", "read": True, "md5": True})
            import hashlib
            there = {(self.tup(dict(itertools.chain.from_iterable(map(lambda l: map(tuple, l), i["k"])))), i.get("md5")) for i in b["items"]}
            self.all = [(k, x) for k, x in self.all if (self.tup(k), hashlib.md5(x).hexdigest()) in there]
            self.res.saw(("purge", "doit"))
        else:
            db = r.choice(self.dbs)
            a = self.p({"op": "wipe", "h": h, "sel": {n: db[n] for n in L1}, "how": {"doit": True}})
            if "err" in a:             # (files of a refused archive are in the way)
                b = self.cc.do({"op": "wipe", "h": h, "req": [[n, [db[n]]] for n in L1], "doit": True})
                if "err" not in b:
                    self.fail("wipe", f"{a}, C++ {b}")
                return self.done(h)
            b = self.cc.ok({"op": "list", "h": h, "req": [[n, [db[n]]] for n in L1], "mode2": "full"})
            if b["items"]:
                self.fail("wipe-left", f"{len(b['items'])} fields left after wipe through pyfdb")
            self.all = [(k, x) for k, x in self.all if any(k[n] != db[n] for n in L1)]
            self.res.saw(("wipe", "doit"))
        self.done(h)

    def unlock(self):
        h = self.handle()
        for act in ("enable",):
            a = self.p({"op": "control", "h": h, "sel": {}, "action": act, "ids": ["list", "retrieve", "archive", "wipe", "uniqueroot"]})
            if "err" in a:
                self.fail("control", f"{a}")
        b = self.cc.ok({"op": "status", "h": h, "all": True})
        for i in b["items"]:
            if len(i["ids"]) != 5:
                self.fail("control-effect", f"all enabled through pyfdb, C++ sees {i}")
        x = self.p({"op": "enabled", "h": h})
        y = self.cc.ok({"op": "enabled", "h": h})
        if x != {k: v for k, v in y.items()}:
            self.fail("enabled", f"{x} | {y}")
        self.done(h)


def run(cs, wd, res):
    b = Both(cs, wd, res)
    r = b.r
    b.archive()
    for _ in range(cs["steps"]):
        u = r.random()
        if u < .14:
            b.archive()
        elif u < .40:
            b.ask("list")
        elif u < .62:
            b.retrieve()
        elif u < .92:
            o = r.choice(["inspect", "axes", "status", "stats", "wipe", "purge", "control"])
            b.ask(o)
            if o == "control":
                for q in ("list", "status", "wipe"):
                    b.locked = {"x": ["list"]}
                    b.ask(q)
                b.unlock()
                b.locked = {}
        elif u < .97:
            b.refused()
        else:
            b.remove()
    for d in (b.cc, b.py):
        d.quit()


ensure("plain", ("fdbdrv", "pybind"))
c.run(run, [{"n": i, "steps": c.n(30, 40), "seed": c.seed} for i in range(c.n(160, 900))])
c.finish(100)
