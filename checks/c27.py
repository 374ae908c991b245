import sys, os, hashlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *
from vf.profiles import history
from vf.remote import *
from vf.reads import script, judge

c = Check("C27", "monitored",
          "Histories in which every handle is opened through the C or the C++ interface at random, compared with the model; the same refused calls through both, with the same "
          "outcome and text, and the C handle used afterwards; programs of open, read, seek, skip, tell, size and close on C data readers, fresh, reused and without data, with guard "
          "bytes behind the buffer; every pointer argument missing once; wipe and purge through both; flushes that fail while a handle is deleted; threads that fail at the same time. "
          "Every call's code, error text and calls of the failure handler are checked for consistency. AddressSanitizer and UBSan in a quarter of the cases. distinct = (call, interface, outcome)",
          ["A split key is used while its list iterator exists and has not moved on."])


class CWorld(World):
    forC = False
    writersC = 0.7

    def open_op(self, h):
        op = super().open_op(h)
        if h[0] == "w" and self.rng.random() < self.writersC or h[0] == "q" and self.forC:
            op["c"] = True
            if self.rng.random() < .2 and not self.user:
                op["user"] = "{}"
        return op

    def _c(self, fn, *a, **kw):
        self.forC = self.rng.random() < .7
        try:
            return fn(*a, **kw)
        finally:
            self.forC = False

    def check_list(self, request, mode="full", h=None, read=True):
        if mode == "onlydup" or h:
            return super().check_list(request, mode, h, read)
        return self._c(super().check_list, request, mode, h, read)

    def check_depth(self, *a):
        return self._c(super().check_depth, *a)

    def check_retrieve(self, *a, **kw):
        return self._c(super().check_retrieve, *a, **kw)

    # ------------------------------------------------------------------
    def refused(self):
        """calls that fail: the same way through both, and the handle goes on working"""
        r = self.rng
        k = self.ks.key()
        n = r.choice(list(k))
        cases = [
            ("archive-lacks-key", {"op": "archive", "key": keylist({a: b for a, b in k.items() if a != "class"}), "seed": 1, "len": 16}),
            ("archive-unknown-key", {"op": "archive", "key": keylist(dict(k, nonsense="1")), "seed": 1, "len": 16}),
            ("archive-no-key", {"op": "archive", "key": [], "seed": 1, "len": 16}),
            ("archive-garbage", {"op": "archive_file", "file": self.garbage()}),
            ("list-bad-date", {"op": "list", "req": [["date", ["nodate"]]], "level": 3}),
            ("list-bad-levels", {"op": "list", "req": [["class", ["od"]], ["date", ["2020x"]]], "level": r.choice([1, 2, 3])}),
            ("retrieve-nothing", {"op": "retrieve", "req": [["class", ["od"]]]}),
            ("retrieve-bad-date", {"op": "retrieve", "req": req({**{a: [b] for a, b in k.items()}, "date": ["oops"]})}),
            ("wipe-overspecified", {"op": "wipe", "req": req({a: [b] for a, b in k.items()}), "doit": False}),
            ("purge-overspecified", {"op": "purge", "req": req({a: [b] for a, b in k.items()}), "doit": False}),
        ]
        name, op = r.choice(cases)
        res = []
        for cc in (False, True):
            self.nfresh += 1
            h = f"f{self.nfresh}"
            o = dict(World.open_op(self, h), c=cc)
            self.ok(o)
            a = self.do(dict(op, h=h))
            if cc:
                self.contract(a, op)
                if not name.startswith("archive"):     # the handle is usable afterwards
                    full_ = self.ok({"op": "list", "h": h, "all": True, "level": 3, "mode2": "full", "read": True})
                    self.expect("list-full", self.rows(full_["items"], "list"), self.model.list({}), f"list after {name}")
                else:
                    q = self.ok({"op": "flush", "h": h})
                    b = self.do(dict(op, h=h))
                    if ("err" in a) != ("err" in b):
                        self.fail(f"refusal-repeated:{name}", f"{short(op)}: first {short(a)}, then {short(b)}")
            res.append(a)
            self.ok({"op": "close", "h": h})
        if ("err" in res[0]) != ("err" in res[1]):
            self.fail(f"refusal:{name}", f"{short(op)}: C++ {short(res[0])}, C {short(res[1])}")
        if "err" in res[0] and name != "archive-garbage" and res[0]["what"] != res[1]["what"]:
            self.fail(f"error-text:{name}", f"{short(op)}: C++ {short(res[0])}, C {short(res[1])}")
        if "err" not in res[0] and name in ("wipe-overspecified", "purge-overspecified", "list-bad-date", "list-bad-levels"):
            a, b = ([i["msg"] if isinstance(i, dict) and "msg" in i else str(i.get("k") if isinstance(i, dict) else i) for i in x["items"]] for x in res)
            if a != b:
                self.fail(f"answer:{name}", f"{short(op)}: C++ {a}, C {b}")
        # the databases an archive in vain leaves
        if name.startswith("archive") and "err" in res[0]:
            self.model.created.add(parts(k, self.model.rule_of)[0])
        self.res.saw(("refused", name, "err" in res[0], self.tag))
        self.res.count("refusals", "err" in res[0])

    def garbage(self):
        p = os.path.join(self.wd, "garbage.bin")
        with open(p, "wb") as f:
            f.write(self.rng.choice([b"GRIB" + os.urandom(60), os.urandom(100), b"GRIB\0\0\x40\1" + b"\0" * 56 + b"7777", b"x"]))
        return p

    def contract(self, a, op):
        if isinstance(a, dict) and a.get("err") == "contract":
            self.fail("contract", f"{short(op)}: {a['what']}")

    def do(self, op, timeout=60, d=None):
        a = super().do(op, timeout, d)
        self.contract(a, op)
        return a

    def readers(self):
        """programs on readers"""
        r = self.rng
        q = self.rand_full(1.0)
        self.nfresh += 1
        h, keep = f"f{self.nfresh}", f"r{r.randrange(3)}"
        self.ok(dict(World.open_op(self, h), c=True))
        op = {"op": "retrieve", "h": h, "req": req(q), "slashes": r.random() < .3}
        got = self.ok(op)
        rec = self.recs(got, "retrieve", "C retrieve")
        data = b"".join(payload(*x) for x in rec)
        bounds = [0]
        for x in rec:
            bounds.append(bounds[-1] + x[1])
        self.ok(dict(op, keep=keep, reuse=keep))      # perhaps over the former contents of the reader
        early = r.random() < .5
        if early:
            self.ok({"op": "close", "h": h})        # the reader outlives the handle
        seekable = "FDB_SEEKABLE_DATA_HANDLE" in self.env
        sc = [s for s in script(self, len(data), bounds, "C", seekable, r.choice([3, 10, 30])) if s[0] not in ("copy", "est", "rewind") and (seekable or s[0] != "seek")]
        rs = self.ok({"op": "creader", "keep": keep, "script": sc, "free": r.random() < .5})["r"]
        # seek answers with no position through this interface
        rs = [s[1] if s[0] == "seek" and a is None else a for s, a in zip(sc, rs)]
        judge(self, "C", f"C reader of {short(q)}", sc, rs, data, not seekable, False)
        if not early:
            self.ok({"op": "close", "h": h})
        self.res.saw(("reader", seekable, early, min(len(rec), 3), self.tag))

    def disorder(self):
        """readers used in any order: errors at most"""
        r = self.rng
        sc = [[r.choice(["open", "close", "pos", "size", "read", "seek", "skip"]), r.choice([0, 1, 16, 100, 5000])] for _ in range(12)]
        sc = [[a] if a in ("close", "pos", "size") else ["open", 0] if a == "open" else [a, b] for a, b in sc]
        if r.random() < .3:
            rs = self.ok({"op": "creader", "script": sc})["r"]
            for s, a in zip(sc, rs):
                if not isinstance(a, dict):
                    self.fail("reader-without-data", f"{s} on a reader without data gives {a}")
        else:
            # FileHandle and friends want to be open; only what follows an open is judged elsewhere
            self.nfresh += 1
            h = f"f{self.nfresh}"
            self.ok(dict(World.open_op(self, h), c=True))
            self.ok({"op": "retrieve", "h": h, "req": req(self.rand_full(1.0)), "keep": "dis"})
            rs = self.ok({"op": "creader", "keep": "dis", "script": [["open"]] + [s for s in sc if s[0] not in ("open",)], "free": True})["r"]
            if any(isinstance(a, list) and len(a) > 2 for a in rs):
                self.fail("overrun:C", f"{sc} -> {rs}")
            self.ok({"op": "close", "h": h})
        self.res.count("disorders")

    def requests(self):
        r = self.rng
        want = {}
        for n in r.sample(["class", "type", "step", "levelist", "param", "expver", "date"], r.randint(1, 5)):
            want[n] = [r.choice({"class": ["od", "rd"], "type": ["an", "fc"], "step": ["0", "6", "24"], "levelist": ["1000", "500"], "param": ["130", "131"],
                                 "expver": ["0001", "xxxx"], "date": ["20200101", "20191231"]}[n]) for _ in range(r.choice([1, 1, 2, 3]))]
        a = self.ok({"op": "creq", "h": "none", "req": [[n, v] for n, v in want.items()], "slashes": r.random() < .5, "names": list(want)})["values"]
        if a != want:
            self.fail("request-values", f"{want} reads back as {a}")
        for lst, exp in ((("0", "to", "12", "by", "6"), ["0", "6", "12"]), (("1", "to", "3", "by", "1"), ["1", "2", "3"])):
            a = self.ok({"op": "creq", "h": "none", "req": [["class", ["od"]], ["type", ["fc"]], ["step", list(lst)]], "slashes": r.random() < .5, "expand": True, "names": ["step", "class"]})["values"]
            if a["step"] != exp or a["class"] != ["od"]:
                self.fail("request-expansion", f"step={lst} expands to {a}")
        self.res.count("requests")

    def iterators(self):
        """a listing goes on without its handle; a listing may be left before its end"""
        r = self.rng
        q = self.rand_request() if r.random() < .5 else {}
        for how in ({"closefirst": True}, {"max": r.randint(0, 5)}):
            self.nfresh += 1
            h = f"f{self.nfresh}"
            self.ok(dict(World.open_op(self, h), c=True))
            a = self.ok(dict({"op": "list", "h": h, "level": 3, "mode2": "full", "read": True}, **how, **({"req": req(q)} if q else {"all": True})))
            if "max" not in how:
                self.expect("list-full", self.rows(a["items"], "list"), self.model.list(q), f"list {q} whose handle is deleted")
            else:
                if a["n"] != min(how["max"], len(self.model.list(q))):
                    self.fail("list-left", f"{how} of {len(self.model.list(q))}: {a['n']}")
                self.ok({"op": "close", "h": h})
        self.res.count("iterators")

    def removals(self):
        """wipe and purge announce the same through both, and do it"""
        r = self.rng
        for h in list(self.handles):
            self.close(h)
        if not self.model.dbs:
            return
        db = r.choice(sorted(self.model.dbs, key=sorted))
        q = [[n, [v]] for n, v in sorted(db)]
        what = r.choice(["purge", "wipe", "purge"])
        others = {d for d in self.model.created if d != db and all(x in d for x in db)}
        if others:
            return
        op = {"op": what, "req": q, "porcelain": r.random() < .5}
        ans = []
        for cc in (False, True):
            self.nfresh += 1
            h = f"f{self.nfresh}"
            self.ok(dict(World.open_op(self, h), c=cc))
            a = self.ok(dict(op, h=h, doit=False))["items"]
            ans.append([i["msg"] if isinstance(i, dict) else i for i in a])
            if cc:
                self.ok(dict(op, h=h, doit=True))
            self.ok({"op": "close", "h": h})
        # porcelain wipes list files in the order of a set of URIs
        if sorted(ans[0]) != sorted(ans[1]):
            self.fail(f"{what}-announced", f"{short(op)}: C++ {short(ans[0])}, C {short(ans[1])}")
        if what == "wipe":
            self.model.dbs.pop(db)
            self.model.created.discard(db)
        else:
            self.purged(db)
        self.seen_locs.clear()
        self.files.clear()
        self.check_list({}, "dedup")
        self.res.saw((what, op["porcelain"], len(ans[0]) > 1, self.tag))

    def purged(self, db):
        """a purge may keep duplicates (in files that hold visible fields); C12 decides what it removes"""
        vis = {rec for p, rec in self.model.visible().items()}
        q = {n: [v] for n, v in db}
        h = self.fresh()
        for mode, exp in (("dedup", None), ("full", None)):
            got = collections.Counter(self.rows(self.ok({"op": "list", "h": h, "mode2": mode, "level": 3, "read": True, "req": req(q)})["items"], "list"))
            was = collections.Counter(self.model.list(q, mode))
            if got - was or (mode == "dedup" and was - got):
                self.fail("purge-changed", f"{mode}: new {got - was}, gone {was - got}")
        self.done(h)
        self.after_purge = True


def hist(cs, wd, res):
    k, seed = cs["n"], cs["seed"]
    r = rng_for("c27", seed, k)
    variant = "asan" if k % 4 == 1 else "plain"
    remote = k % 8 == 6
    if remote:
        w = remote_world(k // 8, wd, res, seed, variant=variant, cls=CWorld)
    else:
        name, env, roots = VARIANTS[k % len(VARIANTS)]
        kw = dict(ks=KeySpaceB(r), rule_of=rule_b, config=local_config(wd, roots, schema=SCHEMA_B)) if (k // len(VARIANTS)) % 2 and "FDB_DEDUPLICATE_FIELDS" not in env else \
            dict(ks=KeySpace(r), config=local_config(wd, roots))
        w = CWorld(r, wd, res, env=env, tag="C/" + name, variant=variant, **kw)
    extra = {"requests": lambda w: w.requests(), "iterators": lambda w: w.iterators(), "disorder": lambda w: w.disorder(), "readers": lambda w: w.readers(), "refused": lambda w: w.refused()}
    wt = dict(archive=45, flush=12, close=6, restart=1, list=9, depth=5, retrieve=9, inspect=1, axes=1, compact=0, immut=0, stats=0, requests=2, iterators=4, disorder=3, readers=7, refused=0 if remote else 7)
    if remote or "FDB_DEDUPLICATE_FIELDS" in w.env:
        wt["readers"] = wt["disorder"] = 0
    history(w, 70, wt, extra=extra)


def remove(cs, wd, res):
    r = rng_for("c27r", cs["seed"], cs["n"])
    w = CWorld(r, wd, res, tag="remove", config=local_config(wd, r.choice([1, 2])), variant="asan" if cs["n"] % 4 == 1 else "plain", lens=[16, 100])
    for _ in range(r.randint(5, 40)):
        h = f"w{r.randrange(2)}"
        if h not in w.handles:
            w.open(h)
        w.archive(h)
        if r.random() < .2:
            w.flush(h)
        if r.random() < .1:
            w.close(h)
    for h in list(w.handles):
        w.close(h)
    w.removals()
    w.end()


def nulls(cs, wd, res):
    """every pointer missing once"""
    w = CWorld(rng_for("c27n", cs["n"]), wd, res, tag="null", variant=cs["variant"])
    w.ok(dict(World.open_op(w, "n"), c=True))
    try:
        a = w.ok({"op": "cnull", "h": "n"})
    except DriverDied as e:
        last = re.findall(r"cnull (.*)", e.err)
        raise Violation(f"died:{last[-1] if last else '?'}", f"a process was ended by fdb_{last[-1] if last else '?'} with that argument missing")
    if a["bad"]:
        w.fail("missing-argument", f"calls with a missing argument: {a['bad']}")
    v = w.ok({"op": "cmisc", "h": "none"})
    if not v["v"][0] or v["s"] != ["Success", "Iteration complete", "<unknown>"]:
        w.fail("texts", str(v))
    for bad in ("[", "{a: [", "type: nosuch", "{type: select, fdbs: 3}"):
        b = w.do({"op": "open", "h": "x", "c": True, "config": bad})
        b2 = w.do({"op": "open", "h": "x2", "config": bad, "noexpand": True})
        if ("err" in b) != ("err" in b2):
            w.fail("bad-config", f"{bad!r}: C {short(b)}, C++ {short(b2)}")
        res.count("bad_configs", "err" in b)
    res.count("null_calls", a["n"])
    w.ok({"op": "close", "h": "n"})
    w.d.quit()


def failing(cs, wd, res):
    """a flush that fails, also while the handle is deleted"""
    r = rng_for("c27f", cs["seed"], cs["n"])
    w = CWorld(r, wd, res, tag="failing", lens=[16, 5000])
    pre = os.path.join(BUILD, "plain", "lib", "libiofault.so")
    d = track(Driver(wd, "plain", {"VF_IO": f"root={wd}/fdb-root0"}, "faulty", preload=pre))
    w.ok({"op": "open", "h": "g", "c": True, "config": w.config}, d=d)
    k = w.ks.key()
    arch = {"op": "archive", "h": "g", "key": keylist(k), "seed": 5, "len": 5000}
    w.ok(arch, d=d)
    if cs["n"] % 2:
        w.ok({"op": "flush", "h": "g"}, d=d)
        w.ok(dict(arch, seed=6), d=d)
    how = r.choice(["w:1:100000:5", "s:1:100000:5"])
    w.ok({"op": "io", "spec": "fault=" + how}, d=d)
    step = ("flush", "close") if cs["n"] % 3 else ("close",)
    try:
        for s in step:
            a = w.do({"op": s, "h": "g"}, d=d)
            if "err" not in a:
                w.fail(f"failure-unreported:{s}", f"{s} with {how}: {short(a)}")
            res.saw(("failing", s, how))
            break
        if step[0] == "flush":
            a = w.do({"op": "close", "h": "g"}, d=d)
        res.count("failing_closes")
        w.ok({"op": "cmisc", "h": "none"}, d=d)
    except DriverDied as e:
        raise Violation("delete-of-failing-handle-died", f"fdb_delete_handle of a handle whose flush fails ({how}, {step}) ended the process: {e.err[-600:]}")
    w.end()
    d.kill()


def threads(cs, wd, res):
    """calls failing at the same time: each thread is told its own error"""
    r = rng_for("c27t", cs["seed"], cs["n"])
    w = CWorld(r, wd, res, tag="threads", variant=cs["variant"])
    T = 6
    for t in range(T):
        w.ok(dict(World.open_op(w, f"t{t}"), c=True))
    w.ok({"op": "cthreads", "h": "none", "on": True})
    m = 150
    ops = [[{"op": "archive", "h": f"t{t}", "key": [["class", "od"], [f"own{t}x{'y' * r.randrange(60)}", "1"]], "seed": 1, "len": 16} for _ in range(m)] for t in range(T)]
    out = w.d.par(ops)
    for t in range(T):
        for a in out[t]:
            e = a[2]
            if e.get("err") != "C":
                w.fail("threads-contract", f"{short(e)}")
            if f"own{t}x" not in e["what"]:
                w.fail("error-text-of-another", f"thread {t} was told {e['what'][:300]}")
    res.count("concurrent_failures", T * m)
    w.ok({"op": "cthreads", "h": "none", "on": False})
    w.end()


def optional(cs, wd, res):
    """levels of the key in which nothing has a value"""
    r = rng_for("c27o", cs["seed"], cs["n"])
    w = CWorld(r, wd, res, tag="optional", config=local_config(wd, schema="[ class, expver [ type?, origin? [ name?, sub? ]]]"),
               rule_of=lambda k: (("class", "expver"), ("type", "origin"), ("name", "sub")), lens=[16, 40])

    class KS:
        def key(self, db=None):
            k = {"class": "od", "expver": "1"}
            for n in ("type", "origin", "name", "sub"):
                if r.random() < .4:
                    k[n] = r.choice(["an", "fc"])
            return k
    w.ks = KS()
    w.max_handles = 1
    for _ in range(3):
        w.open("w0")
        for _ in range(r.randint(1, 12)):
            w.archive("w0")
        w.close("w0")
        for m in ("full", "dedup"):
            w.check_list({}, m)
        for lv in (1, 2):
            w.check_depth({}, lv)
    w.end()


for v in ("plain", "asan"):
    ensure(v)
S = c.seed
c.run(nulls, [dict(n=0, variant="plain"), dict(n=1, variant="asan")])
c.run(failing, [dict(n=n, seed=S) for n in range(c.n(24, 200))])
c.run(threads, [dict(n=n, seed=S, variant=v) for n, v in enumerate(["plain", "asan", "plain"] * c.n(1, 20))])
c.run(optional, [dict(n=n, seed=S) for n in range(c.n(10, 100))])
c.run(hist, [dict(n=n, seed=S) for n in range(c.n(176, 6000))])
c.run(remove, [dict(n=n, seed=S) for n in range(c.n(40, 1000))])
c.finish(300)
