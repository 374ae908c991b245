import sys, os, hashlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *
from vf.profiles import history
from vf.tools import *

c = Check("C15", "monitored",
          "Histories of archiving, flushing, closing, re-indexing under other identifiers (API), fdb-overlay (several sources on one target, chains, --force, --remove), fdb-hide, fdb-reindex, "
          "purge and wipe of borrowers. The model keeps, per database, its indexes and mounts in order; listings in all modes, inspections, axes and retrievals are compared with it, the "
          "bytes being read from the location each element gives. Lenders' files must stay as they are. GRIB messages read through overlays must be the stored ones with exactly the "
          "differing keys changed. distinct = (operation, shape of the database, configuration)",
          ["Overlays are free of cycles; a removed or hidden overlay is not applied again (documented).", "Lenders are not wiped while they lend."])


class Mount:
    def __init__(self, src):
        self.src, self.masked = src, False


class OModel(Model):
    def walk(self, db):
        for e in self.dbs.get(db, []):
            if isinstance(e, Mount):
                if not e.masked:
                    yield from self.walk(e.src)
            else:
                yield e[0], e[1]

    def all(self):
        for db in list(self.dbs):
            for i, data in self.walk(db):
                for x, rec in data.items():
                    yield (db, i, x), rec

    def consolidate(self, session):
        for d, bs in self.dbs.items():
            mine = {}
            for b in bs:
                if not isinstance(b, Mount) and b[2] == session:
                    mine.setdefault(b[0], {}).update(b[1])
            if mine:
                self.dbs[d] = [b for b in bs if isinstance(b, Mount) or b[2] != session] + [[i, data, None] for i, data in mine.items()]

    def lends(self, a):
        return {d for d, es in self.dbs.items() for e in es if isinstance(e, Mount) and e.src == a}

    def reaches(self, a, b):
        return a == b or any(isinstance(e, Mount) and self.reaches(e.src, b) for e in self.dbs.get(a, []))

    def borrows(self, db):
        return any(isinstance(e, Mount) and not e.masked for e in self.dbs.get(db, []))


class KS:
    """databases that differ in class and expver, and some in the date"""

    def __init__(self, r):
        self.r = r
        self.dbs = [{"class": a, "expver": e, "stream": "oper", "date": d, "time": "1200"} for a in ("od", "rd") for e in ("0001", "xxxx") for d in ("20200101", "20200102")]
        self.steps = ["0", "6", "12"]

    def key(self, db=None):
        r = self.r
        k = dict(db or r.choice(self.dbs[:6] if r.random() < .8 else self.dbs))
        k.update(type=r.choice(["an", "fc"]), levtype=r.choice(["pl", "sfc"]), param=r.choice(["130", "131"]), step=r.choice(self.steps))
        if k["levtype"] == "pl":
            k["levelist"] = r.choice(["500", "1000"])
        return k


class OWorld(World):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.model = OModel(self.model.rule_of)
        self.applied = set()
        self.xs = {}
        self.adopted = set()        # databases whose data others refer to
        self.adopters = set()       # and those that refer to it

    def do(self, op, timeout=60, d=None):
        """the bytes of a listed field are those at its location: a borrowed one is changed on the way, if it is GRIB"""
        if op.get("op") in ("list", "inspect") and op.get("read"):
            r = super().do(dict(op, read=False), timeout, d)
            for i in r.get("items", []):
                if "path" not in i:
                    continue
                try:
                    with open(i["path"], "rb") as f:
                        f.seek(i["off"])
                        b = f.read(i["len"])
                except OSError as e:
                    self.fail("location-gone", f"{i['path']}: {e}")
                seed = int.from_bytes(b[8:16], "little") if b[:4] == b"VFP1" else 0
                i["n"] = len(b)
                i["rec"] = [[str(seed), len(b), 1 if b == payload(seed, len(b)) else 0]]
            return r
        return super().do(op, timeout, d)

    def check_retrieve(self, request, h=None, how="retrieve"):
        if any(self.model.borrows(p[0]) for p, _ in self.expected_retrieve(request)):
            return self.check_inspect(request)
        return super().check_retrieve(request, h, how)

    # ------------------------------------------------------------------
    def settle(self):
        """sub-toc writers put what they wrote at the end when they close"""
        if self.subtoc:
            for h in list(self.handles):
                self.close(h)

    def overlay(self):
        r = self.rng
        have = sorted((d for d in self.model.dbs if d in self.model.created), key=sorted)
        if not have:
            return
        src = r.choice(have)
        targets = [frozenset(k.items()) for k in self.ks.dbs]
        targets = [t for t in targets if t != src and {x for x in t if x[0] not in ("class", "expver")} == {x for x in src if x[0] not in ("class", "expver")}]
        if r.random() < .1:
            bad = [frozenset(k.items()) for k in self.ks.dbs if frozenset(k.items()) not in targets and frozenset(k.items()) != src]
            rc, out = tool(self, "fdb-overlay", reqarg(dict(src)), reqarg(dict(r.choice(bad))), "--force")
            if rc == 0:
                self.fail("overlay-of-other-keys", out[-500:])
            return
        tgt = r.choice(targets)
        if (src, tgt) in self.applied or self.model.reaches(src, tgt):
            return
        self.settle()
        exists = tgt in self.model.created
        force = r.random() < .9 if exists else r.random() < .2
        rc, out = tool(self, "fdb-overlay", reqarg(dict(src)), reqarg(dict(tgt)), *(["--force"] if force else []))
        if exists and not force:
            if rc == 0:
                self.fail("overlay-unforced", f"{fmt2(src)} on existing {fmt2(tgt)}: {out[-500:]}")
            return
        if rc:
            self.fail("overlay-refused", f"{fmt2(src)} on {fmt2(tgt)}: {out[-1000:]}")
        self.applied.add((src, tgt))
        self.model.created.add(tgt)
        self.model.dbs.setdefault(tgt, []).append(Mount(src))
        self.res.count("overlays")
        self.res.saw(("overlay", exists, self.model.borrows(src), len(self.model.dbs[tgt]), self.tag))
        self.sweep(tgt)

    def remove(self):
        r = self.rng
        ms = [(t, e) for t in sorted(self.model.dbs, key=sorted) for e in self.model.dbs[t] if isinstance(e, Mount)]
        if not ms:
            return
        t, e = r.choice(ms)
        self.settle()
        rc, out = tool(self, "fdb-overlay", "--remove", reqarg(dict(e.src)), reqarg(dict(t)))
        if e.masked:
            if rc == 0:
                self.fail("remove-twice", f"{fmt2(e.src)} from {fmt2(t)}: {out[-500:]}")
            return
        if rc and not any(data for _, data in self.model.walk(e.src)):
            return      # the source shows nothing now, and so counts as not mounted
        if rc:
            self.fail("remove-refused", f"{fmt2(e.src)} from {fmt2(t)}: {out[-1000:]}")
        e.masked = True
        self.res.count("removals")
        self.res.saw(("remove", sum(isinstance(x, Mount) and not x.masked for x in self.model.dbs[t]), len(self.model.dbs[t]), self.tag))
        self.sweep(t)

    def hide(self):
        r = self.rng
        dbs = sorted(self.model.created, key=sorted)
        if not dbs:
            return
        db = r.choice(dbs)
        self.settle()
        doit = r.random() < .8
        rc, out = tool(self, "fdb-hide", reqarg(dict(db)), *(["--doit"] if doit else []))
        if rc:
            self.fail("hide-refused", f"{fmt2(db)}: {out[-1000:]}")
        if doit:
            for e in self.model.dbs.get(db, []):
                if isinstance(e, Mount):
                    e.masked = True
            # what is hidden stays so; mounts are remembered as masked
            self.model.dbs[db] = [e for e in self.model.dbs.get(db, []) if isinstance(e, Mount)]
        self.res.count("hidden", doit)
        self.res.saw(("hide", doit, self.model.borrows(db), self.tag))
        self.sweep(db)

    def reindex(self):
        r = self.rng
        vis = sorted(self.model.visible(), key=repr)
        vis = [p for p in vis if not self.model.borrows(p[0])]
        if not vis:
            return
        p = r.choice(vis)
        q = {n: [v] for n, v in full(p).items()}
        if r.random() < .5:
            for n in r.sample(["step", "param", "type"], r.randint(1, 2)):
                q[n] = {"step": self.ks.steps, "param": ["130", "131"], "type": ["an", "fc"]}[n]
        change = {n: v for n, v in (("expver", r.choice(["0001", "xxxx", "yyyy"])), ("class", r.choice(["od", "rd"])), ("type", r.choice(["an", "fc"])), ("step", r.choice(["24", "6"]))) if r.random() < .5}
        rows = self.expected_retrieve(q)
        new = {}
        self.adopted |= {pp[0] for pp, _ in rows}
        for pp, rec in rows:
            k = dict(full(pp), **change)
            if tuple(sorted(k.items())) in new:
                return      # two fields would come to one place, in an order of their own
            new[tuple(sorted(k.items()))] = rec
        f = self.fresh()
        h = f"x{r.randrange(2)}" if not self.subtoc else "x0"
        if h not in self.xs:
            self.settle()
            self.ok(self.open_op(h))
            self.nsession += 1
            self.session[h] = self.nsession
            self.xs[h] = self.model.pending()
        a = self.ok({"op": "reindex", "h": h, "from": {"h": f, "req": req(q)}, "set": [[n, v] for n, v in change.items()]})
        if a["n"] != len(rows):
            self.fail("reindex-count", f"{q} {change}: {a['n']} of {len(rows)}")
        for k, rec in new.items():
            self.model.archive(self.xs[h], dict(k), rec[0], rec[1])
            self.adopters.add(parts(dict(k), self.model.rule_of)[0])
        self.done(f)
        if r.random() < .6 or self.subtoc:
            self.xflush(h, r.random() < .5 or self.subtoc)
        self.res.count("reindexed", len(rows))
        self.res.saw(("reindex", tuple(sorted(change)), min(len(rows), 4), self.tag))

    def xflush(self, h, close):
        if not close:
            self.ok({"op": "flush", "h": h})
            self.model.flush(self.xs[h], self.session[h])
        else:
            self.ok({"op": "close", "h": h})
            self.model.flush(self.xs.pop(h), self.session[h])
            if self.subtoc:
                self.model.consolidate(self.session[h])

    def xclose(self):
        for h in list(self.xs):
            self.xflush(h, True)

    def sweep(self, db):
        q = {n: [v] for n, v in db}
        for m in ("full", "dedup"):
            self.check_list(q, m)
        self.check_list({}, "dedup")

    def files_of(self, dbs):
        out = {}
        for d, what in snap(self.wd).items():
            out[d] = what
        return out

    def borrower(self, what):
        """purge or wipe a database that borrows: the others keep every file"""
        r = self.rng
        self.xclose()
        for h in list(self.handles):
            self.close(h)
        cand = [d for d in sorted(self.model.created, key=sorted) if not self.model.lends(d) and d not in self.adopted]
        if r.random() < .8:
            cand = [d for d in cand if any(isinstance(e, Mount) for e in self.model.dbs.get(d, []))] or cand
        if not cand:
            return
        db = r.choice(cand)
        name = ":".join(v for v in (dict(db)[n] for n in ("class", "expver", "stream", "date", "time")))
        before = snap(self.wd)
        vis = sorted(self.model.list({n: [v] for n, v in db}, "dedup"), key=repr)
        f = self.fresh()
        a = self.do({"op": what, "h": f, "req": [[n, [v]] for n, v in sorted(db)], "doit": True})
        lent = any(data for e in self.model.dbs.get(db, []) if isinstance(e, Mount) and not e.masked for _, data in self.model.walk(e.src))
        if "err" in a and what == "wipe" and lent and "unclean" in a["what"] and snap(self.wd) == before:
            # refused for data hidden or replaced in a database that keeps showing others: nothing may have changed
            self.res.count("wipes_refused")
            self.done(f)
            return
        if "err" in a:
            if what == "wipe" or not any(isinstance(e, Mount) for e in self.model.dbs.get(db, [])) and db not in self.adopters:
                rc, out = tool(self, "fdb-" + what, reqarg(dict(db)))
                self.fail(f"unexpected-error:{what}", f"{fmt2(db)}: {short(a)}; left: {sorted(os.listdir(os.path.join(self.wd, 'fdb-root0', name)))}; without doing it: {out[-2500:]}")
            # purging a database that borrows is not supported: nothing changes then
            if snap(self.wd) != before:
                self.fail("refused-purge-changed-something", fmt2(db))
        self.done(f)
        after = snap(self.wd)
        for p in before:
            own = os.sep + name in p
            if not own and before[p] != after.get(p):
                self.fail(f"{what}-took-lenders-files", f"{what} of {fmt2(db)} changed {p}")
        if what == "wipe":
            mounts = [e for e in self.model.dbs.get(db, []) if isinstance(e, Mount)]
            if lent:
                self.model.dbs[db] = mounts     # what it shows of others stays
            else:
                self.model.dbs.pop(db, None)
                self.model.created.discard(db)
                self.applied = {x for x in self.applied if x[1] != db}
            self.sweep(db)
        else:
            q = {n: [v] for n, v in db}
            self.check_list(q, "dedup")
            self.check_list({}, "dedup")
        self.res.count(what + "s")
        self.res.saw((what, self.model.borrows(db), len(vis) > 0, self.tag))


def fmt2(db):
    return ",".join(f"{n}={v}" for n, v in sorted(db))


MODES = [("main", {}, 1), ("roots", {}, 2), ("subtoc", {"FDB_SUB_TOCS": "1"}, 1), ("loadthr", {"FDB_LOAD_INDEX_THREADS": "3"}, 1), ("nocache", {"FDB_CACHE_TOCS_ON_READ": "0"}, 1),
         ("ser2", {"FDB_SERIALISATION_VERSION": "2"}, 1), ("subthr", {"FDB_SUB_TOCS": "1", "FDB_LOAD_INDEX_THREADS": "2"}, 2)]


def hist(cs, wd, res):
    k, seed = cs["n"], cs["seed"]
    r = rng_for("c15", seed, k)
    name, env, roots = MODES[k % len(MODES)]
    w = OWorld(r, wd, res, env=env, tag=name, config=local_config(wd, roots), ks=KS(r), lens=[16, 17, 100, 1000])

    def other(f):
        return lambda w: f()
    extra = {"overlay": other(w.overlay), "remove": other(w.remove), "hide": other(w.hide), "reindex": other(w.reindex),
             "xclose": other(w.xclose), "purge": lambda w: None}
    wt = dict(archive=50, flush=14, close=8, restart=0, list=9, depth=0, retrieve=6, inspect=6, axes=4, compact=0, immut=3, stats=0, overlay=7, remove=2, hide=1, reindex=8, xclose=1)
    if w.subtoc:     # one process writes a database at a time
        def w1(fn):
            def g():
                w.xclose()
                w.settle()
                fn()
            return g
        extra["reindex"] = other(w1(w.reindex))
        w.open_ = w.open

        def op(h, d=None):
            w.xclose()
            w.open_(h, d)
        w.open = op
    wt["xclose"] = 1
    history(w, 70, wt, extra=extra, final=False)
    w.d = track(w.mk("main"))
    w.xclose()
    for m in ("full", "dedup", "onlydup"):
        w.check_list({}, m)
    immutability(w)
    for p in sorted(w.model.visible(), key=repr)[:10]:
        w.check_inspect({n: [v] for n, v in full(p).items()})
    for what in ("wipe", "purge"):
        w.borrower(what)
    w.end()


def gribs(cs, wd, res):
    """what is read through an overlay is the stored message with the differing keys changed"""
    r = rng_for("c15g", cs["seed"], cs["n"])
    w = World(r, wd, res, tag="grib", config=local_config(wd), variant="asan" if cs["n"] % 4 == 1 else "plain")
    base = {"stream": "oper", "date": "20200101", "time": "1200"}
    dbs = [dict(base, **{"class": a, "expver": e}) for a in ("od", "rd") for e in ("0001", "xxxy")]
    src, tgt = r.sample(dbs, 2)
    seekable = r.random() < .3
    stored = {}

    def put(db, n):
        w.ok({"op": "open", "h": "g", "config": w.config})
        for _ in range(n):
            k = dict(db, type=r.choice(["an", "fc"]), levtype="pl", step=r.choice(["0", "6", "12"]), param=r.choice(["130", "131"]), levelist=r.choice(["500", "1000"]))
            sample = r.choice(["regular_ll_pl_grib1", "regular_ll_pl_grib2"])
            g = w.ok({"op": "grib", "sample": sample, "seed": r.randrange(1 << 40),
                      "set": [["setLocalDefinition", 1], ["class", k["class"]], ["type", k["type"]], ["stream", "oper"], ["expver", k["expver"]], ["dataDate", 20200101], ["dataTime", 1200],
                              ["level", int(k["levelist"])], ["step", int(k["step"])], ["paramId", int(k["param"])]]})
            w.ok({"op": "archive", "h": "g", "key": keylist(k), "hex": g["hex"]})
            stored[tuple(sorted(k.items()))] = g["hex"]
        w.ok({"op": "close", "h": "g"})
    put(src, r.randint(2, 8))
    rc, out = tool(w, "fdb-overlay", reqarg(src), reqarg(tgt))
    if rc:
        w.fail("overlay-refused", out[-800:])
    put(tgt, r.choice([0, 1, 4]))
    put(src, r.choice([0, 2]))
    own = {k: v for k, v in stored.items() if dict(k)["class"] == tgt["class"] and dict(k)["expver"] == tgt["expver"]}
    diff = [[n, tgt[n]] for n in ("class", "expver") if src[n] != tgt[n]]
    todo = []
    for k, hx in stored.items():
        if k in own:
            continue
        kk = tuple(sorted(dict(dict(k), **tgt).items()))
        exp = own.get(kk) or w.ok({"op": "grib", "hex": hx, "set": diff})["hex"]
        todo += [(k, hx, "source", hx), (kk, exp, "own" if kk in own else "borrowed", hx)]
    for k, exp, what, hx in todo:
        f = w.fresh()
        rq = [[n, [v]] for n, v in k]
        a = w.do({"op": "retrieve", "h": f, "req": rq, "mode": "hex", "chunk": r.choice([1, 7, 1000, 1 << 20])})
        if "err" in a or a["hex"] != exp:
            w.fail(f"read-through-overlay:{what}", f"{k}: {len(a.get('hex', '')) // 2} bytes instead of {len(exp) // 2}: {short({n: v for n, v in a.items() if n != 'hex'})}")
        li = w.ok({"op": "list", "h": f, "mode2": "dedup", "req": rq, "level": 3, "read": True, "md5": True})["items"]
        got = [i.get("md5") for i in li]
        if got != [hashlib.md5(bytes.fromhex(exp)).hexdigest()]:
            orig = hashlib.md5(bytes.fromhex(hx)).hexdigest()
            if what == "borrowed" and got == [orig]:
                res.violations.append({"sig": "list-through-overlay:unchanged", "msg": f"{k}: the element leads to the lender's message as it is: {short(li)}", "detail": {}})
            else:
                w.fail(f"list-through-overlay:{what}", f"{k}: {short(li)}")
        w.done(f)
        res.count("messages")
        res.saw(("grib", what, len(diff), [n for n, _ in diff][0]))
    w.end()


ensure("plain", ("fdbdrv", "iofault", "tools"))
ensure("asan")
S = c.seed
c.run(gribs, [dict(n=n, seed=S) for n in range(c.n(16, 300))])
c.run(hist, [dict(n=n, seed=S) for n in range(c.n(84, 3000))])
c.finish(300)
