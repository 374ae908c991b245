import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *
from vf.profiles import history
import vf.profiles as P

c = Check("C22", "monitored", "histories in which every process has another combination of serialisation version, index type, main-TOC or sub-TOC layout, caching and threads, and in which the "
          "directories move as a whole between processes; all queries compared with the model. Every object the queries deliver goes through a stream and back, and must come out equal, "
          "encode to the same bytes and leave the next object on the stream readable. distinct = (combination before, combination after) and (kind of object, query)")

COMBOS = {"FDB_SERIALISATION_VERSION": [None, "1", "2", "3"], "FDB_SUB_TOCS": [None, None, "1"],
          "FDB_INDEX_TYPE": [None, "BTreeIndex", "BTreeIndex64", "PointDBIndex"], "FDB_CACHE_TOCS_ON_READ": [None, "0", "1"],
          "FDB_LOAD_INDEX_THREADS": [None, None, "3"], "FDB_ASYNC_WRITE": [None, None, "1"], "FDB_SEEKABLE_DATA_HANDLE": [None, "1"]}
SHOWN = ("FDB_SERIALISATION_VERSION", "FDB_SUB_TOCS", "FDB_INDEX_TYPE", "FDB_CACHE_TOCS_ON_READ")


class Mixed(World):
    def switch(self, move=True):
        """the next process: another configuration, and perhaps another place"""
        r = self.rng
        for h in list(self.handles):
            self.close(h)
        self.d.quit()
        old = tuple(self.env.get(n) for n in SHOWN)
        for n, vs in COMBOS.items():
            v = r.choice(vs)
            self.env.pop(n, None)
            if v:
                self.env[n] = v
        self.subtoc = "FDB_SUB_TOCS" in self.env
        self.max_handles = 1 if self.subtoc else 3
        if move and r.random() < .4:
            self.move()
        self.d = track(self.mk("main"))
        self.res.count("switches")
        self.res.saw(("switch", old, tuple(self.env.get(n) for n in SHOWN)))

    def move(self):
        """every root goes elsewhere, with what is in it"""
        self.moves = getattr(self, "moves", 0) + 1
        for p in sorted(set(re.findall(r"path: (\S+)", self.config))):
            q = os.path.join(self.wd, f"moved{self.moves}", "x" * self.rng.choice([1, 20, 60]), os.path.basename(p))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            os.rename(p, q)
            self.config = self.config.replace(f"path: {p}\n", f"path: {q}\n")
        self.seen_locs.clear()
        self.files.clear()
        self.res.count("relocations")

    def wipe_one(self):
        dbs = sorted(self.model.dbs, key=sorted)
        if not dbs:
            return
        db = self.rng.choice(dbs)
        others = {d for d in self.model.created if d != db and all(d_n in d for d_n in db)}
        for h in list(self.handles):
            self.close(h)
        self.switch(move=False)
        if others:
            return      # the request for this one names others, too
        q = self.fresh()
        self.ok({"op": "wipe", "h": q, "doit": True, "req": [[n, [v]] for n, v in sorted(db)]})
        self.done(q)
        self.model.dbs.pop(db)
        self.model.created.discard(db)
        self.seen_locs.clear()
        self.files.clear()
        self.check_all()
        self.res.saw(("wiped", self.env.get("FDB_SUB_TOCS"), self.env.get("FDB_SERIALISATION_VERSION")))

    def streams(self):
        q = self.fresh()
        op = {"op": "stream", "h": q, "keys": [keylist(self.ks.key(), rng=self.rng) for _ in range(5)] + [[]]}
        req_ = self.rand_request() if self.rng.random() < .5 else {}
        op.update({"req": req(req_)} if req_ else {"all": True})
        r = self.ok(op)
        if r["bad"]:
            self.fail("stream-changed", f"{r['bad'][0]} (and {len(r['bad']) - 1} more)")
        self.res.count("stream_round_trips", r["n"])
        self.res.saw(("stream", min(r["n"], 200) // 10, bool(req_), self.tag))
        self.done(q)


def mixed(i, wd, res):
    r = rng_for("c22", c.seed, i)
    roots = r.choice([1, 1, 2])
    kw = dict(ks=KeySpaceB(r), rule_of=rule_b, config=local_config(wd, roots, schema=SCHEMA_B)) if i % 2 else dict(ks=KeySpace(r), config=local_config(wd, roots))
    w = Mixed(r, wd, res, tag="mixed/B" if i % 2 else "mixed/A", lens=[16, 40, 1000, 5000], **kw)
    w.d.quit()
    w.switch(move=False)
    extra = {"switch": lambda w: w.switch(), "streams": lambda w: w.streams(), "wipeone": lambda w: w.wipe_one(),
             "all": lambda w: w.check_all()}
    history(w, 90, dict(archive=36, flush=14, close=4, restart=0, list=8, depth=4, retrieve=8, inspect=4, axes=4, compact=2, immut=0, stats=3, switch=8, streams=3, wipeone=1, all=3), extra=extra)


def objects(i, wd, res):
    """unusual values on the stream"""
    r = rng_for("c22o", c.seed, i)
    w = Mixed(r, wd, res, tag="objects", config=local_config(wd, schema="[ class, expver [ type [ name?, sub? ]]]"),
              rule_of=lambda k: (("class", "expver"), ("type",), ("name", "sub")), lens=[16, 40])
    vals = ["", "a", "é", "\xff", "x" * 14, "a b", "0", "-1", "{}", "[", "a,b", "a=b", '"', "\\", "\t", "1e300"]

    class KS:
        dbs = [{"class": "od", "expver": "1"}, {"class": "rd", "expver": "xx"}]

        def key(self, db=None):
            k = dict(db or r.choice(self.dbs), type=r.choice(["an", "fc"]))
            for n in ("name", "sub"):
                v = r.choice(vals)
                if v:
                    k[n] = v
            return k
    w.ks = KS()
    w.max_handles = 1
    for _ in range(3):
        w.open("w0")
        for _ in range(r.randint(3, 30)):
            w.archive("w0")
        w.flush("w0")
        w.close("w0")
        w.streams()
        w.switch()
        w.check_list({}, "full")
    w.end()


def types(t, wd, res):
    """each index type by itself: written, read by a process configured otherwise, appended to by it"""
    r = rng_for("c22t", c.seed, t)
    w = Mixed(r, wd, res, tag="type:" + t, env={"FDB_INDEX_TYPE": t}, lens=[16, 40])
    w.max_handles = 1
    try:
        for k in range(3):
            w.open("w0")
            for _ in range(10):
                w.archive("w0")
            w.flush("w0")
            w.close("w0")
            w.check_all()
            w.streams()
            w.switch()
            w.check_all()
            w.env["FDB_INDEX_TYPE"] = t
            restart(w)
    except DriverDied as e:
        raise Violation(f"{t}-died", f"a process that uses the index type {t} was ended by {e}")
    w.end()


ensure("plain")
c.run(types, ["BTreeIndex", "BTreeIndex64", "PointDBIndex", "BTreeIndex4MB"])
c.run(mixed, range(c.n(150, 6000)))
c.run(objects, range(c.n(12, 400)))
c.finish(300)
