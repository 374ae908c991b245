import sys, os, threading, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *

c = Check("C08", "monitored",
          "3 to 7 processes work at once on the same few databases of one store: writers archive and flush (re-archiving each other's fields), readers "
          "list, retrieve, inspect, ask for axes, status, statistics, dump and purge dry-runs, on fresh and on long-lived handles, with random delays "
          "injected before the system calls on the store. Every call is logged with its start and end; an offline checker decides for every field and "
          "every read whether the version seen is one that a linearisable register allows (begun before the read ended, not superseded before it began), "
          "and no two reads go back in time. At the end the store must hold exactly what was flushed. Databases are also created by all processes at once. "
          "distinct = (operation, number of writers whose flush overlapped it, versions in flight of what it saw, layout)",
          ["Processes of one machine on one file system.", "In sub-TOC mode each field is written by one process."])
NAMES = ("main", "subtoc", "roots3", "ser1", "ser2", "loadthr", "nocache", "async", "nocachesub", "idx64", "noatime", "nopreload", "evict")
PV = [v for v in VARIANTS if v[0] in NAMES]
IOSO = os.path.join(BUILD, "plain", "lib", "libiofault.so")
now = time.monotonic_ns


class Proc(threading.Thread):
    """One process: a random program; logs what it wrote and what it saw"""

    def __init__(self, w, i, n, steps, role, barrier, wide, first=None):
        super().__init__()
        self.w, self.i, self.n, self.steps, self.role, self.wide, self.first = w, i, n, steps, role, wide, first
        self.barrier = barrier
        self.r = rng_for("c08proc", w.seed, i)
        env = dict(w.env)
        pre = None
        if self.r.random() < .7:
            env["VF_IO"] = f"root={w.wd};delay={self.r.choice([.02, .1, .4])}:{self.r.choice([200, 1000, 5000])};seed={self.r.randrange(1 << 30)}"
            pre = IOSO
        self.d = track(Driver(w.wd, "plain", env, f"p{i}", preload=pre, args=w.argv))
        self.writes, self.reads, self.pend, self.h, self.rh, self.nh = [], [], [], None, None, 0
        self.seed = (i + 1) << 40
        self.error = None

    def ok(self, op, timeout=100):
        a = self.d.do(op, timeout)
        if isinstance(a, dict) and "err" in a:
            self.w.fail(f"error:{op['op']}", f"process {self.i}: {short(op)} -> {short(a)}")
        return a

    def run(self):
        try:
            self.barrier.wait()
            for s in range(self.steps):
                self.step(s)
            if self.h:
                self.flush(True)
            self.d.quit()
        except Exception as e:
            self.error = e

    def key(self):
        while True:
            k = self.w.ks.key()
            if self.wide and self.r.random() < .8 and "step" in k:
                k["step"] = str(self.r.randrange(1000))
            p = parts(k, self.w.model.rule_of)
            if not self.w.subtoc or hash_(p) % self.n == self.i:
                return k, p

    def flush(self, close=False):
        t = now()
        if close:
            self.ok({"op": "close", "h": self.h})
            self.h = None
        else:
            self.ok({"op": "flush", "h": self.h})
        e = now()
        last = {p: rec for p, rec in self.pend}
        for p, rec in last.items():
            self.writes.append((p, rec, t, e, self.i))
        self.pend = []

    def step(self, s):
        r = self.r
        k = r.random()
        if self.role == "w" and k < .75 or self.role == "rw" and k < .35 or s == 0 and self.first:
            if not self.h:
                self.nh += 1
                self.h = f"p{self.i}h{self.nh}"
                self.ok(self.w.open_op(self.h))
            burst = self.wide and r.random() < .2     # records of several pages in the TOC
            for j in range(300 if burst else r.choice([1, 1, 2, 5, 20])):
                with LOCK:
                    key, p = self.key()
                if burst and "step" in key and not self.w.subtoc:
                    key["step"] = str(1000 + j)
                    p = parts(key, self.w.model.rule_of)
                if s == 0 and self.first:
                    key = dict(self.first, **{n: v for n, v in key.items() if n not in self.first})
                    key.update(step=str(2000 + self.i), levtype="sfc", type="an", param="130")
                    key.pop("levelist", None), key.pop("number", None)
                    if key["stream"] == "enfo":
                        key["number"] = "1"
                    p = parts(key, self.w.model.rule_of)
                self.seed += 1
                rec = (self.seed, 16 if burst else r.choice([16, 100, 4096, 20000]))
                if self.w.evict:
                    if self.pend and self.pend[-1][0][0] != p[0]:
                        self.flush()
                self.ok({"op": "archive", "h": self.h, "key": keylist(key, rng=r), "seed": rec[0], "len": rec[1]})
                self.pend.append((p, rec))
                if s == 0 and self.first:
                    break
            if r.random() < .7 or s == 0:
                self.flush(r.random() < .2)
            return
        if self.role == "w" and k < .85 and self.h:
            return self.flush(r.random() < .3)
        self.read()

    def read(self):
        r, w = self.r, self.w
        h = self.rh
        if not h or r.random() < .7:
            h = f"p{self.i}q{self.nh}"
            self.nh += 1
            self.ok(w.open_op(h))
            self.opened = now()
            if r.random() < .15:
                if self.rh:
                    self.ok({"op": "close", "h": self.rh})
                self.rh = h
                self.ropened = self.opened
        kind = r.choice(["full", "dedup", "dedup", "retrieve", "retrieve", "inspect", "axes", "status", "stats", "dump", "purge", "depth", "onlydup"])
        with LOCK:
            base, _ = self.key()
        q = {n: [base[n]] for n in r.sample(sorted(base), r.randint(0, 4))}
        dbq = {n: v for n, v in q.items() if n in ("class", "expver", "stream", "date", "time", "domain")}
        sel = lambda q: {"req": req(q)} if q else {"all": True}
        t = now()
        if kind in ("full", "dedup", "onlydup"):
            a = self.ok(dict({"op": "list", "h": h, "mode2": kind, "level": 3, "read": True}, **sel(q)))
        elif kind in ("retrieve", "inspect"):
            q = {n: [v] for n, v in base.items()}
            for n in ("param", "step"):
                if n in q:
                    q[n] = sorted(set(q[n] + r.sample(getattr(w.ks, n), r.randint(0, len(getattr(w.ks, n))))))
            a = self.ok({"op": kind, "h": h, "req": req(q), "read": True})
        elif kind == "axes":
            a = self.ok(dict({"op": "axes", "h": h, "level": 3}, **sel(q)))
        elif kind == "depth":
            a = self.ok(dict({"op": "list", "h": h, "mode2": "full", "level": r.choice([1, 2])}, **sel(q)))
        elif kind == "purge":
            dbq = {n: v for n, v in dbq.items() if n in ("class", "expver", "stream")} or {"class": [base["class"]]}
            a = self.ok({"op": "purge", "h": h, "req": req(dbq), "doit": False})
        elif kind == "dump":
            a = self.ok(dict({"op": "dump", "h": h}, **sel(dbq)))
        else:
            a = self.ok(dict({"op": kind, "h": h}, **sel(dbq)))
        e = now()
        rows = None
        if kind in ("full", "dedup", "inspect", "onlydup"):
            rows = w.rows(a["items"], kind)
        elif kind == "retrieve":
            rows = w.recs(a, "retrieve", f"retrieve {q}")
        elif kind == "axes":
            rows = {n: {v for v in vs if v != ""} for n, vs in a["axes"].items()}
        # retrieval sees a database as it was when the handle first used it
        t0 = self.ropened if h == self.rh and kind in ("retrieve", "inspect") else t
        self.reads.append((kind, q, t0, e, rows, f"{self.i} (handle opened at {self.ropened if h == self.rh else self.opened})"))
        if h != self.rh:
            self.ok({"op": "close", "h": h})


LOCK = threading.Lock()



def hash_(p):
    import zlib
    return zlib.crc32(repr(sorted(full(p).items())).encode())


def verify(w, procs):
    writes, reads = [], []
    for p in procs:
        writes += p.writes
        reads += p.reads
    by, recs = collections.defaultdict(list), {}
    for x in writes:
        by[x[0]].append(x)
        recs[x[1]] = x
    inflight = {rec for p in procs for _, rec in p.pend}
    seen = collections.defaultdict(list)      # p -> [(start, end, write)]
    for kind, q, t, e, rows, i in sorted(reads, key=lambda x: x[2]):
        over = len({x[4] for x in writes if x[2] < e and x[3] > t})
        w.res.saw((kind, over, w.tag))
        w.res.count("reads")
        w.res.count("concurrent_reads", over > 0)
        if rows is None:
            continue
        sel = {p: ws for p, ws in by.items() if matches(p, q)} if kind not in ("retrieve", "inspect") else \
            {p: ws for p, ws in by.items() if set(full(p)) == set(q) and matches(p, q)}
        # a requested optional key that no field of the index has stands for its absence
        may = sel if kind not in ("retrieve", "inspect") else \
            {p: ws for p, ws in by.items() if set(full(p)) <= set(q) and all(v in q[n] for n, v in full(p).items())}
        if kind == "axes":
            for p, ws in sel.items():
                if any(x[3] < t for x in ws):
                    for n, v in full(p).items():
                        if v not in rows.get(n, ()):
                            w.fail("axes-lost", f"process {i}: axes {q} lacks {n}={v} of {fmt(p)}, flushed before")
            continue
        got = []
        for x in rows:
            rec = x if kind == "retrieve" else x[1]
            wr = recs.get(rec)
            if not wr:
                w.fail("never-archived", f"process {i}: {kind} {q} shows {x}, which was never flushed")
            if kind != "retrieve" and wr[0] != x[0]:
                w.fail("wrong-field", f"process {i}: {kind} {q} shows {fmt(x[0])} with the bytes of {fmt(wr[0])}")
            if wr[0] not in may:
                w.fail("spurious", f"process {i}: {kind} {q} shows {fmt(wr[0])}")
            if wr[2] > e:
                w.fail("from-the-future", f"process {i}: {kind} {q} shows {wr}, whose flush began later")
            got.append(wr)
            w.res.count("fields_read")
        if kind == "onlydup":
            continue
        if kind == "full":
            if len({x[1] for x in got}) != len(got) and not w.subtoc:
                w.fail("full-twice", f"process {i}: {kind} {q}: {[x for x in got if got.count(x) > 1][:2]} twice")
            for p, ws in sel.items():
                g = [x for x in got if x[0] == p]
                if not w.subtoc:
                    lost = [x for x in ws if x[3] < t and x not in g]
                    if lost:
                        w.fail("lost", f"process {i}: {kind} {q} at {t}..{e} lacks {lost[0]}")
                elif any(x[3] < t for x in ws) and not any(x[3] >= max(y[3] for y in ws if y[3] < t) for x in g):
                    w.fail("lost", f"process {i}: {kind} {q} at {t}..{e} lacks the newest of {ws}")
            continue
        if len({x[0] for x in got}) != len(got):
            w.fail("twice", f"process {i}: {kind} {q} delivers a field twice: {got}")
        one = {x[0]: x for x in got}
        for p, ws in sel.items():
            acked = [x for x in ws if x[3] < t]
            v = one.get(p)
            if not v:
                if acked:
                    w.fail("lost", f"process {i}: {kind} {q} at {t}..{e} lacks {fmt(p)}, acknowledged: {acked[-1]}")
                continue
            newer = [x for x in acked if x[2] > v[3]]
            if newer:
                w.fail("stale", f"process {i}: {kind} {q} at {t}..{e} delivers {v} although {newer[0]} was acknowledged later and before")
            for s0, e0, u in seen[p]:
                if e0 < t and v[3] < u[2]:
                    w.fail("back-in-time", f"process {i}: {kind} {q} at {t}..{e} delivers {v}; {u} had been read at {s0}..{e0}")
            seen[p].append((t, e, v))
            w.res.saw((kind, min(over, 3), min(len(ws), 5), sum(1 for x in ws if x[2] < e and x[3] > t), w.tag))
    return by


def case(cs, wd, res):
    k, seed = cs["n"], cs["seed"]
    w = make_world(k, wd, res, seed, PV, ksargs={"ndb": rng_for("c08", seed, k).choice([1, 2, 3])})
    r = w.rng
    n = r.randint(3, 7)
    barrier = threading.Barrier(n)
    nw = r.randint(1, n)
    roles = ["w"] * nw + [r.choice(["r", "r", "rw"]) for _ in range(n - nw)]
    first = dict(w.ks.dbs[0]) if r.random() < .6 else None
    wide = r.random() < .4
    if w.model.rule_of is rule_b:
        first = None
    procs = [Proc(w, i, n, cs["steps"], roles[i], barrier, wide, first) for i in range(n)]
    for p in procs:
        p.start()
    for p in procs:
        p.join()
    for p in procs:
        if p.error:
            raise p.error
    by = verify(w, procs)
    # afterwards, in a fresh process
    q = w.fresh()
    got = w.rows(w.ok({"op": "list", "h": q, "mode2": "full", "all": True, "read": True})["items"], "list")
    exp = [(p, x[1]) for p, ws in by.items() for x in ws]
    if not w.subtoc:
        w.expect("final-full", got, exp, "final listing")
    ded = dict(w.rows(w.ok({"op": "list", "h": q, "mode2": "dedup", "all": True, "read": True})["items"], "list"))
    for p, ws in by.items():
        v = next((x for x in ws if x[1] == ded.get(p)), None)
        if not v:
            w.fail("final-lost", f"{fmt(p)}: {ded.get(p)} of {ws}")
        if any(x[2] > v[3] for x in ws):
            w.fail("final-stale", f"{fmt(p)}: {v} of {ws}")
    dbs = {p[0] for p in by}
    st = w.ok({"op": "status", "h": q, "all": True})["items"]
    keys = [frozenset((a, b) for a, b in x["key"] if b != "") for x in st]
    if len(keys) != len(set(keys)) or not dbs <= set(keys):
        w.fail("databases", f"{len(keys)} databases {st}, written to {len(dbs)}")
    w.done(q)
    w.end()
    res.count("writes", sum(map(len, by.values())))
    res.sample({"layout": w.tag, "roles": roles, "writes": sum(map(len, by.values())), "reads": sum(len(p.reads) for p in procs)})


ensure("plain", ("fdbdrv", "iofault"))
c.run(case, [{"n": k, "seed": c.seed, "steps": c.n(20, 40)} for k in range(c.n(104, 2600))], workers=3)
c.finish(100)
