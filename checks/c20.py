import sys, os, socket, struct
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.remote import *

c = Check("C20", "fault_enumeration",
          "Clients drive servers on loopback ports while one message of one process is cut (connection shut down at that byte), altered, or made "
          "the last thing the process does (SIGKILL), or a whole server is killed and restarted. Every call must end, successfully with exactly the right "
          "bytes or with an error; other clients and the server processes must be unaffected by a client's fault; after a restart everything "
          "acknowledged is read back. Raw sockets send garbage, truncated and oversized messages and abrupt ends.",
          ["Servers and clients share one machine; one fault per case.",
           "Closing (destroying) a handle whose archival has failed may end the client process.",
           "After a flipped byte only other clients, and the survival of the processes, are judged."])
NETSO = os.path.join(BUILD, "plain", "lib", "libnetfault.so")
T = 40
TF = 8
HARD = (-4, -7, -8, -11, 99, 98)      # SIGILL, SIGBUS, SIGFPE, SIGSEGV, sanitizers


class Party:
    """A client with its own databases: what it was told, and what may therefore be there"""

    def __init__(self, w, name, expver, env=None, preload=None, variant="plain"):
        self.w, self.name, self.env, self.preload = w, name, env, preload
        self.r = rng_for("party", name, w.seed)
        self.ks = KeySpace(self.r, ndb=2)
        for d in self.ks.dbs:
            d["expver"] = expver
        self.acked, self.maybe, self.pend, self.dbs = {}, {}, [], set()
        self.h, self.n, self.seed, self.d, self.np = None, 0, (sum(map(ord, expver)) + 1) << 40, None, 0
        self.failed, self.oks, self.errs, self.dead = False, 0, 0, False
        self.strict = False
        self.inexact = False
        self.start()

    def start(self):
        self.np += 1
        self.d = track(Driver(self.w.wd, "plain", dict(self.w.env, **(self.env or {})), f"{self.name}{self.np}", preload=NETSO))
        self.h = None

    def op(self, o, timeout=None):
        """-> result, or None when the call (or the process, on closing) failed"""
        self.w.trace.append((self.name, o))
        try:
            a = self.d.do(o, timeout or (TF if self.inexact else T))
        except DriverDied as e:
            if e.rc == -9 and self.preload:
                self.dead = True
                return None
            if o["op"] == "close" and not self.strict and e.rc == -6:
                self.w.res.count("terminated_on_close")
                self.start()
                self.failed = False
                return None
            if "ddressSanitizer" in e.err or "runtime error" in e.err or e.rc in HARD or not self.inexact:
                self.w.fail("client-died", f"{self.name}: rc={e.rc} during {short(o)}: {e.err[-2500:]}")
            self.start()
            return None
        if isinstance(a, dict) and "err" in a:
            if self.strict:
                self.w.fail("bystander-error", f"{self.name}: {short(o)} -> {short(a)}")
            self.w.trace.append((self.name, "->", short(a, 300)))
            self.errs += 1
            return None
        self.oks += 1
        return a

    def lost(self):
        for p, rec in self.pend:
            self.maybe.setdefault(p, set()).add(rec)
        self.pend = []

    def drop(self):
        if self.h:
            h, self.h = self.h, None
            self.lost()
            self.failed = True
            self.op({"op": "close", "h": h})
            self.failed = False

    def opened(self):
        if not self.h:
            self.n += 1
            self.h = f"{self.name}h{self.n}"
            if self.op(self.w.open_op(self.h)) is None:
                self.h = None
        return self.h

    def candidates(self, p):
        return self.maybe.get(p, set()) | ({self.acked[p]} if p in self.acked else set()) | {x for q, x in self.pend if q == p}

    def step(self):
        r = self.r
        if self.dead:
            return
        k = r.random()
        if k < .5 or not self.acked:
            if not self.opened():
                return
            for _ in range(r.choice([1, 1, 3, 10, 50])):
                key = self.ks.key()
                self.seed += 1
                rec = (str(self.seed), r.choice([16, 100, 4096, 70000]))
                p = parts(key, self.w.model.rule_of)
                self.dbs.add(p[0])
                self.pend.append((p, (self.seed, rec[1])))
                if self.op({"op": "archive", "h": self.h, "key": keylist(key, rng=r), "seed": self.seed, "len": rec[1]}) is None:
                    return self.drop()
            if r.random() < .6:
                self.flush()
            return
        if k < .6 and self.h:
            if r.random() < .5:
                return self.flush()
            self.n += 1
            h, self.h = self.h, None
            if self.op({"op": "flush", "h": h}) is not None:
                self.settle()
            else:
                self.lost()
            self.failed = bool(self.maybe)
            self.op({"op": "close", "h": h})
            self.failed = False
            return
        q = f"{self.name}q{self.n}x{r.randrange(10**9)}"
        if self.op(self.w.open_op(q)) is None:
            return
        np = self.np
        self.read(q, r.choice(["retrieve", "retrieve", "list", "list", "axes", "stats", "inspect"]))
        if not self.dead and self.np == np:
            self.failed = self.errs > 0
            self.op({"op": "close", "h": q})
            self.failed = False

    def settle(self):
        for p, rec in self.pend:
            self.acked[p] = rec
            self.maybe.pop(p, None)
        self.pend = []

    def flush(self):
        if self.op({"op": "flush", "h": self.h}) is None:
            return self.drop()
        self.settle()
        self.w.res.count("flushes_acknowledged")

    def read(self, q, how):
        w, r = self.w, self.r
        p = r.choice(sorted(self.acked, key=fmt))
        one = {a: [b] for a, b in full(p).items()}
        if how == "retrieve":
            a = self.op({"op": "retrieve", "h": q, "req": req(one)})
            if a is not None and not self.inexact:
                got = w.recs(a, "retrieve", fmt(p))
                if len(got) != 1 or got[0] not in self.candidates(p):
                    w.fail("false-success:retrieve", f"{self.name}: {fmt(p)} delivered {got}, acknowledged {self.acked[p]}, candidates {self.candidates(p)}")
                w.res.count("fields_verified")
        elif how in ("list", "inspect"):
            rq = {a: [b] for a, b in (p[0] if how == "list" else set().union(*p))}
            a = self.op({"op": "list", "h": q, "mode2": "dedup", "level": 3, "read": r.random() < .5, "req": req(rq)} if how == "list" else
                        {"op": "inspect", "h": q, "read": True, "req": req(one)})
            if a is None or self.inexact:
                return
            items = a["items"]
            if any("readerr" in x for x in items):
                if self.strict:
                    w.fail("bystander-error", f"{self.name}: {short([x for x in items if 'readerr' in x])}")
                return
            rows = w.rows(items, how, bool(items and "rec" in items[0]))
            got = dict(rows)
            for x in (self.acked if how == "list" else [p]):
                if all(n in full(x) and full(x)[n] in v for n, v in rq.items()):
                    if x not in got or (got[x] is not None and got[x] not in self.candidates(x)):
                        w.fail(f"false-success:{how}", f"{self.name}: {fmt(x)} is {got.get(x, 'absent')}, candidates {self.candidates(x)}")
                    w.res.count("fields_verified")
        else:
            self.op({"op": how, "h": q, "level": 3, "req": req({a: [b] for a, b in p[0]})})

    def verify(self, d):
        """everything acknowledged is there, through a process without faults"""
        w = self.w
        q = f"v{self.name}"
        w.ok(w.open_op(q), d=d)
        for p in sorted(self.acked, key=fmt)[:25]:
            a = w.ok({"op": "retrieve", "h": q, "req": req({a: [b] for a, b in full(p).items()})}, d=d)
            got = w.recs(a, "retrieve", fmt(p))
            if len(got) != 1 or got[0] not in self.candidates(p):
                w.fail("acknowledged-lost", f"{self.name}: {fmt(p)} delivers {got}, acknowledged {self.acked[p]}, candidates {self.candidates(p)}")
            w.res.count("fields_verified")
        for db in sorted({p[0] for p in self.acked}, key=repr):
            a = w.ok({"op": "list", "h": q, "mode2": "dedup", "level": 3, "read": True, "req": req({a: [b] for a, b in db})}, d=d)
            got = dict(w.rows(a["items"], "list"))
            for p in got:
                if got[p] not in self.candidates(p):
                    w.fail("spurious", f"{self.name}: {fmt(p)} is listed as {got[p]}, candidates {self.candidates(p)}")
            miss = [p for p in self.acked if p[0] == db and p not in got]
            if miss:
                w.fail("acknowledged-lost", f"{self.name}: {[fmt(p) for p in miss[:3]]} not listed")
        w.ok({"op": "close", "h": q}, d=d)


def server_alive(w):
    if w.cl.dead():
        w.fail("server-died", f"{w.cl.dead()} rc={[w.cl.procs[x].poll() for x in w.cl.dead()]}: {[w.cl.out(x)[-2500:] for x in w.cl.dead()]}")


class RW(World):
    """A world whose own driver is only started at the end"""

    def __init__(self, *a, **k):
        super().__init__(*a, driver=lambda n: None, **k)

    def check(self, parties):
        d = track(Driver(self.wd, "plain", self.env, "verify", preload=NETSO))
        for p in parties:
            p.verify(d)
        # ... and the store can still be written
        k = self.ks.key()
        for o in ({"op": "archive", "h": "z", "key": keylist(k), "seed": 7, "len": 500}, {"op": "flush", "h": "z"}, {"op": "close", "h": "z"}):
            if o["op"] == "archive":
                self.ok(self.open_op("z"), d=d)
            self.ok(o, d=d)
        self.ok(self.open_op("y"), d=d)
        a = self.ok({"op": "retrieve", "h": "y", "req": req({a: [b] for a, b in full(parts(k, self.model.rule_of)).items()})}, d=d)
        if self.recs(a, "retrieve", "") != [(7, 500)]:
            self.fail("unusable", f"a field archived after the fault reads as {short(a)}")
        self.ok({"op": "close", "h": "y"}, d=d)
        d.quit()


def world(i, wd, res, r, name, layouts=LAYOUTS, **kw):
    rng = rng_for(name, c.seed, i)
    lay, single, thr = layouts[i % len(layouts)]
    cl = track(Cluster(wd, lay, single, thr, roots=1, **kw))
    e = {"FDB_WIPE_SECRET": "s3cret", "VF_RES": "fdbMaxConnectRetries=1;fdbConnectTimeout=4", "VF_SLEEP_MS": "20"}
    w = RW(rng, wd, res, env=e, tag=lay + ("/1" if single else "") + ("" if thr else "/fork"), config=cl.client, ks=KeySpace(rng))
    for d in w.ks.dbs:
        d["expver"] = "zzzz"
    w.cl, w.thr, w.lay = cl, thr, lay
    return w


def fault(i, wd, res):
    r = rng_for("c20", c.seed, i)
    lay = LAYOUTS[i % len(LAYOUTS)][0]
    names = [f"store{j}" for j in range(int(lay[-1]) if lay[-1].isdigit() else 1)] + ([] if lay.startswith("localcat") else ["cat"])
    side = r.choice(["client", "client"] + names)
    what = r.choice(["cut", "cut", "cut", "kill", "flip", "junk"])
    kind = r.choice(["any", "head", "body"])
    n = r.choice([0, 1, 2, 3, 5, 8, 13, 20, 30, 50, 80, 120]) + r.randrange(3)
    arm, once = os.path.join(wd, "arm"), os.path.join(wd, "once")
    env = {"VF_NET": f"arm={arm};once={once};n={n};what={what};kind={kind};part={r.choice([0, 0, 1, 17, 35, 1000])};off={r.choice([0, 4, 6, 8, 12, 16, 20, 24, r.randrange(300)])};"
           f"mask={r.choice([0, 1, 3, 7, 15, 63, 127, 254, r.randrange(255)])};log={wd}/net.log"}
    w = world(i, wd, res, r, "fault", faulty={side: env} if side != "client" else None,
              variants={nm: "asan" for nm in names} if what in ("flip", "junk") and side == "client" else None)
    w.env["VF_TAG"] = f"{side}/{what}/{kind}/{n}"
    fc = side == "client"
    v = Party(w, "victim", "vvvv", env if fc else None, fc)
    b = Party(w, "other", "bbbb")
    b.strict = fc and not w.lay.startswith("localcat")
    v.inexact = what in ("flip", "junk")
    b.inexact = what in ("flip", "junk") and not fc
    at = r.randrange(8)
    hung = bhung = False
    for s in range(at + 26):
        if s == at:
            write(arm, "")
        if not hung:
            try:
                v.step()
            except DriverHung as e:
                if what not in ("flip", "junk"):
                    raise
                res.count("flip_waits")         # e.g. for the rest of a message announced as longer than it is
                hung = True
                v.d.kill()
        try:
            b.step() if not bhung else None
        except DriverHung as e:
            if not b.inexact:
                raise
            res.count("flip_waits")
            bhung = True
            b.d.kill()
        if not (side != "client" and what == "kill" and w.thr):
            server_alive(w)
        else:
            break_ = False
            for nm in w.cl.dead():
                if s > at + 6 and r.random() < .3:
                    w.cl.start(nm)
                    w.cl.wait(nm)
                    break_ = True
            if break_:                          # stores remembered by a process are not reconnected
                for p in (v, b):
                    p.lost()
                    p.d.kill()
                    p.start()
    os.unlink(arm)
    fired = os.path.exists(once)
    res.count("faults_injected", int(fired))
    for p in (v, b):
        p.lost() if not p.strict else None
        if p.h and not p.dead and not (p is v and hung) and not (p is b and bhung):
            p.failed = p.errs > 0
            p.op({"op": "close", "h": p.h})
        p.d.kill()
    for nm in w.cl.dead():
        w.cl.start(nm)
        w.cl.wait(nm)
    w.check([p for p in (v, b) if not p.inexact])
    server_alive(w)
    res.count("calls_failed", v.errs + b.errs)
    res.count("calls_ok", v.oks + b.oks)
    res.saw(("fault", w.tag, side.rstrip("0123456789"), what, kind, fired, min(v.errs, 3), v.dead))


def header(r, msg, size, version=12, marker=b"SFDB"):
    return marker + struct.pack("<HHIII", version, msg, r.choice([0, 1, 2, 3, 5, r.randrange(1 << 32)]), r.choice([0, 1, r.randrange(1 << 32)]), size) + bytes(16)


def raw(i, wd, res):
    """sockets that send anything to threaded servers, while a client works"""
    r = rng_for("c20raw", c.seed, i)
    lays = [x for x in LAYOUTS if x[2]]
    w = world(i, wd, res, r, "raw", lays)
    for nm in list(w.cl.procs):
        w.cl.kill_one(nm)
        w.cl.variants[nm] = "asan"
        w.cl.start(nm)
        w.cl.wait(nm)
    b = Party(w, "other", "bbbb")
    b.strict = True
    open_ = []
    for s in range(25):
        nm = r.choice(list(w.cl.procs))
        k = socket.create_connection(("127.0.0.1", w.cl.ports[nm]))
        size = r.choice([0, 1, 8, 100, 5000])
        body = r.randbytes(size)
        how = r.choice(["close", "junk", "startup", "startup", "message", "short", "long", "version", "marker", "huge"])
        data = {"close": b"", "junk": r.randbytes(r.choice([1, 36, 300])), "startup": header(r, 2, size) + body + b"EFDB",
                "message": header(r, r.randrange(700), size) + body + b"EFDB", "short": header(r, 2, size + 10) + body,
                "long": header(r, 2, size) + body + b"xxxx", "version": header(r, 2, size, r.choice([0, 1, 11, 13])) + body + b"EFDB",
                "marker": header(r, 2, size, marker=b"ABCD") + body, "huge": header(r, 2, r.choice([1 << 20, 1 << 28])) + body}[how]
        w.trace.append(("raw", nm, how, data[:60].hex()))
        try:
            k.sendall(data)
        except OSError:
            pass
        res.saw(("raw", how, nm.rstrip("0123456789"), size))
        res.count("raw_connections")
        if r.random() < .6:
            if r.random() < .5:
                k.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))      # reset
            k.close()
        else:
            open_.append(k)
        if r.random() < .7:
            b.step()
        server_alive(w)
    for k in open_:
        k.close()
    for _ in range(3):
        b.step()
    b.settle() if b.h and b.op({"op": "flush", "h": b.h}) is not None else None
    if b.h:
        b.op({"op": "close", "h": b.h})
    b.d.kill()
    w.check([b])
    server_alive(w)


def abandon(i, wd, res):
    """long answers that the caller does not want to the end"""
    r = rng_for("c20ab", c.seed, i)
    w = world(i, wd, res, r, "abandon")
    b = Party(w, "other", "bbbb")
    b.strict = True
    b.opened()
    db = w.ks.dbs[0]
    for n in range(300):
        key = dict(b.ks.key(), **{"class": "od", "stream": "oper", "date": "20200101", "time": "0000", "type": "an", "levtype": "pl", "levelist": str(n + 1), "step": "0", "param": "130"})
        key.pop("number", None)
        b.seed += 1
        p = parts(key, w.model.rule_of)
        ln = r.choice([16, 4096])
        b.pend.append((p, (b.seed, ln)))
        b.op({"op": "archive", "h": b.h, "key": keylist(key), "seed": b.seed, "len": ln})
    b.flush()
    rq = req({"class": ["od"], "expver": ["bbbb"]})
    for s in range(12):
        q = b.h if r.random() < .3 else f"q{s}"
        if q != b.h:
            b.op(w.open_op(q))
        for _ in range(r.randrange(1, 4)):
            mx = r.choice([0, 1, 10, 99, 100, 101, 150, 299])
            how = r.choice(["list", "list", "inspect", "nested"])
            if how == "nested":
                b.op({"op": "list", "h": q, "mode2": r.choice(["full", "dedup"]), "level": 3, "read": True, "max": mx, "req": rq})
            elif how == "inspect":
                b.op({"op": "inspect", "h": q, "read": True, "max": mx, "req": req({k: v for k, v in {"class": ["od"], "expver": ["bbbb"], "stream": ["oper"], "date": ["20200101"],
                      "time": ["0000"], "type": ["an"], "levtype": ["pl"], "levelist": [str(x + 1) for x in range(300)], "step": ["0"], "param": ["130"]}.items()})})
            else:
                b.op({"op": "list", "h": q, "mode2": r.choice(["full", "dedup"]), "level": r.choice([1, 2, 3]), "max": mx, "req": rq})
            res.saw(("abandon", w.tag, how, mx))
        b.read(q, r.choice(["retrieve", "list", "inspect", "axes", "stats"]))
        if q != b.h:
            b.op({"op": "close", "h": q})
        server_alive(w)
    b.op({"op": "close", "h": b.h})
    b.d.kill()
    w.check([b])
    server_alive(w)


ensure("plain", ("fdbdrv", "netfault", "fdb-server"))
ensure("asan", ("fdb-server", "fdbdrv"))
c.run(raw, range(c.n(16, 600)))
c.run(abandon, range(c.n(14, 400)))
c.run(fault, range(c.n(150, 6000)))
c.finish(100)
