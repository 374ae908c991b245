import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *
from vf import iolog
import errno

c = Check("C07", "fault_enumeration", "a writer (or reader) runs with one file system call of the store failing, short or interrupted, for every such call of the run and several errors; what "
          "its calls report is compared with what a later fault-free process finds. distinct = (layout, call, file kind, error, persistent or not, outcome)")
LIB = os.path.join(BUILD, "plain", "lib", "libiofault.so")
LAYOUTS = [("main", {}, 1), ("subtoc", {"FDB_SUB_TOCS": "1"}, 1), ("async", {"FDB_ASYNC_WRITE": "1"}, 1), ("smallbuf", {"VF_RES": "fdbBufferSize=1024"}, 1),
           ("smallasync", {"FDB_ASYNC_WRITE": "1", "VF_RES": "fdbSizeAsyncBuffer=512;fdbNbAsyncBuffers=2"}, 1),
           ("evict", {"VF_RES": "fdbMaxNbDBsOpen=1;fdbMaxOpenDatabases=1"}, 1)]
WFAULTS = {"w": [("5", ""), ("28", ""), ("4", ""), ("short", "1"), ("short", "700"), ("shorterr", "100"), ("shorterr", "700")], "s": [("5", ""), ("4", ""), ("28", "")],
           "c": [("28", ""), ("24", ""), ("13", ""), ("4", "")], "a": [("24", ""), ("13", ""), ("5", "")], "m": [("28", ""), ("13", "")],
           "n": [("5", ""), ("28", "")], "o": [("24", ""), ("5", "")], "r": [("5", ""), ("short", "1"), ("short", "50"), ("4", "")], "D": [("5", ""), ("24", "")],
           "u": [("5", "")]}


def setup(rng, wd, name):
    store = os.path.join(wd, "store")
    os.makedirs(store + "/root0", exist_ok=True)
    schema = write(os.path.join(wd, "fdb.schema"), SCHEMA_A)
    return store, f"---\ntype: local\nengine: toc\nschema: {schema}\nspaces:\n- handler: Default\n  roots:\n  - path: {store}/root0\n"


def program(rng, ks):
    keys = [ks.key() for _ in range(5)]
    prog, seed = [], rng.randrange(1 << 40)
    for rnd in range(3):
        for _ in range(rng.choice([1, 2, 4])):
            seed += 1
            prog.append(("a", rng.choice(keys), seed, rng.choice([16, 700, 3000, 9000])))
        prog.append(("f",))
    prog.append(("f",))
    return prog


def torn(store):
    """a TOC ends in a record written in part, the rest of which the system refused to write"""
    return any(iolog.is_toc(os.path.join(p, f)) and os.path.getsize(os.path.join(p, f)) % 1024 for p, _, fs in os.walk(store) for f in fs)


def verify(w, d, must, may, ctx, strict):
    """must: {parts: set of acceptable recs}; may: set of (parts, rec) that are allowed to be seen"""
    h = "r"
    w.ok(w.open_op(h), d=d)
    r = w.do({"op": "list", "h": h, "mode2": "dedup", "all": True, "read": True}, d=d)
    if "err" in r:
        w.fail("store-unreadable", f"{ctx}: listing afterwards -> {short(r)}")
    rows = w.rows(r["items"], "after-fault")
    got = dict(rows)
    for p, rec in rows:
        if (p, rec) not in may:
            w.fail("foreign-data", f"{ctx}: {fmt(p)} is listed with {rec}, never archived for it")
    for p, okay in must.items():
        if p not in got:
            w.fail("acknowledged-lost", f"{ctx}: {fmt(p)} was archived and a later flush returned success, but it is not there")
        if got[p] not in okay:
            w.fail("acknowledged-stale", f"{ctx}: {fmt(p)} holds {got[p]}, not one of {okay}")
        r = w.do({"op": "retrieve", "h": h, "req": req(full(p))}, d=d)
        if "err" in r or len(w.recs(r, "after-fault", ctx)) != 1:
            w.fail("acknowledged-unreadable", f"{ctx}: {fmt(p)} -> {short(r)}")
    w.ok({"op": "close", "h": h}, d=d)


def writer(case, wd, res):
    i, part, nparts = case
    rng = rng_for("c07", c.seed, i)
    name, env, roots = LAYOUTS[i % len(LAYOUTS)]
    store, cfg = setup(rng, wd, name)
    ks = KeySpace(rng, ndb=2)
    prog = program(rng, ks)
    w = World(rng, wd, res, env=dict(env), config=cfg, tag=name, ks=ks)
    base_keys = [ks.key() for _ in range(2)]

    def fresh_store():
        shutil.rmtree(store)
        os.makedirs(store + "/root0")

    def run(spec):
        """-> (must, may, outcomes, op counts)"""
        fresh_store()
        must, may, sd = {}, set(), 1 << 41
        d0 = w.d
        w.ok(w.open_op("b"), d=d0)
        for k in base_keys:     # acknowledged before the fault
            sd += 1
            w.ok({"op": "archive", "h": "b", "key": keylist(k), "seed": sd, "len": 100}, d=d0)
            must[parts(k)] = {(sd, 100)}
            may.add((parts(k), (sd, 100)))
        w.ok({"op": "close", "h": "b"}, d=d0)
        if "subtoc" in name:    # nothing else
            pass
        d = track(Driver(wd, "plain", dict(env, VF_IO=f"root={store}"), "w", preload=LIB))
        out, pend, tainted = [], [], []
        died = None
        try:
            d.ok(w.open_op("w"))
            d.ok({"op": "io", "spec": "reset=1" + (";" + spec if spec else "")})
            for op in prog:
                if op[0] == "a":
                    _, k, seed, ln = op
                    p = parts(k)
                    may.add((p, (seed, ln)))
                    r = d.do({"op": "archive", "h": "w", "key": keylist(k), "seed": seed, "len": ln})
                    if "err" in r:
                        out.append("aE")
                        tainted.append((p, (seed, ln)))
                    else:
                        out.append("a")
                        pend.append((p, (seed, ln)))
                else:
                    r = d.do({"op": "flush", "h": "w"})
                    if "err" in r:
                        out.append("fE")
                    else:
                        out.append("f")
                        for p, rec in pend:
                            must[p] = {rec}
                        for p, rec in tainted:
                            if p in must:
                                must[p].add(rec)
                        pend = []
            cnt = {o: d.do({"op": "io", "count": o})["count"] for o in WFAULTS}
            d.do({"op": "io", "spec": "fault=off"})
            r = d.do({"op": "close", "h": "w"})
            out.append("cE" if "err" in r else "c")
            for p, rec in pend + tainted:
                if p in must:
                    must[p].add(rec)
            d.quit()
        except DriverHung as e:
            w.fail("hang", f"{name} fault {spec}, calls reported {out}: {e}")
        except DriverDied as e:
            died = e
            cnt = {}
            for p, rec in pend + tainted:
                if p in must:
                    must[p].add(rec)
        # only the last of several versions in one flush needs to survive; earlier ones stay allowed where the order is open
        return must, may, out, cnt, died
    must, may, out, cnt, died = run("")
    if died or "E" in "".join(out):
        raise CheckError(f"the fault-free run failed: {out} {died}")
    d = w.d
    verify(w, d, must, may, "no fault", True)
    plans = []
    for op, kinds in WFAULTS.items():
        for k in range(1, cnt.get(op, 0) + 1):
            for what, arg in kinds:
                plans.append((op, k, 1, what, arg))
            plans.append((op, k, 100000, kinds[0][0], kinds[0][1]))
            if op == "w":       # a full disk, space again after a while (writing the copy of the schema waits for it)
                plans.append((op, k, rng.choice([2, 5, 20]), "28", ""))
    rng2 = rng_for("plans", c.seed, i)
    rng2.shuffle(plans)
    plans = plans[part::nparts]
    limit = c.n(60, 100000)
    for op, k, n, what, arg in plans[:limit]:
        spec = f"fault={op}:{k}:{n}:{what}" + (f":{arg}" if arg else "")
        must, may, out, cnt2, died = run(spec)
        ctx = f"{name} fault {spec}, calls reported {' '.join(out)}" + (f", process ended rc={died.rc} {died.err[-400:]}" if died else "")
        w.trace = [str(x) for x in prog]
        if died and died.rc != -6:
            w.fail("crash", ctx)
        if died:
            res.count("aborted")
            if died.op not in ("quit",) and not (isinstance(died.op, dict) and died.op["op"] == "close"):
                if "BTree.cc" in died.err[-600:]:
                    res.violations.append({"sig": "abort-btree", "msg": ctx, "detail": {}})
                else:
                    w.fail("abort", ctx + str([l for l in died.err.split("\n") if "fdb5" in l][:12]))
            if "terminate called" not in died.err:
                w.fail("abort", ctx)
        if op == "s" and what in ("5", "28") and not died and "E" not in "".join(out):
            # the system reports a failed write-back once, and has dropped the data: trying again does not bring them back
            w.fail("sync-error-swallowed", ctx)
        d2 = w.d
        if torn(store):
            if not died and "E" not in "".join(out):
                w.fail("torn-toc-unreported", ctx)
            res.violations.append({"sig": "torn-toc-record", "msg": ctx, "detail": {}})
            continue
        try:
            verify(w, d2, must, may, ctx, True)
        except Violation as e:
            raise Violation(e.sig, f"{ctx}: {e.msg}")
        err = "E" in "".join(out) or died
        res.saw((name, op, what, arg, n > 1, "reported" if err else "survived"))
        res.count("fault_" + ("reported" if err else "survived"))
        # and the store can be written on
        if rng2.random() < .5:
            w.ok(w.open_op("z"), d=d2)
            r = w.do({"op": "archive", "h": "z", "key": keylist(prog[0][1]), "seed": 77777, "len": 64}, d=d2)
            r2 = w.do({"op": "flush", "h": "z"}, d=d2)
            w.do({"op": "close", "h": "z"}, d=d2)
            if "err" in r or "err" in r2:
                w.fail("store-unwritable", f"{ctx}: writing afterwards -> {short(r)} {short(r2)}")
            p = parts(prog[0][1])
            may.add((p, (77777, 64)))
            must[p] = {(77777, 64)}
            verify(w, d2, must, may, ctx + ", then written on", True)
    w.d.quit()
    res.sample({"layout": name, "calls": cnt, "faults": len(plans[:limit]), "possible": len(plans)})


def reader(case, wd, res):
    i, part, nparts = case
    rng = rng_for("c07r", c.seed, i)
    name, env, roots = [("main", {}, 1), ("subtoc", {"FDB_SUB_TOCS": "1"}, 1), ("nocache", {"FDB_CACHE_TOCS_ON_READ": "0"}, 1), ("nopre", {"_user": "---\npreloadTocBTree: false\n"}, 1),
                        ("loadthr", {"FDB_LOAD_INDEX_THREADS": "3"}, 1), ("seek", {"FDB_SEEKABLE_DATA_HANDLE": "1"}, 1)][i % 6]
    store, cfg = setup(rng, wd, name)
    w = World(rng, wd, res, env=dict(env), config=cfg, tag="r-" + name, ks=KeySpace(rng, ndb=2), lens=[16, 5000, 70000])
    w.open("w")
    for _ in range(12):
        w.archive("w")
        if rng.random() < .3:
            w.flush("w")
    w.close("w")
    env2 = {k: v for k, v in env.items() if k != "_user"}
    queries = [("retrieve", full(p), None) for p in rng.sample(sorted(w.model.visible(), key=repr), min(4, len(w.model.visible())))]
    q = w.rand_full(1)
    queries.append(("retrieve", q, None))
    queries += [("list", {}, "full"), ("list", w.rand_request(), "dedup"), ("inspect", q, None)]

    def ask(d, kind, q, mode):
        d.ok(w.open_op("q"))
        d.ok({"op": "io", "spec": "reset=1"})
        op = {"op": kind, "h": "q", "read": True}
        op.update({"req": req(q)} if q else {"all": True})
        if mode:
            op["mode2"] = mode
        r = d.do(op)
        return r
    expect = {}
    d = track(Driver(wd, "plain", dict(env2, VF_IO=f"root={store}"), "r0", preload=LIB))
    plans = []
    for x, (kind, q, mode) in enumerate(queries):
        r = ask(d, kind, q, mode)
        if "err" in r:
            w.fail("unexpected-error", short(r))
        expect[x] = collections.Counter(w.recs(r, "x", "x")) if kind == "retrieve" else collections.Counter(w.rows(r["items"], "x"))
        cnt = {o: d.do({"op": "io", "count": o})["count"] for o in WFAULTS}
        d.ok({"op": "close", "h": "q"})
        for o, kinds in WFAULTS.items():
            for k in range(1, cnt[o] + 1):
                for what, arg in kinds:
                    plans.append((x, o, k, 1, what, arg))
                plans.append((x, o, k, 100000, kinds[0][0], kinds[0][1]))
    rng.shuffle(plans)
    plans = plans[part::nparts][:c.n(120, 100000)]
    for x, o, k, n, what, arg in plans:
        kind, q, mode = queries[x]
        spec = f"fault={o}:{k}:{n}:{what}" + (f":{arg}" if arg else "")
        d.ok(w.open_op("q"))
        d.ok({"op": "io", "spec": "reset=1;" + spec})
        op = {"op": kind, "h": "q", "read": True}
        op.update({"req": req(q)} if q else {"all": True})
        if mode:
            op["mode2"] = mode
        ctx = f"{name} {kind} {q} with {spec}"
        try:
            r = d.do(op)
        except DriverDied as e:
            w.fail("reader-crash", f"{ctx}: {e}")
        d.do({"op": "io", "spec": "fault=off"})
        d.do({"op": "close", "h": "q"})
        outcome = "reported"
        if "err" not in r:
            if kind != "retrieve" and any("readerr" in it for it in r["items"]):
                outcome = "reported"
            else:
                got = collections.Counter(w.recs(r, "fault-retrieve", ctx)) if kind == "retrieve" else collections.Counter(w.rows(r["items"], "fault-" + kind))
                outcome = "survived"
                if kind == "list":      # databases that cannot be read are left out with a logged error
                    if got - expect[x]:
                        w.fail("silent-wrong-list", f"{ctx}: lists {list((got - expect[x]).elements())}")
                    if got != expect[x]:
                        outcome = "shortened"
                elif got != expect[x]:
                    w.fail(f"silent-short-{kind}", f"{ctx}: returned {len(list(got.elements()))} of {len(list(expect[x].elements()))} without an error")
        res.saw(("reader", name, kind, o, what, arg, n > 1, outcome))
        res.count("reader_" + outcome)
        # the process goes on and answers rightly
        if rng.random() < .2:
            r = ask(d, kind, q, mode)
            d.ok({"op": "close", "h": "q"})
            got = None if "err" in r else collections.Counter(w.recs(r, "x", ctx)) if kind == "retrieve" else collections.Counter(w.rows(r["items"], "x"))
            if got != expect[x]:
                w.fail("fault-lingers", f"{ctx}: afterwards, without fault -> {short(r)}")
    d.quit()
    w.d.quit()


ensure("plain")
n = c.n(1, 8)
c.run(writer, [(i, p, n) for i in range(c.n(48, 120)) for p in range(n)])
c.run(reader, [(i, p, n) for i in range(c.n(24, 48)) for p in range(n)])
c.finish(300)
