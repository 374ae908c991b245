import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *
from vf import iolog

c = Check("C06", "fault_enumeration", "recorded runs of writers; for the instants between (and within) their file system calls the store image left by a kill or a power cut "
          "is rebuilt and read, extended and re-read by fresh processes; plus writers really killed. distinct = (layout, kind of call at the crash, model, fields in flight)",
          ["directory operations (create, rename, mkdir) are durable once performed; file data are durable up to the last fsync/fdatasync of the file"])
LAYOUTS = [("main", {}, 1), ("subtoc", {"FDB_SUB_TOCS": "1"}, 1), ("async", {"FDB_ASYNC_WRITE": "1"}, 1), ("ser1", {"FDB_SERIALISATION_VERSION": "1"}, 1),
           ("ser2", {"FDB_SERIALISATION_VERSION": "2"}, 2), ("evict", {"VF_RES": "fdbMaxNbDBsOpen=1;fdbMaxOpenDatabases=1"}, 1), ("main2", {}, 2),
           ("subtocloose", {"FDB_SUB_TOCS": "1", "FDB_LOAD_INDEX_THREADS": "3"}, 1), ("smallbuf", {"VF_RES": "fdbBufferSize=1024"}, 1),
           ("idxpoint", {"FDB_INDEX_TYPE": "PointDBIndex"}, 1)]
LIB = os.path.join(BUILD, "plain", "lib", "libiofault.so")


def read_store(w, d, what, acked, maybe, ctx, strict_full):
    """acked: list of (parts, rec) acknowledged, in order; maybe: list of (parts, rec) archived and not acknowledged"""
    h = "r"
    w.ok(w.open_op(h), d=d)
    try:
        okay = collections.Counter(acked) + collections.Counter(maybe)
        vis = dict(acked)
        for mode in ("full", "dedup"):
            r = w.do({"op": "list", "h": h, "mode2": mode, "all": True, "read": True}, d=d)
            if "err" in r:
                w.fail(f"{what}-list-error", f"{ctx}: listing after the crash -> {short(r)}")
            rows = w.rows(r["items"], what + "-list")
            for p, rec in rows:
                if (p, rec) not in okay:
                    w.fail(f"{what}-list-foreign", f"{ctx}: {mode} listing shows {fmt(p)} = {rec}, never archived for it")
            have = collections.Counter(rows)
            if mode == "full":
                lost = [(p, v) for p, v in vis.items() if (p, v) not in have and not any(q == p for q, _ in maybe)] if not strict_full else list((collections.Counter(acked) - have).elements())
            else:
                got = dict(rows)
                lost = [(p, v) for p, v in vis.items() if p not in got or (got[p] != v and (p, got[p]) not in maybe)]
                for p, n in collections.Counter(p for p, _ in rows).items():
                    if n > 1:
                        w.fail(f"{what}-list-twice", f"{ctx}: de-duplicated listing shows {fmt(p)} {n} times")
            if lost:
                w.fail(f"{what}-acknowledged-lost", f"{ctx}: {mode} listing lacks {len(lost)} acknowledged fields, e.g. {[(fmt(p), v) for p, v in lost[:3]]}")
        for p, v in vis.items():
            q = full(p)
            r = w.do({"op": "retrieve", "h": h, "req": req(q)}, d=d)
            if "err" in r:
                w.fail(f"{what}-retrieve-error", f"{ctx}: retrieval of {q} -> {short(r)}")
            got = w.recs(r, what + "-retrieve", ctx)
            if len(got) != 1 or (got[0] != v and (p, got[0]) not in maybe):
                w.fail(f"{what}-acknowledged-lost", f"{ctx}: {q} delivers {got}, acknowledged {v}, in flight {[x for y, x in maybe if y == p]}")
    finally:
        w.do({"op": "close", "h": h}, d=d)


def record(i, wd, res):
    """One recorded writer (or two at once), then every/sampled crash instants"""
    rng = rng_for("c06", c.seed, i)
    name, env, roots = LAYOUTS[i % len(LAYOUTS)]
    nproc = 2 if (i // len(LAYOUTS)) % 3 == 2 and "subtoc" not in name else 1
    store = os.path.join(wd, "store")
    os.makedirs(store)
    schema = write(os.path.join(wd, "fdb.schema"), SCHEMA_A)
    cfg = f"---\ntype: local\nengine: toc\nschema: {schema}\nspaces:\n- handler: Default\n  roots:\n"
    for r in range(roots):
        os.makedirs(f"{store}/root{r}")
        cfg += f"  - path: {store}/root{r}\n"
    w = World(rng, wd, res, env=dict(env), config=cfg, tag=name, ks=KeySpace(rng, ndb=2))
    logs = [os.path.join(wd, f"io{j}.log") for j in range(nproc)]
    seqf = os.path.join(wd, "seq")
    ds = []
    for j in range(nproc):
        e = dict(env, VF_IO=f"root={store};log={logs[j]};seq={seqf};data=1")
        ds.append(track(Driver(wd, "plain", e, f"w{j}", preload=LIB)))
    info = {}     # tag -> (kind, payload)
    n = 0

    def mark(d, kind, val):
        nonlocal n
        n += 1
        info[f"m{n}"] = (kind, val)
        d.ok({"op": "io", "mark": f"m{n}"})
    pend = [[] for _ in ds]
    keys = [w.ks.key() for _ in range(rng.choice([3, 6, 12]))]
    handles = [False] * nproc
    seed = rng.randrange(1 << 40)
    prog = []
    for s in range(c.n(22, 40)):
        j = rng.randrange(nproc)
        d = ds[j]
        if not handles[j]:
            d.ok(dict(w.open_op("w")))
            handles[j] = True
        a = rng.random()
        if a < .62:
            k = rng.choice(keys)
            seed += 1
            ln = rng.choice([16, 60, 900, 5000, 20000])
            mark(d, "archive", (j, parts(k, w.model.rule_of), (seed, ln)))
            d.ok({"op": "archive", "h": "w", "key": keylist(k, rng=rng), "seed": seed, "len": ln})
            prog.append("a")
        elif a < .9 or s > 20:
            d.ok({"op": "flush", "h": "w"})
            mark(d, "ack", j)
            prog.append("f")
        else:
            d.ok({"op": "close", "h": "w"})
            mark(d, "ack", j)
            handles[j] = False
            prog.append("c")
    for j, d in enumerate(ds):
        if handles[j]:
            d.ok({"op": "close", "h": "w"})
            mark(d, "ack", j)
        d.quit()
    recs = sorted((r for j, l in enumerate(logs) for r in iolog.load(l, j)), key=lambda r: r.seq)
    nops = len(recs)
    # crash instants: before each call that changes something, and inside each write
    points = []
    for x, r in enumerate(recs):
        if r.op in "cmwsntuRM" and not (r.op == "M" and info[r.path][0] == "archive"):
            points.append((x, None))
            if r.op == "w" and r.ret > 1 and not iolog.is_toc(r.path):
                points.append((x, "torn"))
    points.append((nops, None))
    budget = c.n(70, 600)
    if len(points) > budget:
        points = sorted(rng.sample(points, budget), key=lambda t: (t[0], t[1] or ""))
    reader = track(Driver(wd, "plain", {k: v for k, v in env.items()}, "reader"))
    writer = None
    sim = iolog.Sim()
    acked, pending, superseded = [], [[] for _ in ds], []
    done = 0
    ops_seen = collections.Counter(r.op for r in recs)
    for x, torn in points:
        while done < x:
            r = recs[done]
            done += 1
            if r.op == "M":
                kind, v = info[r.path]
                if kind == "archive":
                    pending[v[0]].append((v[1], v[2]))
                else:
                    if pending[v]:
                        # within one flush, the last archived is the one kept
                        last = {}
                        for p, rec in pending[v]:
                            last.pop(p, None)
                            last[p] = rec
                        acked += list(last.items())
                        superseded += [x for x in pending[v] if last[x[0]] != x[1]]
                        pending[v] = []
            else:
                sim.apply(r)
        maybe = [x for l in pending for x in l]
        if "evict" in name:     # leaving a database flushes it: earlier versions may have become visible
            maybe = maybe + superseded
        if nproc > 1 or "evict" in name:     # order of acknowledgement need not be the order of the TOC records: any recent version may be the visible one
            maybe = maybe + acked
        nxt = recs[x].op if x < nops else "end"
        for model in (("kill", "lost", "some") if torn is None else ("kill", "some")):
            s = sim
            cut = 0
            if torn:
                cut = rng.randrange(1, recs[x].ret)
                import copy
                s = copy.deepcopy(sim)
                s.apply(recs[x], cut)
            s.materialise(store, model, rng_for(c.seed, i, x, model))
            for r in range(roots):
                os.makedirs(f"{store}/root{r}", exist_ok=True)
            ctx = f"crash ({model}{' inside' if torn else ' before'} {recs[x] if x < nops else 'end'}{' after %d bytes' % cut if torn else ''}; previous calls {recs[max(0, x - 4):x]})"
            w.trace = prog[:]
            read_store(w, reader, "crash", acked, maybe, ctx, strict_full="subtoc" not in name)
            res.saw((name, nproc, nxt, bool(torn), model, min(len(maybe), 4), min(len(acked), 4)))
            res.count("images_" + model)
            # another process goes on writing
            if rng.random() < c.n(.35, .6):
                w.ok(w.open_op("w2"), d=reader)
                more = []
                for _ in range(rng.choice([1, 3])):
                    k = rng.choice(keys) if rng.random() < .7 else w.ks.key()
                    seed += 1
                    w.ok({"op": "archive", "h": "w2", "key": keylist(k), "seed": seed, "len": 333}, d=reader)
                    more.append((parts(k, w.model.rule_of), (seed, 333)))
                w.ok({"op": "flush", "h": "w2"}, d=reader)
                last = {}
                for p, rec in more:
                    last[p] = rec
                old = [(p, rec) for p, rec in maybe if p not in last] if nproc == 1 and "evict" not in name else maybe
                if nproc == 1 and "evict" not in name:
                    # whatever was in flight is now older than what was just acknowledged
                    read_store_after(w, reader, acked, list(last.items()), maybe, ctx, "subtoc" not in name)
                else:
                    read_store(w, reader, "after-crash", acked + list(last.items()), maybe + more, ctx, "subtoc" not in name)
                w.ok({"op": "close", "h": "w2"}, d=reader)
                if "subtoc" in name:
                    read_store(w, reader, "after-crash", acked + list(last.items()), maybe, ctx, False)
                res.count("resumed")
            if rng.random() < .03:
                reader.quit()
                reader = track(Driver(wd, "plain", dict(env), "reader"))
    reader.quit()
    w.d.quit()
    res.count("recorded_calls", nops)
    res.count("crash_points", len(points))
    res.sample({"layout": name, "processes": nproc, "calls": dict(ops_seen), "points": len(points), "program": "".join(prog)})


def read_store_after(w, d, acked, new, maybe, ctx, strict):
    read_store(w, d, "after-crash", acked + new, [x for x in maybe], ctx, strict)
    h = "r2"
    w.ok(w.open_op(h), d=d)
    for p, v in new:     # the newest acknowledged version, not the one in flight at the crash
        r = w.ok({"op": "retrieve", "h": h, "req": req(full(p))}, d=d)
        got = w.recs(r, "after-crash-retrieve", ctx)
        if got != [v]:
            w.fail("after-crash-stale", f"{ctx}: {full(p)} delivers {got} after {v} was archived and flushed")
    w.ok({"op": "close", "h": h}, d=d)


def killed(i, wd, res):
    """Writers that are really killed, at a random call below the store or at a random time; others go on meanwhile"""
    rng = rng_for("c06k", c.seed, i)
    name, env, roots = LAYOUTS[i % len(LAYOUTS)]
    store = os.path.join(wd, "store")
    os.makedirs(store + "/root0")
    schema = write(os.path.join(wd, "fdb.schema"), SCHEMA_A)
    cfg = f"---\ntype: local\nengine: toc\nschema: {schema}\nspaces:\n- handler: Default\n  roots:\n  - path: {store}/root0\n"
    w = World(rng, wd, res, env=dict(env), config=cfg, tag="kill-" + name, ks=KeySpace(rng, ndb=2))
    keys = [w.ks.key() for _ in range(8)]
    acked, maybe = [], []
    seed = rng.randrange(1 << 40)
    for life in range(c.n(5, 12)):
        target = rng.randrange(1, 60)
        spec = f"root={store};fault=cmwsnu:{target}:1:" + (f"tear:{rng.randrange(1, 300)}" if rng.random() < .4 else "kill")
        if "tear" in spec:
            spec = spec.replace("cmwsnu", "w")
        d = track(Driver(wd, "plain", dict(env, VF_IO=spec), f"k{life}", preload=LIB))
        tail = []
        try:
            d.ok(w.open_op("w"))
            for s in range(60):
                a = rng.random()
                if a < .75:
                    k = rng.choice(keys)
                    seed += 1
                    ln = rng.choice([16, 500, 9000])
                    tail.append((parts(k, w.model.rule_of), (seed, ln)))
                    d.ok({"op": "archive", "h": "w", "key": keylist(k), "seed": seed, "len": ln})
                else:
                    d.ok({"op": "flush", "h": "w"})
                    last = {}
                    for p, r in tail:
                        last.pop(p, None)
                        last[p] = r
                    acked += list(last.items())
                    maybe += [x for x in tail if last[x[0]] != x[1]]
                    tail = []
            d.kill()
        except DriverDied as e:
            if e.rc != -9:
                raise
            res.count("killed_in_call")
        maybe += tail
        # a torn TOC record is a finding of its own (torn_toc)
        if any(os.path.getsize(os.path.join(b, f)) % 1024 for b, _, fs in os.walk(store) for f in fs if iolog.is_toc(f)):
            res.count("torn_toc_skipped")
            break
        read_store(w, w.d, "killed", acked, maybe + acked, f"writer {life} killed at call {target}", "subtoc" not in name)
        res.saw(("killed", name, min(len(acked), 6), min(len(tail), 3)))
    w.d.quit()


def torn_toc(i, wd, res):
    """A TOC record written in part (kill between two pages, power cut): its database, and the others, must stay readable"""
    env = [{}, {"FDB_SUB_TOCS": "1"}][i]
    w = World(rng_for("torn"), wd, res, env=env, tag="torn")
    w.open("w")
    ks = [dict({"class": "od"}, expver="0001", stream="enfo", date=d, time="0000", type="pf", levtype="sfc", step=s, number="1", param="167") for d in ("20200101", "20200102") for s in ("0", "6")]
    for k in ks[:1] + ks[2:]:
        w.archive("w", k)
    w.flush("w")
    before = {t: os.path.getsize(t) for t in glob.glob(wd + "/fdb-root0/*20200101*/toc*")}
    w.archive("w", ks[1])
    w.flush("w")
    grown = [t for t in before if os.path.getsize(t) > before[t]]
    w.d.kill()
    for t in grown:
        os.truncate(t, before[t] + 512)
    d = track(w.mk("torn"))
    d.ok(w.open_op("r"))
    problems = []
    r = d.do({"op": "list", "h": "r", "all": True})
    if "err" in r or len(r["items"]) < 3:
        problems.append("list: " + short(r, 200))
    for k in ks[:1] + ks[2:]:
        r = d.do({"op": "retrieve", "h": "r", "req": req(k)})
        if "err" in r or len(r["rec"]) != 1:
            problems.append(f"retrieve {k['date']}: " + short(r, 200))
    res.saw(("torn", i))
    if problems:
        raise Violation("torn-toc-record" + ("-sub" if i else ""), "; ".join(problems), grown=grown)


ensure("plain")
c.run(killed, range(c.n(20, 300)))
c.run(torn_toc, range(2))
c.run(record, range(c.n(20, 400)))
c.finish(500)
