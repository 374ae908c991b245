import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *

c = Check("C01", "exploration", "histories of archive/flush/close/reopen over every local layout, each answer compared with a reference model; "
          "distinct = (query kind, result size, request shape, layout) and special situations (sizes around buffers, many databases, B-tree splits)")
W = dict(archive=55, flush=12, close=5, restart=3, retrieve=22, inspect=10, list=3, depth=0, axes=0, compact=0, immut=0, stats=0)


def hist(i, wd, res):
    w = make_world(i, wd, res, c.seed, lens=None if i % 5 else [16, 1023, 1024, 1025, 2048, 4095, 65536, 1 << 20])
    history(w, 70, W)


def sizes(i, wd, res):
    """Every tiny length, every length around the buffer sizes, fields larger than the buffers"""
    rng = rng_for("c01sizes", c.seed, i)
    name, env, roots = [("main", {}, 1), ("async", {"FDB_ASYNC_WRITE": "1"}, 1), ("smallbuf", {"VF_RES": "fdbBufferSize=4096"}, 1),
                        ("smallasync", {"FDB_ASYNC_WRITE": "1", "VF_RES": "fdbSizeAsyncBuffer=4096;fdbNbAsyncBuffers=2"}, 1),
                        ("subtoc", {"FDB_SUB_TOCS": "1"}, 1)][i % 5]
    w = World(rng, wd, res, env=env, tag=name)
    w.open("w")
    lens = list(range(1, 18)) + [4095, 4096, 4097, 8191, 8193, 65535, 65537, (1 << 20) + 1, 3 * (1 << 20), 4 * (1 << 20) + 3]
    if i < 5 and name in ("main", "async"):
        lens += [64 * (1 << 20) - 1, 64 * (1 << 20) + 5]
    rng.shuffle(lens)
    want = {}
    for n, ln in enumerate(lens):
        k = {"class": "od", "expver": "xxxx", "stream": "oper", "date": "20200101", "time": "0000", "type": "fc", "levtype": "sfc",
             "step": str(n), "param": str(rng.choice([130, 131]))}
        seed = rng.getrandbits(40)
        w.ok({"op": "archive", "h": "w", "key": keylist(k), "seed": seed, "len": ln} if ln >= 16 else
             {"op": "archive", "h": "w", "key": keylist(k), "hex": payload(seed, 16)[:ln].hex()})
        want[n] = (k, hashlib.md5(payload(seed, 16)[:ln] if ln < 16 else payload(seed, ln)).hexdigest(), ln, seed)
        if rng.random() < .3:
            w.flush("w")
    w.close("w")
    restart(w)
    for n, (k, md, ln, seed) in want.items():
        for op in ("retrieve", "list"):
            q = w.fresh()
            if op == "retrieve":
                r = w.ok({"op": op, "h": q, "req": req(k), "chunk": rng.choice([1 << 20, 1000, 4096])})
            else:
                its = w.ok({"op": op, "h": q, "req": req(k), "read": True, "md5": True})["items"]
                if len(its) != 1:
                    w.fail("list-multiplicity", f"{k} listed {len(its)} times")
                r = its[0]
                if r["len"] != ln:
                    w.fail("length-wrong", f"field of {ln} bytes is listed with {r['len']}")
            if r["n"] != ln or r["md5"] != md:
                w.fail("retrieve-wrong-bytes", f"field of {ln} bytes came back with {r['n']} bytes, other content ({op})")
            w.done(q)
        res.saw(("size", ln, name))
    # all fields at once: the concatenation, each exactly once
    for par in ("130", "131"):
        sel = [v for v in want.values() if v[0]["param"] == par]
        q = dict(sel[0][0], step=[v[0]["step"] for v in sel])
        h = w.fresh()
        r = w.ok({"op": "retrieve", "h": h, "req": req(q), "mode": "none"})
        if r["n"] != sum(v[2] for v in sel):
            w.fail("retrieve-total", f"{len(sel)} fields of {sum(v[2] for v in sel)} bytes delivered {r['n']}")
        w.done(h)
    w.d.quit()
    res.sample({"sizes": sorted(lens)[-6:], "layout": name})


def manydb(i, wd, res):
    """More databases than the archiver and the reader keep open; one request over all of them"""
    rng = rng_for("c01many", c.seed, i)
    env = [{}, {"FDB_SUB_TOCS": "1"}, {"VF_RES": "fdbMaxNbDBsOpen=3;fdbMaxOpenDatabases=2"}][i % 3]
    w = World(rng, wd, res, env=env, config=local_config(wd, 3), tag="manydb%d" % (i % 3))
    w.open("w")
    dates = ["202001%02d" % d for d in range(1, 29)]
    times = ["0000", "0600", "1200"]
    steps = [str(s) for s in range(rng.choice([1, 2, 3]))]
    keys = [dict(**{"class": "od"}, expver="0001", stream="oper", date=d, time=t, type="fc", levtype="sfc", step=s, param="167")
            for d in dates for t in times for s in steps]
    for rnd in range(2):     # second round overwrites half, revisiting evicted databases
        sel = keys if rnd == 0 else rng.sample(keys, len(keys) // 2)
        sel = list(sel)
        rng.shuffle(sel)
        for k in sel:
            w.archive("w", k, ln=rng.choice([16, 100, 2000]))
        if rng.random() < .7:
            w.flush("w")
    w.close("w")
    restart(w)
    full_req = {"class": ["od"], "expver": ["0001"], "stream": ["oper"], "date": dates, "time": times, "type": ["fc"], "levtype": ["sfc"],
                "step": steps, "param": ["167"]}
    w.check_retrieve(full_req)
    for _ in range(3):
        w.check_retrieve(dict(full_req, date=rng.sample(dates, 20), time=rng.sample(times, 2)))
    w.check_inspect(full_req)
    w.check_list({}, "dedup")
    w.end()


def bigindex(i, wd, res):
    """Thousands of fields in one index: B-tree splits; also several flushes"""
    rng = rng_for("c01big", c.seed, i)
    env = [{}, {"FDB_INDEX_TYPE": "BTreeIndex64"}, {"FDB_INDEX_TYPE": "PointDBIndex"}, {"FDB_SUB_TOCS": "1"}][i % 4]
    w = World(rng, wd, res, env=env, tag="big%d" % (i % 4))
    w.open("w")
    db = {"class": "rd", "expver": "xxxx", "stream": "enfo", "date": "20200101", "time": "0000", "type": "pf", "levtype": "pl"}
    dims = dict(step=[str(6 * s) for s in range(30)], number=[str(n) for n in range(c.n(12, 30))], levelist=["1", "10", "100", "500", "850", "1000"],
                param=["129", "130", "131", "132"])
    keys = [dict(db, step=s, number=n, levelist=l, param=p) for s in dims["step"] for n in dims["number"] for l in dims["levelist"] for p in dims["param"]]
    rng.shuffle(keys)
    ops, pend = [], []
    for k in keys:
        w.seed += 1
        ops.append({"op": "archive", "h": "w", "key": keylist(k), "seed": w.seed, "len": 16 + w.seed % 40})
        w.model.archive(w.handles["w"], k, w.seed, 16 + w.seed % 40)
    cut = len(ops) // 2
    for part in (ops[:cut], ops[cut:]):
        r = w.d.par([part])[0]
        bad = [x for x in r if "err" in x[2]]
        if bad:
            w.fail("unexpected-error:archive", short(bad[0]))
        if i % 2:
            w.flush("w")
    w.close("w")
    restart(w)
    w.check_retrieve(dict({n: [v] for n, v in db.items()}, **dims))
    for _ in range(4):
        w.check_retrieve(dict({n: [v] for n, v in db.items()}, **{n: rng.sample(v, rng.randint(1, len(v))) for n, v in dims.items()}))
    w.check_list({}, read=False)
    for _ in range(4):
        w.check_list({n: rng.sample(v, rng.randint(1, 3)) for n, v in dims.items() if rng.random() < .6})
    for _ in range(40):
        k = rng.choice(keys)
        w.check_retrieve({n: [v] for n, v in k.items()})
    res.count("big_index_fields", len(keys))
    w.end()


ensure("plain")
c.run(hist, range(c.n(300, 12000)))
c.run(sizes, range(c.n(5, 60)))
c.run(manydb, range(c.n(3, 45)))
c.run(bigindex, range(c.n(4, 60)))
c.finish(500)
