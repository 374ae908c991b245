import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *

c = Check("C02", "exploration", "histories of repeated archives of few identifiers by several handles and successive processes; every answer compared with "
          "a model of flush order; every location ever reported re-read, every data file prefix re-hashed; distinct = (query kind, sizes, layout)")
W = dict(archive=60, flush=14, close=5, restart=3, retrieve=12, inspect=6, list=14, depth=0, axes=0, compact=1, immut=4, stats=0)


def narrow(w):
    """Few identifiers, so that nearly every archive overwrites"""
    keys = [w.ks.key() for _ in range(w.rng.choice([1, 2, 4, 8]))]
    w.ks.key = lambda db=None: dict(w.rng.choice(keys))


def hist(i, wd, res):
    w = make_world(i, wd, res, c.seed, lens=[16, 50, 1000, 5000])
    narrow(w)
    history(w, 70, W)


def twoproc(i, wd, res):
    """Two writer processes alternating on the same identifiers, each with its own long-lived handle"""
    name, env, roots = VARIANTS[i % len(VARIANTS)]
    if "SUB_TOCS" in str(env) or "_sub" in env or "evict" in name:
        env, name = {}, "main"
    rng = rng_for("c02two", c.seed, i)
    w = World(rng, wd, res, env=env, config=local_config(wd, roots), tag="2p-" + name)
    narrow(w)
    procs = {"a": track(w.mk("pa")), "b": track(w.mk("pb"))}
    for p, d in procs.items():
        w.open(p, d=d)
    for step in range(60):
        p = rng.choice("ab")
        a = rng.random()
        if a < .6:
            k = w.ks.key()
            w.seed += 1
            ln = rng.choice(w.lens)
            w.ok({"op": "archive", "h": p, "key": keylist(k, rng=rng), "seed": w.seed, "len": ln}, d=procs[p])
            w.model.archive(w.handles[p], k, w.seed, ln)
        elif a < .85:
            w.ok({"op": "flush", "h": p}, d=procs[p])
            w.model.flush(w.handles[p])
        elif a < .9:
            w.ok({"op": "close", "h": p}, d=procs[p])
            w.model.flush(w.handles.pop(p))
            if rng.random() < .5:
                procs[p].quit()
                procs[p] = track(w.mk("p" + p))
            w.open(p, d=procs[p])
        else:
            w.check_list({}, rng.choice(["full", "dedup", "onlydup"]))
            w.check_retrieve(w.rand_full())
    for p in "ab":
        w.ok({"op": "close", "h": p}, d=procs[p])
        w.model.flush(w.handles.pop(p))
        procs[p].quit()
    w.check_all()
    w.end()


def bigmask(i, wd, res):
    """Large overlapping flushes: masking through split B-trees"""
    rng = rng_for("c02big", c.seed, i)
    env = [{}, {"FDB_SUB_TOCS": "1"}, {"FDB_LOAD_INDEX_THREADS": "4"}][i % 3]
    w = World(rng, wd, res, env=env, tag="bigmask%d" % (i % 3))
    db = {"class": "rd", "expver": "xxxx", "stream": "enfo", "date": "20200101", "time": "0000", "type": "pf", "levtype": "pl"}
    keys = [dict(db, step=str(s), number=str(n), levelist=l, param=p) for s in range(0, 60, 6) for n in range(8) for l in ("1", "10", "100", "1000")
            for p in ("1", "13", "130", "131")]
    for rnd in range(4):
        w.open("w")
        for part in range(2):
            sel = rng.sample(keys, rng.choice([len(keys), len(keys) // 2, 50]))
            ops = []
            for k in sel:
                w.seed += 1
                ops.append({"op": "archive", "h": "w", "key": keylist(k), "seed": w.seed, "len": 16 + w.seed % 30})
                w.model.archive(w.handles["w"], k, w.seed, 16 + w.seed % 30)
            bad = [x for x in w.d.par([ops])[0] if "err" in x[2]]
            if bad:
                w.fail("unexpected-error:archive", short(bad[0]))
            w.flush("w")
        w.close("w")
        if rng.random() < .5:
            restart(w)
        note_locations(w)
    for m in ("full", "dedup", "onlydup"):
        w.check_list({}, m)
    w.check_retrieve(dict({n: [v] for n, v in db.items()}, step=[str(s) for s in range(0, 60, 6)], number=[str(n) for n in range(8)],
                          levelist=["1", "10", "100", "1000"], param=["1", "13", "130", "131"]))
    immutability(w)
    w.end()


ensure("plain")
c.run(hist, range(c.n(300, 12000)))
c.run(twoproc, range(c.n(48, 2000)))
c.run(bigmask, range(c.n(6, 90)))
c.finish(500)
