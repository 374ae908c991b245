import sys, os, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.remote import *

c = Check("C19", "monitored",
          "A client process drives servers on loopback ports through random histories (archive, flush, restart, listing at every depth, "
          "inspect, retrieve, axes, statistics, compact listing, wipe, part wipe) and every answer is compared with the model a local handle "
          "is held to. Crowds of clients on the same servers and databases read back what they flushed while the others write.",
          ["Servers and clients share one machine."])
W = dict(archive=45, flush=12, close=4, restart=2, list=8, depth=4, retrieve=14, inspect=6, axes=5, compact=2, immut=2, stats=3, wipe=2, partwipe=2)


def mono(w, db):
    return not any(dict(db).items() <= dict(o).items() for o in w.model.created if o != db)


def wipe(w):
    r = w.rng
    for h in list(w.handles):
        w.close(h)
    dbs = [d for d in sorted(w.model.dbs, key=repr) if mono(w, d) and w.model.dbs[d]]
    if not dbs:
        return
    db = r.choice(dbs)
    q = {n: [v] for n, v in db}
    if r.random() < .3:
        h = w.fresh()
        w.ok({"op": "wipe", "h": h, "doit": False, "req": req(q)})
        w.done(h)
        w.check_list(q)
    h = w.fresh()
    w.ok({"op": "wipe", "h": h, "doit": True, "req": req(q)})
    w.done(h)
    w.model.dbs.pop(db)
    w.model.created.discard(db)
    gone(w)
    w.res.count("wipes")
    w.res.saw(("wipe", w.tag))
    w.check_list({}, "full")


def gone(w):
    for k, rec in list(w.seen_locs.items()):
        if rec not in {x for _, x in w.model.all()}:
            del w.seen_locs[k]
    w.files = {p: v for p, v in w.files.items() if any(k[0] == p for k in w.seen_locs)}


def partwipe(w):
    r = w.rng
    for h in list(w.handles):
        w.close(h)
    cand = [(d, i) for d, bs in sorted(w.model.dbs.items(), key=repr) if mono(w, d) for i in sorted({b[0] for b in bs}, key=repr)]
    cand = [(d, i) for d, i in cand if any(not dict(i).items() <= dict(b[0]).items() for b in w.model.dbs[d])]
    if not cand:
        return
    db, i = r.choice(cand)
    q = {n: [v] for n, v in list(db) + list(i)}
    h = w.fresh()
    w.ok({"op": "wipe", "h": h, "doit": True, "req": req(q)})
    w.done(h)
    w.model.dbs[db] = [b for b in w.model.dbs[db] if not dict(i).items() <= dict(b[0]).items()]
    gone(w)
    w.res.count("part_wipes")
    w.res.saw(("partwipe", w.tag))
    w.check_list({}, "full")


def hist(i, wd, res):
    w = remote_world(i, wd, res, c.seed, lens=None if i % 4 else [16, 1000, 65536, 1 << 20, 5 << 20])
    try:
        weights = dict(W, wipe=0, partwipe=0) if w.tag.startswith("localcat") else W
        history(w, 60, weights, extra={"wipe": wipe, "partwipe": partwipe})
    except Violation as v:
        v.msg += "\n" + "\n".join(f"[{n}] {w.cl.out(n)[-1500:]}" for n in w.cl.procs)
        raise
    if w.cl.dead():
        w.fail("server-died", f"{w.cl.dead()}: {[w.cl.out(n)[-2000:] for n in w.cl.dead()]}")


def crowd(i, wd, res):
    """several clients at once, each with its own fields, in the same databases"""
    w = remote_world(i + 1000, wd, res, c.seed)
    n = w.rng.choice([2, 3, 4])
    fails, done = [], []
    plan = [rng_for("crowd", c.seed, i, j) for j in range(n)]
    keys = {}
    for _ in range(120):
        k = w.ks.key()
        keys[parts(k, w.model.rule_of)] = k
    mine = [[] for _ in range(n)]
    for x, p in enumerate(sorted(keys, key=fmt)):
        mine[x % n].append(p)
    drv = [w.mk(f"client{j}") for j in range(n)]
    for d in drv:
        track(d)

    def client(j):
        r, d, m, seed = plan[j], drv[j], Model(w.model.rule_of), (j + 1) << 36
        for _ in range(r.choice([4, 6, 8])):
            h = f"h{j}"
            w.ok(w.open_op(h), d=d)
            pend = m.pending()
            for _ in range(r.choice([1, 2, 3])):
                for _ in range(r.choice([1, 3, 10, 40])):
                    k = keys[r.choice(mine[j])]
                    seed += 1
                    ln = r.choice([16, 100, 4096, 65536, 300000])
                    w.ok({"op": "archive", "h": h, "key": keylist(k, rng=r), "seed": seed, "len": ln}, d=d)
                    m.archive(pend, k, seed, ln)
                w.ok({"op": "flush", "h": h}, d=d)
                m.flush(pend, j)
                res.count("crowd_flushes")
                vis = m.visible()
                q = f"q{j}"
                w.ok(w.open_op(q), d=d)
                for p in r.sample(sorted(vis, key=fmt), min(3, len(vis))):
                    a = w.ok({"op": "retrieve", "h": q, "req": req({a: [b] for a, b in full(p).items()})}, d=d)
                    got = w.recs(a, "crowd-retrieve", fmt(p))
                    if got != [vis[p]]:
                        w.fail("crowd-retrieve", f"client {j}: {fmt(p)} gave {got}, expected {vis[p]}")
                db = r.choice(sorted({p[0] for p in vis}, key=repr))
                a = w.ok({"op": "list", "h": q, "mode2": "dedup", "level": 3, "read": True, "req": req({x: [y] for x, y in db})}, d=d)
                got = dict(w.rows(a["items"], "crowd-list"))
                for p, rec in vis.items():
                    if p[0] == db and got.get(p) != rec:
                        w.fail("crowd-list", f"client {j}: {fmt(p)} is listed as {got.get(p)}, expected {rec}")
                w.ok({"op": "close", "h": q}, d=d)
            w.ok({"op": "close", "h": h}, d=d)
        done.append(m)
        d.quit()

    def body(j):
        try:
            client(j)
        except BaseException as e:
            fails.append(e)
    th = [threading.Thread(target=body, args=(j,)) for j in range(n)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    if fails:
        raise fails[0]
    for m in done:
        for d, bs in m.dbs.items():
            w.model.dbs.setdefault(d, []).extend(bs)
        w.model.created |= m.created
    w.check_list({}, "full")
    w.check_list({}, "dedup")
    res.saw(("crowd", n, w.tag))
    if w.cl.dead():
        w.fail("server-died", f"{w.cl.dead()}: {[w.cl.out(x)[-2000:] for x in w.cl.dead()]}")


ensure("plain", ("fdbdrv", "iofault", "fdb-server"))
c.run(hist, range(c.n(160, 4000)))
c.run(crowd, range(c.n(28, 700)))
c.finish(100)
