import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *

c = Check("C12", "exploration", "overwriting histories with purges in between: content, every file of the store and the model compared before and after; "
          "distinct = (layout, kind of request, indexes and files removed, auxiliary and foreign files present)")
NAMES = ("main", "subtoc", "roots3", "ser1", "ser3sub", "loadthr", "nocache", "async", "nocachesub", "subtocuser", "idx64", "evict", "nopreload")
PV = [v for v in VARIANTS if v[0] in NAMES] + [("aux", {"FDB_AUX_EXTENSIONS": "gribjump,idx2"}, 1), ("auxsub", {"FDB_AUX_EXTENSIONS": "idx2", "FDB_SUB_TOCS": "1"}, 1)]


def snap(wd):
    out = {}
    for top in sorted(os.listdir(wd)):
        if "-root" not in top and top != "outside":
            continue
        for d, ds, fs in os.walk(os.path.join(wd, top)):
            for f in ds:
                out[os.path.join(d, f)] = ("dir",)
            for f in fs:
                with open(os.path.join(d, f), "rb") as fh:
                    b = fh.read()
                out[os.path.join(d, f)] = ("file", len(b), hashlib.md5(b).hexdigest())
    return out


def purge(w, request, doit, porc=False):
    q = w.fresh()
    op = {"op": "purge", "h": q, "doit": doit, "porcelain": porc}
    op.update({"req": req(request)} if request else {"all": True})
    r = w.do(op)
    w.done(q)
    return r


def masked_batches(m, db):
    """indexes (batches) none of whose fields can be reached"""
    seen, out = set(), []
    for b in reversed(m.dbs.get(db, [])):
        ks = {(b[0], x) for x in b[1]}
        if ks <= seen:
            out.append(b)
        seen |= ks
    return out


def locs(w):
    """(visible rows -> path), all paths referred to"""
    q = w.fresh()
    r = w.ok({"op": "list", "h": q, "mode2": "full", "all": True})
    d = w.ok({"op": "list", "h": q, "mode2": "dedup", "all": True, "read": True})
    w.done(q)
    rows = sorted(zip(map(repr, w.rows(d["items"], "dedup")), [(i["path"], i["off"], i["len"]) for i in d["items"]]))
    return rows, {i["path"] for i in r["items"]}


def files(w):
    rng = w.rng
    aux = w.env.get("FDB_AUX_EXTENSIONS", "gribjump").split(",")
    _, used = locs(w)
    for p in sorted(used):
        for e in aux + ["other"]:
            if rng.random() < .25 and not os.path.exists(f"{p}.{e}"):
                write(f"{p}.{e}", e)
                w.aux.add(f"{p}.{e}") if e != "other" else w.foreign.add(f"{p}.{e}")
    for d in sorted({os.path.dirname(p) for p in used}):
        if rng.random() < .2:
            n = rng.choice(["notes.txt", "a.data", "b.index", "toc.20200101.1", "x.gribjump", "sub/inner.data"])
            if not os.path.exists(os.path.join(d, n)):
                w.foreign.add(write(os.path.join(d, n), "foreign"))


def attempt(w):
    rng = w.rng
    if w.model.dbs and rng.random() < .9:
        db = rng.choice(sorted(w.model.dbs, key=repr))
        base = full((db, w.model.dbs[db][0][0]) if w.model.dbs[db] else (db,))
    else:
        db, base = frozenset(), dict(w.ks.key())
    kind = rng.choice(["db", "db", "db", "part", "part", "over", "all"])
    dn = [n for n, _ in db] or [n for n in base if n in ("class", "expver")]
    names = {"db": dn, "part": rng.sample(dn, rng.randint(1, len(dn))), "over": dn + [n for n in base if n not in dn][:1], "all": []}[kind]
    if kind == "over" and len(names) == len(dn):
        kind = "db"
    if kind == "over" and not db:
        return
    if w.model.rule_of is rule_b and kind == "part":    # names every database has: others make the request over-specified for some
        names = rng.sample(["class", "expver", "stream"], rng.choice([1, 2, 3]))
    q = {n: w.widen(n, base[n]) if kind != "over" and not (kind == "db" and w.model.rule_of is rule_b) else [base[n]] for n in names}
    hit = [d for d in w.model.dbs if all(n in dict(d) and dict(d)[n] in vs for n, vs in q.items()) and not w.is_locked(d, "wipe")]
    ctx = f"{w.tag} purge {kind} {q}"
    before = snap(w.wd)
    vis, used = locs(w)
    for porc in ((False,) if rng.random() < .7 else (True,)):
        r = purge(w, q, False, porc)
        if snap(w.wd) != before:
            w.fail("dry-run-changes", f"{ctx}: a purge without commitment changed {sorted(set(before.items()) ^ set(snap(w.wd).items()))[:4]}")
    if kind == "over":
        r = purge(w, q, True)
        if snap(w.wd) != before:
            w.fail("overspecified-changes", f"{ctx}: changed {sorted(set(before.items()) ^ set(snap(w.wd).items()))[:4]}")
        w.res.saw((w.tag, "over", "err" in r))
        return
    if "err" in r:
        w.fail("purge-error", f"{ctx}: dry run: {short(r)}")
    if rng.random() < .15:
        return
    r = purge(w, q, True, rng.random() < .3)
    if "err" in r:
        w.fail("purge-error", f"{ctx}: {short(r)}")
    dead = {d: masked_batches(w.model, d) for d in hit}
    for d, bs in dead.items():
        w.model.dbs[d] = [b for b in w.model.dbs[d] if not any(b is x for x in bs)]
    after = snap(w.wd)
    vis2, used2 = locs(w)
    if vis2 != vis:
        lost = [x for x in vis if x not in vis2]
        w.fail("purge-visible", f"{ctx}: de-duplicated listing or locations changed: {lost[:2]} -> {[x for x in vis2 if x not in vis][:2]}")
    gone = set(before) - set(after)
    for p in gone:
        if p in w.foreign:
            w.fail("foreign-deleted", f"{ctx}: {p} is not the FDB's")
        if p in used2:
            w.fail("used-deleted", f"{ctx}: {p} still holds fields")
        stem = p.rsplit(".", 1)[0]
        if p in w.aux and os.path.exists(stem):
            w.fail("aux-deleted", f"{ctx}: {p} deleted, its data file stays")
        if not any(os.path.dirname(p) in owned(used, d, vis) for d in hit):
            if p not in used and not p.endswith((".index",)) and "/toc." not in p and p not in w.aux:
                w.fail("unrelated-deleted", f"{ctx}: {p}")
    dirs = {os.path.dirname(p) for p in gone}
    for p, v in after.items():
        if p not in before:
            w.fail("purge-creates", f"{ctx}: {p} appeared")
        if v != before[p] and v[0] == "file":
            if os.path.basename(p) != "toc" and not os.path.basename(p).startswith("toc."):
                w.fail("purge-modifies", f"{ctx}: {p} modified")
    for p in list(w.aux):
        if p not in after:
            w.aux.discard(p)
    if w.rng.random() < .3:
        r = purge(w, q, True)
        if "err" in r:
            w.fail("purge-error", f"{ctx}: again: {short(r)}")
        again = set(after) - set(snap(w.wd))
        if again:
            w.fail("purge-not-idempotent", f"{ctx}: repeating it removed {sorted(again)[:3]}")
    for m in ("full", "dedup", "onlydup"):
        w.check_list({}, m)
    nd = sum(len(b) for b in dead.values())
    w.res.saw((w.tag, kind, len(hit), min(nd, 6), min(len([p for p in gone if p.endswith(".data")]), 4), bool(w.aux), bool(w.foreign)))
    w.res.count("indexes_purged", nd)
    w.res.count("files_removed", len(gone))
    w.res.count("purges")


def owned(used, db, vis):
    return {os.path.dirname(p) for p in used}


def hist(i, wd, res):
    w = make_world(i, wd, res, c.seed + 3, variants=PV, lens=[16, 100, 1000], ksargs={"ndb": [1, 2, 3][i % 3]})
    w.aux, w.foreign = set(), set()
    rng = w.rng
    # few distinct fields, so that indexes get masked completely
    pool = [w.ks.key() for _ in range(rng.choice([3, 6, 12]))]
    for rnd in range(rng.choice([2, 3, 5])):
        for _ in range(rng.choice([3, 10, 25])):
            h = f"w{rng.randrange(w.max_handles)}"
            if h not in w.handles:
                w.open(h)
            w.archive(h, rng.choice(pool))
            if rng.random() < .35:
                w.flush(h)
            if rng.random() < .1:
                w.close(h)
        for h in list(w.handles):
            w.close(h)
        if rng.random() < .4:
            files(w)
        if rng.random() < .15 and w.model.dbs:
            db = rng.choice(sorted(w.model.dbs, key=repr))
            q = w.fresh()
            act = "enable" if w.is_locked(db, "wipe") else "disable"
            r = w.ok({"op": "control", "h": q, "req": req(dict(db)), "action": act, "ids": ["wipe"]})
            w.done(q)
            for it in r["items"]:
                s = w.model.locked.setdefault(frozenset((a, b) for a, b in it["key"] if b != ""), set())
                s.add("wipe") if act == "disable" else s.discard("wipe")
        for _ in range(rng.choice([1, 1, 2])):
            attempt(w)
    restart(w)
    w.check_all()
    check_stats(w, {})
    w.end()
    res.sample({"layout": w.tag, "ops": w.trace[-5:]})


def adopted(i, wd, res):
    """Data indexed in two databases: purging the one that only refers to them leaves them alone"""
    name, env, roots = PV[i % 5]
    w = make_world(i % 5, wd, res, c.seed * 31 + i, variants=PV[:5], schema="a", lens=[16, 100, 1000], ksargs={"ndb": 1, "streams": ("oper",)})
    w.aux, w.foreign = set(), set()
    rng = w.rng
    w.open("w0")
    keys = [w.archive("w0") for _ in range(rng.choice([2, 5]))]
    w.close("w0")
    db2 = next(e for e in ("0001", "xxxx", "0099") if e != keys[0]["expver"])
    vis = w.model.visible()
    src = list({json.dumps(k, sort_keys=True): k for k in keys}.values())
    # adopted and own fields mixed in the same indexes; overwritten by one another; purged there
    for rnd in range(rng.choice([2, 3, 4])):
        w.open("w0")
        adopt = rng.random() < (.5 if rnd else .8)      # a handle either archives or re-indexes
        for _ in range(rng.choice([1, 2, 4])):
            for k in rng.sample(src, rng.randint(1, len(src))):
                if adopt:
                    q = w.fresh()
                    w.ok({"op": "reindex", "h": "w0", "from": {"h": q, "req": req(k)}, "set": [["expver", db2]]})
                    w.done(q)
                    s, ln = vis[parts(k)]
                    w.model.archive(w.handles["w0"], dict(k, expver=db2), s, ln)
                else:
                    w.archive("w0", dict(k, expver=db2))
            if rng.random() < .6:
                w.flush("w0")
        w.close("w0")
        w.check_list({}, "full")
        before = snap(wd)
        ours = {d for d in before if f":{keys[0]['expver']}:" in d}
        q = {"class": [keys[0]["class"]], "expver": [db2]}
        r = purge(w, q, True)
        after = snap(wd)
        for p in ours:
            if after.get(p) != before[p]:
                w.fail("adopted-deleted", f"{w.tag}: purging {q} changed {p} of the database the data belong to")
        w.res.saw(("adopted", w.tag, rnd, "err" in r, len(set(before) - set(after))))
        # which masked entries went is the purge's choice here (indexes of adopted data are kept): reachable content must not change
        w.check_list({}, "dedup")
        w.check_retrieve({n: [v] for n, v in dict(rng.choice(src), expver=db2).items() if v}) if "err" not in r and rnd == 0 else None
        q = w.fresh()
        r = w.ok({"op": "list", "h": q, "mode2": "full", "all": True, "read": True})
        w.done(q)
        rows = w.rows(r["items"], "after-purge")
        _, extra = diff_ms(rows, list(w.model.all()))
        if extra:
            w.fail("purge-adds", f"{w.tag}: listing has {extra[:3]} after a purge, not before")
        # continue from what is left
        left = collections.Counter(rows)
        for d, bs in list(w.model.dbs.items()):
            keep = []
            for b in reversed(bs):
                rs = [((d, b[0], x), rec) for x, rec in b[1].items()]
                if all(left[x] > 0 for x in rs):
                    keep.append(b)
                    left.subtract(rs)
            w.model.dbs[d] = keep[::-1]
        if +left:
            w.fail("purge-mixed", f"{w.tag}: purge removed part of an index: {list((+left).items())[:3]}")
    restart(w)
    w.check_list({}, "full")
    w.check_list({}, "dedup")
    w.end()


ensure("plain")
c.run(hist, range(c.n(640, 16000)))
c.run(adopted, range(c.n(90, 2000)))
c.finish(150)
