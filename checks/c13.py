import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *

c = Check("C13", "monitored", "histories of archive, control actions (any set of identifiers, requests naming one, several or no databases) and every operation, through old and new processes; "
          "each outcome compared with a model of contents and disabled operations. distinct = (layout, operation, identifiers disabled on its database, outcome)")
IDS = ["list", "retrieve", "archive", "wipe", "uniqueroot"]
FILES = {"list": "list.lock", "retrieve": "retrieve.lock", "archive": "archive.lock", "wipe": "wipe.lock", "uniqueroot": "duplicates.allow"}


def tree(root):
    out = {}
    for p, _, fs in (x for g in glob.glob(root + "/*-root*") for x in os.walk(g)):
        for f in fs:
            q = os.path.join(p, f)
            with open(q, "rb") as fh:
                out[q] = hashlib.md5(fh.read()).hexdigest()
    return out


class W13:
    def __init__(self, w):
        self.w, self.loc = w, {}

    def off(self, db):
        return self.w.model.locked.setdefault(db, set())

    def key(self, k):
        return frozenset((a, b) for a, b in k if b != "")

    def named(self, q):
        return {db for db in self.w.model.created if all(n in dict(db) and dict(db)[n] in vs for n, vs in q.items())}

    def request(self):
        w, r = self.w, self.w.rng
        dbs = sorted(w.model.created, key=repr)
        base = dict(r.choice(dbs))
        x = r.random()
        if x < .35:
            return {n: [v] for n, v in base.items()}
        if x < .8:
            return {n: w.widen(n, base[n]) for n in r.sample(sorted(base), r.randint(1, len(base)))}
        if x < .9:
            q = {n: [v] for n, v in base.items()}
            q["levtype"] = ["sfc"]
            return q
        return {}

    def control(self):
        w, r = self.w, self.w.rng
        q = self.request()
        ids = r.sample(IDS, r.choice([1, 1, 2, 3, 5]))
        act = r.choice(["disable", "disable", "enable"])
        h = w.fresh()
        op = {"op": "control", "h": h, "action": act, "ids": ids}
        op.update({"req": req(q)} if q else {"all": True})
        rr = w.ok(op)
        w.done(h)
        hit = self.named(q)
        for db in hit:
            self.off(db).update(ids) if act == "disable" else self.off(db).difference_update(ids)
        self.elements(rr["items"], hit, f"control {act} {ids} {q}", exact=True)
        w.res.saw(("control", act, tuple(sorted(ids)), min(len(hit), 4), w.tag))
        w.res.count("controls")
        self.status({})

    def elements(self, items, hit, ctx, exact):
        w = self.w
        got = [self.key(it["key"]) for it in items]
        if len(got) != len(set(got)):
            w.fail("control-twice", f"{ctx}: a database is reported twice: {short(items)}")
        if set(got) != hit if exact else not hit <= set(got):
            w.fail("control-selection", f"{ctx}: acts on {[fmt((x,)) for x in got]}, the request names {[fmt((x,)) for x in hit]}")
        for it, db in zip(items, got):
            exp = [i for i in IDS if i not in self.off(db)]
            if sorted(it["ids"]) != sorted(exp):
                w.fail("control-state", f"{ctx}: {fmt((db,))} is reported with {it['ids']} enabled, but that should be {exp}")
            d = it["loc"].split(":", 1)[1]
            if not os.path.exists(os.path.join(d, "toc")):
                w.fail("control-location", f"{ctx}: {fmt((db,))} is reported at {it['loc']}, where there is none")
            if self.loc.setdefault(db, d) != d:
                w.fail("control-location", f"{ctx}: {fmt((db,))} is reported at {d}, before at {self.loc[db]}")

    def status(self, q):
        w = self.w
        h = w.fresh()
        op = {"op": "status", "h": h}
        op.update({"req": req(q)} if q else {"all": True})
        rr = w.ok(op)
        w.done(h)
        if not q:
            self.elements(rr["items"], set(w.model.created), f"status of everything", True)
        else:
            self.elements(rr["items"], self.named(q), f"status {q}", False)
            for it in rr["items"]:
                d = dict(self.key(it["key"]))
                if any(n in d and d[n] not in vs for n, vs in q.items()):
                    w.fail("status-spurious", f"status {q}: lists {it['key']}")
        w.res.saw(("status", len(q), min(len(rr["items"]), 5), w.tag))

    def shown(self, request, mode):
        w = self.w
        return [(p, r) for p, r in w.model.list(request, mode) if not w.is_locked(p[0], "list")]

    def list(self):
        w, r = self.w, self.w.rng
        q = w.rand_request() if r.random() < .8 else {}
        mode = r.choice(["full", "dedup", "onlydup"])
        h = w.fresh()
        op = {"op": "list", "h": h, "mode2": mode, "level": 3, "read": True}
        op.update({"req": req(q)} if q else {"all": True})
        got = w.rows(w.ok(op)["items"], "list")
        w.expect(f"list-{mode}", got, self.shown(q, mode), f"list {mode} {q} with {self.locks()}")
        for lv in (1, 2):
            op.update(level=lv, mode2="full", read=False)
            items = w.ok(op)["items"]
            got = [elem_parts(i)[:lv] for i in items]
            must = {p[:lv] for p, _ in self.shown(q, "full")}
            for g in got:
                if w.is_locked(g[0], "list"):
                    w.fail(f"locked-listed-depth{lv}", f"list depth {lv} {q} shows {fmt(g)}, closed for listing")
            if not must <= {tuple(g) for g in got}:
                w.fail(f"list-depth{lv}-missing", f"list depth {lv} {q} lacks {[fmt(x) for x in must - {tuple(g) for g in got}][:3]} with {self.locks()}")
        w.done(h)
        w.res.saw(("list", mode, tuple(sorted(q)), len(self.shown(q, mode)) != len(w.model.list(q, mode)), w.tag))

    def locks(self):
        return {fmt((d,)): sorted(s) for d, s in self.w.model.locked.items() if s}

    def retrieve(self):
        w = self.w
        q = w.rand_full()
        w.check_retrieve(q)
        if w.rng.random() < .5:
            w.check_inspect(q)
        w.res.saw(("retrieve", any("retrieve" in s for s in w.model.locked.values()), w.tag))

    def archive(self):
        w, r = self.w, self.w.rng
        k = w.ks.key()
        db = parts(k, w.model.rule_of)[0]
        h = f"n{w.nfresh}"
        w.nfresh += 1
        if "archive" not in self.off(db):
            w.open(h)
            w.archive(h, k)
            w.close(h)
            w.res.saw(("archive", "open", tuple(sorted(self.off(db))), w.tag))
            return
        before = tree(w.wd)
        w.ok(w.open_op(h))
        w.seed += 1
        rr = w.do({"op": "archive", "h": h, "key": keylist(k), "seed": w.seed, "len": 64})
        rf = w.do({"op": "flush", "h": h})
        if "err" not in rr and "err" not in rf:
            w.fail("locked-archived", f"archive of {k} into a database closed for archiving, then flush: no error; {self.locks()}")
        w.do({"op": "close", "h": h})
        after = tree(w.wd)
        diff = [p for p in set(before) | set(after) if before.get(p) != after.get(p) and p.startswith(self.loc.get(db, "/none"))]
        if diff:
            w.fail("locked-archived", f"archive of {k} was refused, but {diff} changed")
        w.res.saw(("archive", "refused", tuple(sorted(self.off(db))), w.tag))
        w.res.count("archives_refused")

    def wipe(self):
        w, r = self.w, self.w.rng
        db = r.choice(sorted(w.model.created, key=repr))
        q = {n: [v] for n, v in db}
        if self.named(q) != {db} or any(dict(db).items() <= dict(o).items() for o in w.model.created if o != db):
            return
        self.status({})
        before = tree(w.wd)
        h = w.fresh()
        rr = w.do({"op": "wipe", "h": h, "doit": True, "req": req(q)})
        w.done(h)
        after = tree(w.wd)
        d = self.loc[db]
        if "wipe" in self.off(db):
            if before != after:
                w.fail("locked-wiped", f"wipe of {q} closed for wiping changed {[p for p in set(before) | set(after) if before.get(p) != after.get(p)][:3]}")
            w.res.count("wipes_refused")
            w.res.saw(("wipe", "refused", tuple(sorted(self.off(db))), w.tag))
            return
        if "err" in rr:
            w.fail("wipe-error", f"wipe {q} with {sorted(self.off(db))} disabled: {short(rr)}")
        if os.path.exists(d):
            w.fail("not-wiped", f"wipe {q} with {sorted(self.off(db))} disabled left {d}: {os.listdir(d)}: {short(rr)}")
        if any(before[p] != after.get(p) for p in before if not p.startswith(d + "/")):
            w.fail("wipe-others", f"wipe {q} changed other databases")
        w.res.saw(("wipe", "done", tuple(sorted(self.off(db))), w.tag))
        w.model.dbs.pop(db, None)
        w.model.created.discard(db)
        w.model.locked.pop(db, None)
        self.loc.pop(db)

    def part(self):
        """wiping some indexes: the state of all identifiers is as before"""
        w, r = self.w, self.w.rng
        cand = [db for db, bs in w.model.dbs.items() if len({b[0] for b in bs}) > 1 and not any(dict(db).items() <= dict(o).items() for o in w.model.created if o != db)]
        if not cand:
            return
        db = r.choice(sorted(cand, key=repr))
        i = r.choice(sorted({b[0] for b in w.model.dbs[db]}, key=repr))
        same = {b[0] for b in w.model.dbs[db] if dict(i).items() <= dict(b[0]).items()}
        if same == {b[0] for b in w.model.dbs[db]}:
            return
        q = {n: [v] for n, v in list(db) + list(i)}
        h = w.fresh()
        rr = w.do({"op": "wipe", "h": h, "doit": True, "req": req(q)})
        w.done(h)
        if "wipe" in self.off(db):
            w.res.saw(("part-wipe", "refused", tuple(sorted(self.off(db))), w.tag))
        elif "err" in rr:
            w.fail("wipe-error", f"wipe {q} with {sorted(self.off(db))} disabled: {short(rr)}")
        else:
            w.model.dbs[db] = [b for b in w.model.dbs[db] if b[0] not in same]
            w.res.saw(("part-wipe", "done", tuple(sorted(self.off(db))), w.tag))
            w.res.count("part_wipes")
        self.status({})

    def purge(self):
        """removes nothing visible; databases closed for wiping are skipped"""
        w, r = self.w, self.w.rng
        db = r.choice(sorted(w.model.created, key=repr))
        q = {n: [v] for n, v in db}
        if any(dict(db).items() <= dict(o).items() for o in w.model.created if o != db) or "wipe" not in self.off(db):
            return
        before = tree(w.wd)
        h = w.fresh()
        w.do({"op": "purge", "h": h, "doit": True, "req": req(q)})
        w.done(h)
        if tree(w.wd) != before:
            w.fail("locked-purged", f"purge of {q}, closed for wiping, changed files")
        w.res.saw(("purge", "refused", tuple(sorted(self.off(db))), w.tag))


def hist(i, wd, res):
    w = make_world(i, wd, res, c.seed + 23, lens=[16, 100, 1000], variants=VARIANTS[:-3] + VARIANTS[-2:], ksargs={"ndb": [2, 3, 5][i % 3]})
    w.max_handles = 1
    x = W13(w)
    r = w.rng
    for rnd in range(r.choice([1, 2, 3])):
        for _ in range(r.choice([4, 10, 20])):
            x.archive()
        x.status({})
        for _ in range(r.choice([8, 15, 30])):
            if not w.model.created:
                x.archive()
                continue
            a = r.choices(["control", "list", "retrieve", "archive", "wipe", "part", "purge", "status", "restart"], [6, 5, 4, 6, 1, 1, 1, 2, 1])[0]
            if a == "status":
                x.status(x.request())
            elif a == "restart":
                restart(w)
            else:
                getattr(x, a)()
    # everything is enabled again: all data are back
    h = w.fresh()
    for db in list(w.model.created):
        for it in sorted(x.off(db)):
            w.ok({"op": "control", "h": h, "action": "enable", "ids": [it], "req": req({n: [v] for n, v in db})})
        for e in w.model.created:
            if dict(db).items() <= dict(e).items():
                pass
    w.done(h)
    w.model.locked.clear()
    x.status({})
    for db in w.model.created:
        d = x.loc[db]
        if [f for f in os.listdir(d) if f in FILES.values()]:
            w.fail("lock-left", f"{d} still has {os.listdir(d)}")
    restart(w)
    w.check_all()
    w.end()
    res.sample({"layout": w.tag, "ops": len(w.trace), "databases": len(w.model.created)})


def config(i, wd, res):
    """Handles and roots configured with operations disabled"""
    rng = rng_for("c13c", c.seed, i)
    w = World(rng, wd, res, tag="config", config=local_config(wd), lens=[16, 100])
    w.open("w")
    for _ in range(6):
        w.archive("w")
    w.close("w")
    flags = {n: rng.choice([True, False]) for n in rng.sample(["writable", "visitable", "list", "retrieve", "archive", "wipe"], rng.randint(0, 4))}
    text = "".join(f"{n}: {str(v).lower()}\n" for n, v in flags.items())
    eff = {n: flags.get(n, flags.get("writable" if n in ("archive", "wipe") else "visitable", True)) for n in ("list", "retrieve", "archive", "wipe")}
    h = "e"
    w.ok({"op": "open", "h": h, "config": local_config(wd, extra=text)})
    r = w.ok({"op": "enabled", "h": h})
    if any(r[n] != v for n, v in eff.items()):
        w.fail("handle-enabled", f"a handle configured with {flags} reports {r}")
    w.done(h)
    w.ok({"op": "open", "h": h, "config": local_config(wd, root_extra="".join("    " + l.replace("visitable", "visit") + "\n" for l in text.splitlines()))})
    k = full(rng.choice(sorted(w.model.visible(), key=repr)))
    db = parts(k)[0]
    if eff["list"]:     # a root not to be visited does not count when the place of a database is looked up
        before = tree(wd)
        r = w.do({"op": "archive", "h": h, "key": keylist(k), "seed": 5, "len": 20})
        r2 = w.do({"op": "flush", "h": h})
        if eff["archive"] == ("err" in r or "err" in r2):
            w.fail("root-archive", f"root configured with {flags}: archiving {'is refused' if eff['archive'] else 'is not refused'}: {r} {r2}")
        if not eff["archive"] and tree(wd) != before:
            w.fail("root-archive", f"root configured with {flags}: archiving was refused but the store changed")
        r = w.ok({"op": "retrieve", "h": h, "req": req({n: [v] for n, v in k.items()})})
        if (r["n"] > 0) != eff["retrieve"]:
            w.fail("root-retrieve", f"root configured with {flags}: retrieve delivers {r}")
    r = w.ok({"op": "list", "h": h, "all": True, "mode2": "full"})
    if bool(r["items"]) != eff["list"]:
        w.fail("root-list", f"root configured with {flags}: {len(r['items'])} fields listed")
    w.do({"op": "close", "h": h})
    res.saw(("config", tuple(sorted(flags.items()))))
    w.d.quit()


ensure("plain")
c.run(hist, range(c.n(300, 9000)))
c.run(config, range(c.n(60, 600)))
c.finish(300)
