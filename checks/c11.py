import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *
from urllib.parse import unquote

c = Check("C11", "exploration", "random contents, wipe requests and foreign files: announced, deleted and kept files compared, content compared with a model before and after, "
          "interrupted wipes repeated; distinct = (layout, kind of request, databases and indexes hit, outcome)")
WV = [v for v in VARIANTS if v[0] in ("main", "subtoc", "roots3", "ser1", "loadthr", "nocache", "async", "nocachesub", "subtocuser", "idx64")]
DELS = {"store", "aux", "catalogue", "index", "control"}


def snap(wd, only=None):
    """every path below the roots -> what it is (links not followed)"""
    out = {}
    for top in sorted(os.listdir(wd)):
        p = os.path.join(wd, top)
        if not ("-root" in top or top == "outside"):
            continue
        for d, ds, fs in os.walk(p):
            for f in list(ds) + fs:
                q = os.path.join(d, f)
                if os.path.islink(q):
                    out[q] = ("link", os.readlink(q))
                elif os.path.isdir(q):
                    out[q] = ("dir",)
                else:
                    with open(q, "rb") as fh:
                        b = fh.read()
                    out[q] = ("file", len(b), hashlib.md5(b).hexdigest())
    return out


def pathof(u):
    p = unquote(u.split("?")[0].split("#")[0])
    p = p.split(":", 1)[1] if not p.startswith("/") else p
    return re.sub(r"^//+", "/", p)


class W11:
    def __init__(self, w):
        self.w = w
        self.unknown = {}       # dbkey -> foreign paths
        self.kinds = set()

    def wipe(self, request, doit, unsafe=False, porc=False):
        op = {"op": "wipe", "h": self.w.fresh(), "doit": doit, "unsafe": unsafe, "porcelain": porc}
        op.update({"req": req(request)} if request else {"all": True})
        r = self.w.do(op)
        self.w.done(op["h"])
        if "err" in r:
            return r
        out = {"del": set(), "unk": set(), "error": False}
        for it in r["items"]:
            u = {pathof(x) for x in it["uris"]}
            if it["type"] in DELS:
                out["del"] |= u
            elif it["type"] == "unknown":
                out["unk"] |= u
            elif it["type"] == "error":
                out["error"] = True
        return out

    def dirs(self):
        """dbkey -> directory, by listing"""
        w = self.w
        q = w.fresh()
        r = w.ok({"op": "list", "h": q, "mode2": "full", "all": True})
        w.done(q)
        out = {}
        for it in r["items"]:
            out.setdefault(elem_parts(it)[0], set()).add(os.path.dirname(it["path"]))
        return out

    def predict(self, request):
        """-> (databases fully removed, {db: [index keys removed]})"""
        w = self.w
        whole, part = set(), {}
        for db, bs in w.model.dbs.items():
            if w.is_locked(db, "wipe"):
                continue
            d = dict(db)
            rest = {}
            hit = True
            somekey = full((db, bs[0][0]) + ((),)) if bs else d
            for n, vs in request.items():
                if n in d:
                    hit &= d[n] in vs
                else:
                    rest[n] = vs
            dbnames = self.dbnames(db, bs)
            for n in list(rest):
                if n in dbnames:     # an optional database key this database lacks
                    hit = False
            if not hit:
                continue
            idx = {b[0] for b in bs}
            sel = {i for i in idx if all(n in dict(i) and dict(i)[n] in vs for n, vs in rest.items())}
            if sel == idx:
                whole.add(db)
            elif sel:
                part[db] = sel
        return whole, part

    def dbnames(self, db, bs):
        for b in bs:
            for x in b[1]:
                return self.w.model.rule_of(full((db, b[0], x)))[0]
        return ()

    def forget(self, whole, part):
        m = self.w.model
        for db in whole:
            m.dbs.pop(db, None)
            m.created.discard(db)
            m.locked.pop(db, None)
            self.unknown.pop(db, None)
        for db, idx in part.items():
            m.dbs[db] = [b for b in m.dbs[db] if b[0] not in idx]

    def status(self):
        w = self.w
        q = w.fresh()
        r = w.ok({"op": "status", "h": q, "all": True})
        w.done(q)
        return sorted(json.dumps(x, sort_keys=True) for x in r["items"])

    def request(self):
        w, r = self.w, self.w.rng
        rows = list(w.model.all())
        if not rows or r.random() < .04:
            base = w.ks.key()
        else:
            base = full(r.choice(rows)[0])
        rule = w.model.rule_of(base)
        base = {n: v for n, v in base.items() if v != ""}
        kind = r.choice(["db", "db", "db-part", "index", "index", "index", "index-part", "over", "over-only", "empty"])
        d = [n for n in base if n in rule[0]]
        i = [n for n in base if n in rule[1]]
        x = [n for n in base if n in rule[2]]
        some = lambda l: r.sample(l, r.randint(1, len(l))) if l else []
        names = {"db": d, "db-part": some(d), "index": d + i, "index-part": some(d) + some(i), "over": d + i + some(x), "over-only": some(d) + some(x), "empty": []}[kind]
        q = {n: w.widen(n, base[n]) for n in names}
        if kind in ("db", "index") and r.random() < .5:
            q = {n: [base[n]] for n in names}
        return kind, q

    def plant(self):
        """foreign files in a database directory"""
        w, r = self.w, self.w.rng
        dirs = {db: ds for db, ds in self.dirs().items() if len(ds) == 1}
        if not dirs:
            return
        db = r.choice(sorted(dirs, key=repr))
        d = next(iter(dirs[db]))
        out = os.path.join(w.wd, "outside")
        os.makedirs(os.path.join(out, "dir"), exist_ok=True)
        for n in ("keep.txt", "dir/keep.data"):
            p = os.path.join(out, n)
            if not os.path.exists(p):
                write(p, "must stay\n")
        kind = r.choice(["txt", "data", "index", "toc", "schemabak", "dot", "link", "linkdir", "emptydir", "fulldir", "datalike"])
        p = os.path.join(d, {"txt": "notes.txt", "data": "an:sfc.20200101.000000.host.1.data", "index": "an:sfc.20200101.000000.host.1.index", "toc": "toc.20200101.000000.host.1",
                             "schemabak": "schema.bak", "dot": ".nfs0001", "link": "lnk.data", "linkdir": "lnkdir", "emptydir": "sub", "fulldir": "sub2", "datalike": "x.data.bak"}[kind])
        if os.path.lexists(p):
            return
        if kind == "link":
            os.symlink(os.path.join(out, "keep.txt"), p)
        elif kind == "linkdir":
            os.symlink(os.path.join(out, "dir"), p)
        elif kind == "emptydir":
            os.mkdir(p)
        elif kind == "fulldir":
            write(os.path.join(p, "inner.txt"), "x")
        else:
            write(p, "foreign\n")
        self.unknown.setdefault(db, set()).add((kind, p))
        self.kinds.add(kind)
        # a neighbour of the database directories
        n = os.path.join(os.path.dirname(d), "neighbour.txt")
        if not os.path.exists(n):
            write(n, "n")

    def lock(self):
        w, r = self.w, self.w.rng
        dbs = sorted(w.model.dbs, key=repr)
        if not dbs:
            return
        db = r.choice(dbs)
        ids = r.sample(["wipe", "wipe", "archive", "retrieve", "list"], r.choice([1, 1, 2]))
        act = r.choice(["disable", "enable"])
        q = w.fresh()
        rr = w.ok({"op": "control", "h": q, "req": req(dict(db)), "action": act, "ids": sorted(set(ids))})
        w.done(q)
        # the request may match further databases when this one lacks optional keys: ask
        for it in rr["items"]:
            k = frozenset((a, b) for a, b in it["key"] if b != "")
            s = w.model.locked.setdefault(k, set())
            s.update(ids) if act == "disable" else s.difference_update(ids)

    def unlock_all(self):
        w = self.w
        q = w.fresh()
        w.ok({"op": "control", "h": q, "all": True, "action": "enable", "ids": ["list", "retrieve", "archive", "wipe"]})
        w.done(q)
        w.model.locked.clear()


def nolock(s):
    return {p for p in s if not p.endswith(".lock")}    # a committed wipe locks, and removes its own locks


def hidden(w):
    return any({"list", "retrieve", "archive"} & s for s in w.model.locked.values())


def attempt(x):
    w, r = x.w, x.w.rng
    kind, q = x.request()
    whole, part = x.predict(q)
    before = snap(w.wd)
    st = x.status()
    dry = x.wipe(q, False)
    ctx = f"{w.tag} {kind} {q}"
    if snap(w.wd) != before:
        w.fail("dry-run-changes", f"{ctx}: a wipe without commitment changed {sorted(set(before.items()) ^ set(snap(w.wd).items()))[:4]}")
    if x.status() != st:
        w.fail("dry-run-control", f"{ctx}: a wipe without commitment changed the control state")
    stuck = [db for db in w.model.created if w.is_locked(db, "wipe") and all(n not in dict(db) or dict(db)[n] in vs for n, vs in q.items())]
    if "err" in dry and not stuck:
        w.fail("dry-run-error", f"{ctx}: {short(dry)}")
    if stuck:
        return attempt_locked(x, q, stuck, ctx, before, whole, part)
    dirs = x.dirs() if not hidden(w) else None
    bad = {db: x.unknown[db] for db in whole if x.unknown.get(db)}
    unsafe = bool(bad) and r.random() < .5 and not any(k in ("fulldir", "linkdir") for s in bad.values() for k, _ in s)
    w.res.saw((w.tag, kind, len(whole), sum(len(v) for v in part.values()), bool(bad), unsafe))
    for db, us in bad.items():
        for k, p in us:
            if p not in dry["unk"]:
                w.fail("unknown-not-announced", f"{ctx}: {p} ({k}) is not the FDB's, but the dry run does not say so: {short(dry)}")
    for p in dry["del"]:
        if any(p == u or u.startswith(p + "/") for s in x.unknown.values() for _, u in s):
            w.fail("unknown-announced-for-deletion", f"{ctx}: foreign {p}")
    if not dry["del"] and (whole or part):
        w.fail("nothing-announced", f"{ctx}: should remove {short([fmt((d,)) for d in whole])} and {short({fmt((d,)): [fmt((i,)) for i in v] for d, v in part.items()})}, announces nothing")
    if r.random() < .25 and not bad:
        return      # the user changes their mind
    res = x.wipe(q, True, unsafe)
    after = snap(w.wd)
    gone = set(before) - set(after)
    changed = {p for p in after if p in before and after[p] != before[p] and after[p][0] != "dir"}
    new = {p for p in set(after) - set(before)}
    foreign = {u for s in x.unknown.values() for _, u in s}
    if bad and not unsafe:
        if "err" not in res:
            w.fail("unclean-not-refused", f"{ctx}: wiping with unknown files {bad} reported success")
        # databases before the unclean one may be gone; the unclean ones must be whole
        for db in bad:
            d = [os.path.dirname(p) for _, p in bad[db]][0]
            lost = [p for p in gone if p.startswith(d + "/") or p == d]
            if lost:
                w.fail("unclean-damaged", f"{ctx}: {lost[:3]} deleted although {bad[db]} are unknown")
            if [p for p in changed if p.startswith(d + "/")]:
                w.fail("unclean-damaged", f"{ctx}: {changed} modified although {bad[db]} are unknown")
        done = set()
        for db in whole - set(bad):
            pass
        # which of the others went through?
        if dirs is None:
            done = {db for db in whole if db not in bad and not survives(x, db)}
            dpart = {db: v for db, v in part.items() if not index_survives(x, db, v)}
        else:
            done = {db for db in whole if db not in bad and all(not os.path.exists(d) for d in dirs.get(db, [""]))}
            dpart = {db: v for db, v in part.items() if not index_survives(x, db, v)}
        x.forget(done, dpart)
        w.res.count("refused_unclean")
    else:
        if "err" in res:
            w.fail("wipe-error", f"{ctx}: {short(res)}")
        x.forget(whole, part)
        ann = dry["del"] | (dry["unk"] if unsafe else set())
        lost = {p for p in gone if before[p][0] != "dir"}
        if lost - ann:
            w.fail("deleted-not-announced", f"{ctx}: {sorted(lost - ann)[:4]} deleted, the dry run did not announce it")
        if {p for p in ann if p in after and after[p][0] != "dir"}:
            w.fail("announced-not-deleted", f"{ctx}: {sorted(p for p in ann if p in after)[:4]} announced by the dry run, still there")
        if nolock(res["del"]) != nolock(dry["del"]):
            w.fail("reports-differ", f"{ctx}: dry run announces {sorted(dry['del'] - res['del'])[:3]} more, the wipe {sorted(res['del'] - dry['del'])[:3]} more")
        if (lost & foreign) and not unsafe:
            w.fail("foreign-deleted", f"{ctx}: {lost & foreign}")
        if whole and dirs:
            for db in whole:
                for d in dirs.get(db, ()):
                    if os.path.isdir(d):
                        w.fail("database-left", f"{ctx}: {d} still there: {os.listdir(d)}")
        w.res.count("databases_wiped", len(whole))
        w.res.count("indexes_wiped", sum(len(v) for v in part.values()))
        if not whole and not part:
            w.res.count("nothing_to_wipe")
    if any("/outside/" in p for p in gone | changed | new) or any(p.endswith("neighbour.txt") for p in gone):
        w.fail("outside-touched", f"{ctx}: {sorted(p for p in gone | changed | new)[:4]}")
    for p in changed:
        if os.path.basename(p) != "toc" and not os.path.basename(p).startswith("toc."):
            w.fail("file-modified", f"{ctx}: {p} was modified by a wipe")
        if not any(p.startswith(d + "/") for db in list(part) for d in (dirs or {}).get(db, [p.rsplit("/", 1)[0]])):
            w.fail("file-modified", f"{ctx}: {p} of a database that is not affected was modified")
    for p in new:
        w.fail("file-created", f"{ctx}: {p} appeared during a wipe")
    st2 = x.status()
    keep = [s for s in st if any(frozenset((a, b) for a, b in json.loads(s)["key"] if b != "") == db for db in w.model.created)]
    if [s for s in keep if s not in st2]:
        w.fail("control-state", f"{ctx}: control state before {keep}, after {st2}")
    if not hidden(w):
        w.check_list({}, "full")
        w.check_list({}, "dedup")


def attempt_locked(x, q, stuck, ctx, before, whole, part):
    """The request matches databases locked for wiping: the wipe refuses (with an error) or skips them, which are left untouched"""
    w = x.w
    was = x.status()
    res = x.wipe(q, True)
    after = snap(w.wd)
    for db in stuck:
        for d in x_dirs(before, w, db):
            diff = [p for p in set(before) | set(after) if (p == d or p.startswith(d + "/")) and before.get(p) != after.get(p)]
            if diff:
                w.fail("locked-wiped", f"{ctx}: {sorted(diff)[:4]} changed in a database locked for wiping")
    # the databases visited before may have been wiped, or (after an error) be closed for the time of a wipe that was not carried out
    w.res.saw((w.tag, "locked", len(stuck), len(whole), len(part), "err" in res))
    w.res.count("refused_locked" if "err" in res else "skipped_locked")
    hid = hidden(w)
    if "err" not in res:
        x.forget(whole, part)
        if sorted(x.status()) != sorted(s for s in was if frozenset((a, b) for a, b in json.loads(s)["key"] if b != "") in w.model.created):
            w.fail("control-state", f"{ctx}: status before {was}, after {x.status()}")
    else:
        locked = {db: set(s) for db, s in w.model.locked.items()}
        x.unlock_all()
        x.forget({db for db in whole if not survives(x, db)}, {db: v for db, v in part.items() if not index_survives(x, db, v)})
        for db, ids in locked.items():
            if ids and db in w.model.created:
                f = w.fresh()
                for it in w.ok({"op": "control", "h": f, "req": req(dict(db)), "action": "disable", "ids": sorted(ids)})["items"]:
                    w.model.locked.setdefault(frozenset((a, b) for a, b in it["key"] if b != ""), set()).update(ids)
                w.done(f)
    if not hid and not hidden(w):
        w.check_list({}, "full")
        w.check_list({}, "dedup")


def survives(x, db):
    return any(frozenset((a, b) for a, b in json.loads(s)["key"] if b != "") == db for s in x.status())


def index_survives(x, db, idx):
    w = x.w
    q = w.fresh()
    r = w.ok({"op": "list", "h": q, "mode2": "full", "req": req(dict(db))})
    w.done(q)
    return any(elem_parts(i)[0] == db and elem_parts(i)[1] in idx for i in r["items"])


def fill(w, n):
    r = w.rng
    for _ in range(n):
        h = f"w{r.randrange(w.max_handles)}"
        if h not in w.handles:
            w.open(h)
        w.archive(h)
        if r.random() < .2:
            w.flush(h)
        if r.random() < .05:
            w.close(h)
    for h in list(w.handles):
        w.close(h)
    # databases that hold nothing (nothing archived went to them) do not occur here


def hist(i, wd, res):
    w = make_world(i, wd, res, c.seed + 7, variants=WV, lens=[16, 100, 1000], ksargs={"ndb": [2, 3, 6][i % 3]})
    x = W11(w)
    for rnd in range(w.rng.choice([2, 3, 5])):
        x.unlock_all() if hidden(w) else None
        fill(w, w.rng.choice([4, 12, 30]))
        for _ in range(w.rng.choice([1, 2, 3])):
            if w.rng.random() < .3:
                x.plant()
            if w.rng.random() < .3:
                x.lock()
            attempt(x)
    x.unlock_all()
    restart(w)
    w.check_all()
    w.end()
    w.res.sample({"layout": w.tag, "ops": w.trace[-6:], "foreign": sorted(x.kinds)})


def crash(i, wd, res):
    """A wipe killed at a system call: nothing else is harmed, and repeating it completes it"""
    rng = rng_for("c11k", c.seed, i)
    w = make_world(i // 7, wd, res, c.seed + 13, variants=WV[:6], lens=[16, 100], ksargs={"ndb": 3})
    x = W11(w)
    fill(w, rng.choice([6, 15]))
    db = rng.choice(sorted(w.model.dbs, key=repr))
    exact = [d for d in w.model.dbs if dict(db).items() <= dict(d).items()]
    if len(exact) > 1:
        return
    idx = sorted({b[0] for b in w.model.dbs[db]}, key=repr)
    q = {n: [v] for n, v in db}
    if rng.random() < .5 and len(idx) > 1:
        q.update({n: [v] for n, v in rng.choice(idx)})
    whole, part = x.predict(q)
    before = snap(wd)
    k = 1 + (i % 7) * 4 + rng.randrange(4)
    io = {"VF_IO": f"root={wd};fault=umwctR:{k}:1:kill"}
    d = Driver(wd, "plain", dict(w.env, **io), "killed", args=w.argv, preload=os.path.join(BUILD, "plain/lib/libiofault.so"))
    died = False
    try:
        d.ok(w.open_op("k"))
        d.do({"op": "wipe", "h": "k", "doit": True, "req": req(q)})
        d.quit()
    except DriverDied:
        died = True
    after = snap(wd)
    for p in before:
        if p not in after and not any(os.path.dirname(p) == dd or p == dd for dd in x_dirs(before, w, db)):
            w.fail("crash-collateral", f"killed wipe of {q}: {p} of another database is gone")
    res.saw(("killed", w.tag, k, died, bool(part)))
    # repeat until done
    r = x.wipe(q, True)
    if "err" in r:
        w.fail("rerun-error", f"repeating a wipe of {q} that was killed at call {k}: {short(r)}")
    x.forget(whole, part)
    x.unlock_all()
    tocless = [dd for dd in x_dirs(before, w, db) if os.path.isdir(dd) and not os.path.exists(os.path.join(dd, "toc"))]
    if tocless:     # killed after the TOC went: no database is left to be wiped (its remains are not reachable, see DESIGN)
        res.count("killed_past_toc")
        for dd in tocless:
            shutil.rmtree(dd)
    elif whole:
        left = [p for p in snap(wd) if any(p == dd or p.startswith(dd + "/") for dd in x_dirs(before, w, db))]
        if left:
            w.fail("rerun-left", f"repeating a wipe of {q} that was killed at call {k} left {left[:5]}")
    w.check_list({}, "full")
    w.check_list({}, "dedup")
    fill(w, 8)
    restart(w)
    w.check_all()
    w.end()
    res.count("killed_wipes", died)


def x_dirs(before, w, db):
    """directories of a database, from the names of its files' paths"""
    vals = [v for _, v in sorted(db)]
    out = set()
    for p, t in before.items():
        if t[0] == "dir" and sorted(os.path.basename(p).split(":")) == sorted(vals) or t[0] == "dir" and sorted(x for x in os.path.basename(p).split(":") if x) == sorted(vals):
            out.add(p)
    return out


ensure("plain", ["fdbdrv", "iofault"])
c.run(hist, range(c.n(420, 12000)))
c.run(crash, range(c.n(140, 5000)))
c.finish(200)
