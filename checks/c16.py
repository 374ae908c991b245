import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *

c = Check("C16", "monitored", "histories of archive, flush, overwriting, purge and wipe; after every few steps axes (three depths, per database and merged), statistics, dump and status are compared "
          "with a model of the stored indexes and with the files of the store. distinct = (layout, query, depth, names asked for, size of the answer)")
NAMES = ("main", "subtoc", "roots3", "ser1", "ser2", "ser3sub", "loadthr", "nocache", "async", "nocachesub", "idx64", "idxpoint", "nopreload", "subtocuser", "evict")
PV = [v for v in VARIANTS if v[0] in NAMES]


def axisrows(r):
    return {k: {v for v in vs if v != ""} for k, vs in r.items() if any(v != "" for v in vs)}


def add(out, pairs):
    for n, v in pairs:
        out.setdefault(n, set()).add(v)


def expected_axes(w, request, level):
    """{db: axes} for the databases the request selects; exact below the database, by stored index"""
    out = {}
    for db in w.model.created:
        d = dict(db)
        bs = w.model.dbs.get(db, [])
        if any(n in d and d[n] not in vs for n, vs in request.items()):
            continue
        ax = {}
        add(ax, db)
        hit = 0
        for i, data, _ in bs:
            ia = {}
            for x in data:
                add(ia, x)
            di = dict(i)
            rule = w.model.rule_of(full((db, i, next(iter(data)))))
            if any(n in di and di[n] not in vs for n, vs in request.items()):
                continue
            if any(n in ia and not ia[n] & set(vs) for n, vs in request.items()):
                continue
            if any(n in rule[0] and n not in d or n in rule[1] and n not in di or n in rule[2] and n not in ia for n in request):
                hit = None      # an optional key that is not there: the index may count or not
            if level > 1:
                add(ax, i)
            if level > 2:
                for n, vs in ia.items():
                    ax.setdefault(n, set()).update(vs)
        out[db] = (ax, hit)
    return out


def axes(w):
    r = w.rng
    request = w.rand_request(3) if r.random() < .8 else {}
    level = r.choice([1, 2, 3, 3, 3])
    h = w.fresh()
    op = {"op": "axesit", "h": h, "level": level}
    op.update({"req": req(request)} if request else {"all": True})
    items = w.ok(op)["items"]
    merged = axisrows(w.ok(dict(op, op="axes"))["axes"])
    w.done(h)
    exp = expected_axes(w, request, level)
    opt = any(hit is None for _, hit in exp.values())
    got = {}
    ctx = f"axes {level} {request}"
    for it in items:
        db = frozenset((a, b) for a, b in it["key"] if b != "")
        if db in got:
            w.fail("axes-twice", f"{ctx}: {fmt((db,))} twice")
        got[db] = axisrows(it["axes"])
        if db not in exp:
            w.fail("axes-database", f"{ctx}: {fmt((db,))} does not exist or does not match")
        ax, hit = exp[db]
        if got[db] != ax and hit is not None or any(not vs <= ax.get(n, set()) for n, vs in got[db].items()):
            w.fail("axes-wrong", f"{ctx}: {fmt((db,))} has {got[db]}, expected {ax}")
    must = {p[0] for p, _ in w.model.list(request)}
    if not must <= set(got):
        w.fail("axes-missing", f"{ctx}: lacks {[fmt((x,)) for x in must - set(got)]}")
    tot = {}
    for ax in got.values():
        for n, vs in ax.items():
            tot.setdefault(n, set()).update(vs)
    if tot != merged:
        w.fail("axes-merge", f"{ctx}: merged {merged}, the databases together {tot}")
    for p, _ in w.model.list(request):
        for lv in range(level):
            for n, v in p[lv]:
                if v not in merged.get(n, ()):
                    w.fail("axes-missing", f"{ctx}: {n}={v} of {fmt(p)} is not in {merged}")
    w.res.saw(("axes", level, tuple(sorted(request)), min(len(got), 4), min(sum(map(len, merged.values())), 12), w.tag))
    w.res.count("axes")


def num(text, name):
    m = re.search(r"^%s\s*: ([\d,]+)" % re.escape(name), text, re.M)
    return int(m.group(1).replace(",", "")) if m else 0


def stats(w):
    r = w.rng
    dbs = sorted(w.model.created, key=repr)
    request = {}
    if dbs and r.random() < .8:
        base = dict(r.choice(dbs))
        request = {n: w.widen(n, base[n]) for n in r.sample(sorted(base), r.randint(1, len(base)))}
    check_stats(w, request)
    # the figures of each database against its directory
    if not request or len(dbs) < 1:
        return
    db = r.choice(dbs)
    if any(dict(db).items() <= dict(o).items() for o in dbs if o != db):
        return
    q = {n: [v] for n, v in db}
    h = w.fresh()
    items = w.ok({"op": "stats", "h": h, "req": req(q)})["items"]
    st = w.ok({"op": "status", "h": h, "req": req(q)})["items"]
    ls = w.ok({"op": "list", "h": h, "mode2": "full", "req": req(q)})["items"]
    w.done(h)
    if len(items) != 1 or len(st) != 1:
        w.fail("stats-count", f"{q}: {len(items)} statistics, {len(st)} databases")
    d = st[0]["loc"].split(":", 1)[1]
    data = {i["path"] for i in ls if os.path.dirname(i["path"]) == d}
    t, x = items[0]["db"], items[0]["index"]
    got = (num(t, "Owned data files"), num(t, "Size of owned data files"))
    exp = (len(data), sum(os.path.getsize(p) for p in data))
    if got != exp:
        w.fail("stats-files", f"{q}: owned data files, size {got}, in the directory {exp}: {t}")
    tocs = [p for p in glob.glob(d + "/*") if os.path.basename(p) == "toc" or os.path.basename(p).startswith("toc.")]
    if num(t, "Size of TOC files") > sum(map(os.path.getsize, tocs)) or num(t, "Size of TOC files") < os.path.getsize(d + "/toc"):
        w.fail("stats-toc", f"{q}: size of TOC files {t}, in the directory {[(p, os.path.getsize(p)) for p in tocs]}")
    if num(t, "Size of schemas files") != os.path.getsize(d + "/schema"):
        w.fail("stats-schema", f"{q}: {t}, schema has {os.path.getsize(d + '/schema')}")
    live = {b[0] for b in w.model.dbs.get(db, [])}
    idx = glob.glob(d + "/*.index")
    if not (len(live) <= num(t, "Index files") <= len(idx)) or num(t, "Size of index files") > sum(map(os.path.getsize, idx)):
        w.fail("stats-index", f"{q}: {t}; the directory has {len(idx)} index files, {sum(map(os.path.getsize, idx))} bytes")
    if num(t, "Databases") != 1:
        w.fail("stats-index", f"{q}: {t}")
    rows = [x_ for x_ in w.model.all() if x_[0][0] == db]
    vis = len({p for p, _ in rows})
    for n, v in (("Fields", len(rows)), ("Size of fields", sum(x_[1][1] for x_ in rows)), ("Duplicated fields", len(rows) - vis), ("Reacheable fields", vis)):
        if num(x, n) != v:
            w.fail("stats-report", f"{q}: '{n}' should be {v}: {x}")
    w.res.saw(("stats", min(len(rows), 12), min(len(rows) - vis, 6), len(data), w.tag))
    w.res.count("stats")


def parse_dump(items):
    """[{tag, path, offset, key, files, axes}]"""
    out, cur, sect = [], None, None
    lines = []
    for line in items:      # the simple form has one line for each record
        lines += re.sub(r"(\S)  (path|key|Key):", r"\1\n  \2:", line).split("\n")
    for line in lines:
        m = re.match(r"(TOC_\w+)\s+(\S+ \S+), version:(\d+)", line)
        if m:
            cur = {"tag": m.group(1), "version": int(m.group(3)), "axes": {}, "files": []}
            out.append(cur)
            sect = None
        elif cur is None or not line.strip():
            continue
        elif line.startswith("  path:"):
            m = re.match(r"  path: ([^,]*)(?:, offset: (\d+), type: (\w+))?", line)
            cur["path"], cur["offset"], cur["type"] = m.group(1), int(m.group(2) or 0), m.group(3)
        elif line.startswith("  key:"):
            cur["key"], cur["sub"] = re.match(r"  key: \{(.*?)\}(?:, sub-toc: (\w+))?", line).groups()
        elif line.startswith("  Key:"):
            cur["key"] = re.match(r"  Key: \{(.*?)\}", line).group(1)
        elif line.startswith("  Files:"):
            sect = "files"
        elif line.startswith("  Axes:"):
            sect = "axes"
        elif sect == "files":
            cur["files"].append(re.sub(r".*name=([^],]*).*", r"\1", line))
        elif sect == "axes" and line.startswith("      "):
            cur["axes"][ax].add(line.strip().replace("<empty>", ""))
        elif sect == "axes":
            ax = line.strip()
            cur["axes"].setdefault(ax, set())
    return out


def keyof(t):
    return frozenset(tuple(x.split("=", 1)) for x in t.split(",") if x and not x.endswith("="))


def dump(w):
    r = w.rng
    dbs = sorted(w.model.created, key=repr)
    if not dbs:
        return
    db = r.choice(dbs)
    if any(dict(db).items() <= dict(o).items() for o in dbs if o != db):
        return
    q = {n: [v] for n, v in db}
    h = w.fresh()
    items = w.ok({"op": "dump", "h": h, "req": req(q)})["items"]
    simple = w.ok({"op": "dump", "h": h, "req": req(q), "simple": True})["items"]
    st = w.ok({"op": "status", "h": h, "req": req(q)})["items"]
    w.done(h)
    ctx = f"dump {q}"
    if len(st) != 1:
        w.fail("status-count", f"{q}: {short(st)}")
    d = st[0]["loc"].split(":", 1)[1]
    recs = parse_dump(items)
    plain = parse_dump(simple)
    if [(x["tag"], x.get("path"), x.get("offset")) for x in recs] != [(x["tag"], x.get("path"), x.get("offset")) for x in plain]:
        w.fail("dump-simple", f"{ctx}: the simple dump shows other records: {short(simple)} than {short(items)}")
    tops = [x for x in recs if x["tag"] == "TOC_INIT"]
    if not recs or recs[0]["tag"] != "TOC_INIT" or keyof(recs[0]["key"]) != db or len([x for x in tops if x["sub"] == "no"]) != 1:
        w.fail("dump-init", f"{ctx}: initial records {tops}, expected one with {fmt((db,))}")
    if any(keyof(x["key"]) != db for x in tops):
        w.fail("dump-init", f"{ctx}: initial records {tops}")
    shown, masked = [], []
    for x in recs:
        if x["tag"] == "TOC_INDEX":
            if not os.path.exists(os.path.join(d, x["path"])) and not w.purged:
                w.fail("dump-index-file", f"{ctx}: index {x['path']} does not exist")
            shown.append((keyof(x["key"]), {k: {v for v in vs if v} for k, vs in x["axes"].items() if any(vs)}, x))
        elif x["tag"] == "TOC_CLEAR":
            masked.append((x["path"], x["offset"]))
        elif x["tag"] == "TOC_SUB_TOC":
            pass
    names = {(x["path"], x["offset"]) for _, _, x in shown} | {(x["path"], 0) for x in recs if x["tag"] == "TOC_SUB_TOC"}
    live = [(k, a) for k, a, x in shown if (x["path"], x["offset"]) not in masked]
    exp = []
    for i, data, sess in w.model.dbs.get(db, []):
        ia = {}
        for x in data:
            add(ia, x)
        if not w.subtoc or sess is None:      # sub-TOCs not yet closed are named, their indexes are not shown
            exp.append((i, ia))
    if not w.subtoc and not w.purged:      # one TOC: its indexes in the order they were flushed
        if sorted(map(repr_ax, live)) != sorted(map(repr_ax, exp)):
            w.fail("dump-indexes", f"{ctx}: shows {[x for x in map(repr_ax, live) if x not in list(map(repr_ax, exp))][:3]}, stored {[x for x in map(repr_ax, exp) if x not in list(map(repr_ax, live))][:3]}; {len(live)} and {len(exp)} indexes")
        for i in {e[0] for e in exp}:
            if [repr_ax(x) for x in live if x[0] == i] != [repr_ax(x) for x in exp if x[0] == i]:
                w.fail("dump-order", f"{ctx}: the indexes {fmt((i,))} are not shown in the order they were flushed")
    else:
        lv, ex = collections.Counter(map(repr_ax, [(k, a) for k, a, _ in shown])), collections.Counter(map(repr_ax, exp))
        if ex - lv:
            w.fail("dump-indexes", f"{w.tag} {w.purged} {ctx}: lacks {list(ex - lv)[:3]}, shows {list(lv)} {items}")
    w.res.saw(("dump", min(len(shown), 12), min(len(masked), 5), len(tops), w.tag))
    w.res.count("dumped_records", len(recs))


def repr_ax(x):
    k, a = x
    return fmt((k,)) + repr(sorted((n, sorted(v)) for n, v in a.items()))


def status(w):
    r = w.rng
    dbs = sorted(w.model.created, key=repr)
    request = {}
    if dbs and r.random() < .7:
        base = dict(r.choice(dbs))
        request = {n: w.widen(n, base[n]) for n in r.sample(sorted(base), r.randint(1, len(base)))}
    h = w.fresh()
    op = {"op": "status", "h": h}
    op.update({"req": req(request)} if request else {"all": True})
    items = w.ok(op)["items"]
    rows = w.ok({"op": "list", "h": h, "mode2": "full", "all": True})["items"]
    w.done(h)
    got = {}
    for it in items:
        db = frozenset((a, b) for a, b in it["key"] if b != "")
        if db in got:
            w.fail("status-twice", f"status {request}: {short(items)}")
        got[db] = it["loc"].split(":", 1)[1]
        if db not in w.model.created:
            w.fail("status-spurious", f"status {request}: {fmt((db,))} does not exist")
        if any(n in dict(db) and dict(db)[n] not in vs for n, vs in request.items()):
            w.fail("status-spurious", f"status {request}: {fmt((db,))}")
        if sorted(it["ids"]) != ["archive", "list", "retrieve", "uniqueroot", "wipe"]:
            w.fail("status-ids", f"status {request}: {it}")
    must = {db for db in w.model.created if all(n in dict(db) and dict(db)[n] in vs for n, vs in request.items())}
    if not must <= set(got):
        w.fail("status-missing", f"status {request}: lacks {[fmt((x,)) for x in must - set(got)]}")
    for it in rows:
        db = elem_parts(it)[0]
        if db in got and os.path.dirname(it["path"]) != got[db]:
            w.fail("status-location", f"status {request}: {fmt((db,))} at {got[db]}, its data at {it['path']}")
    w.res.saw(("status", tuple(sorted(request)), min(len(got), 5), w.tag))


def masked_batches(m, db):
    seen, out = set(), []
    for b in reversed(m.dbs.get(db, [])):
        ks = {(b[0], x) for x in b[1]}
        if ks <= seen:
            out.append(b)
        seen |= ks
    return out


def remove(w):
    """purge or wipe of one database or index"""
    r = w.rng
    for h in list(w.handles):
        w.close(h)
    dbs = sorted(w.model.dbs, key=repr)
    if not dbs:
        return
    db = r.choice(dbs)
    if any(dict(db).items() <= dict(o).items() for o in w.model.created if o != db):
        return
    q = {n: [v] for n, v in db}
    h = w.fresh()
    a = r.choice(["purge", "purge", "wipe", "index"])
    bs = w.model.dbs[db]
    if a == "purge":
        w.ok({"op": "purge", "h": h, "doit": True, "req": req(q)})
        dead = masked_batches(w.model, db)
        w.model.dbs[db] = [b for b in bs if not any(b is x for x in dead)]
        w.purged |= bool(dead)
    elif a == "index" and len({b[0] for b in bs}) > 1:
        i = r.choice(sorted({b[0] for b in bs}, key=repr))
        same = {b[0] for b in bs if dict(i).items() <= dict(b[0]).items()}
        if same == {b[0] for b in bs}:
            w.done(h)
            return
        w.ok({"op": "wipe", "h": h, "doit": True, "req": req({n: [v] for n, v in list(db) + list(i)})})
        w.model.dbs[db] = [b for b in bs if b[0] not in same]
        w.purged = True
    else:
        w.ok({"op": "wipe", "h": h, "doit": True, "req": req(q)})
        del w.model.dbs[db]
        w.model.created.discard(db)
    w.done(h)
    w.res.saw(("remove", a, w.tag))
    w.res.count("removals")


def hist(i, wd, res):
    w = make_world(i, wd, res, c.seed + 31, variants=PV, lens=[16, 100, 1000], ksargs={"ndb": [1, 2, 3, 5][i % 4]})
    w.purged = False
    rng = w.rng
    pool = [w.ks.key() for _ in range(rng.choice([3, 8, 20, 60]))]
    for rnd in range(rng.choice([2, 3, 5])):
        for _ in range(rng.choice([1, 4, 10, 25])):
            h = f"w{rng.randrange(w.max_handles)}"
            if h not in w.handles:
                w.open(h)
            w.archive(h, rng.choice(pool))
            if rng.random() < .3:
                w.flush(h)
            if rng.random() < .08:
                w.close(h)
        if rng.random() < .5:
            remove(w)
        for _ in range(rng.choice([2, 6])):
            rng.choice([axes, axes, axes, stats, dump, status])(w)
        if rng.random() < .3:
            restart(w)
        w.check_list({}, rng.choice(["full", "dedup", "onlydup"]))
    for h in list(w.handles):
        w.close(h)
    for f in (axes, stats, dump, status):
        f(w)
    w.end()
    res.sample({"layout": w.tag, "ops": len(w.trace), "fields": len(list(w.model.all()))})


ensure("plain")
c.run(hist, range(c.n(500, 15000)))
c.finish(300)
