"""Random histories with weighted operations over a World."""
import glob, hashlib, os
from .hist import *

VARIANTS = [
    ("main", {}, 1), ("subtoc", {"FDB_SUB_TOCS": "1"}, 1), ("roots3", {}, 3),
    ("ser1", {"FDB_SERIALISATION_VERSION": "1"}, 1), ("ser2", {"FDB_SERIALISATION_VERSION": "2"}, 1),
    ("ser3sub", {"FDB_SERIALISATION_VERSION": "3", "FDB_SUB_TOCS": "1"}, 1),
    ("loadthr", {"FDB_LOAD_INDEX_THREADS": "4"}, 1), ("nocache", {"FDB_CACHE_TOCS_ON_READ": "0"}, 1),
    ("async", {"FDB_ASYNC_WRITE": "1"}, 1), ("noatime", {"FDB_OPEN_NOATIME": "1"}, 2),
    ("seekable", {"FDB_SEEKABLE_DATA_HANDLE": "1"}, 1),
    ("nocachesub", {"FDB_CACHE_TOCS_ON_READ": "0", "FDB_SUB_TOCS": "1", "FDB_LOAD_INDEX_THREADS": "3"}, 1),
    ("idx64", {"FDB_INDEX_TYPE": "BTreeIndex64"}, 2), ("idxpoint", {"FDB_INDEX_TYPE": "PointDBIndex"}, 1),
    ("nopreload", {"_user": "---\npreloadTocBTree: false\n"}, 1),
    ("subtocuser", {"_user": "---\nuseSubToc: true\n", "_sub": "1"}, 2),
    ("dbnames", {"FDB_DBNAMES_FILE": os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "src", "dbnames")}, 2),
    ("dedup", {"FDB_DEDUPLICATE_FIELDS": "1"}, 1), ("dedupseek", {"FDB_DEDUPLICATE_FIELDS": "1", "FDB_SEEKABLE_DATA_HANDLE": "1"}, 1),
    ("evict", {"VF_RES": "fdbMaxNbDBsOpen=1;fdbMaxOpenDatabases=1"}, 2),
    ("smallbuf", {"VF_RES": "fdbBufferSize=1024"}, 1),
    ("smallasync", {"FDB_ASYNC_WRITE": "1", "VF_RES": "fdbSizeAsyncBuffer=512;fdbNbAsyncBuffers=2"}, 1),
]

WEIGHTS = dict(archive=50, flush=12, close=5, restart=1.5, list=8, depth=4, retrieve=9, inspect=4, axes=4, compact=2,
               immut=2, stats=2)


def make_world(c, wd, res, seed, variants=VARIANTS, ksargs=None, variant="plain", schema="mix", **kw):
    rng = rng_for("world", seed, c)
    name, env, roots = variants[c % len(variants)]
    if schema == "mix" and "FDB_DEDUPLICATE_FIELDS" in env:
        schema = "a"    # hypercubes of entries with different optional keys: see C21
    if schema == "b" or (schema == "mix" and (c // len(variants)) % 2):
        kw.update(ks=KeySpaceB(rng, **(ksargs or {})), rule_of=rule_b, config=local_config(wd, roots, schema=SCHEMA_B))
        name += "/B"
    else:
        kw.update(ks=KeySpace(rng, **(ksargs or {})), config=local_config(wd, roots))
    return World(rng, wd, res, env=env, tag=name, variant=variant, **kw)


def immutability(w):
    """Every location ever reported still reads the bytes of its field; files only grow"""
    n = 0
    for (path, off, ln), rec in list(w.seen_locs.items()):
        try:
            with open(path, "rb") as f:
                f.seek(off)
                b = f.read(ln)
        except OSError as e:
            w.fail("location-gone", f"{path} was reported by a listing and nothing was purged or wiped: {e}")
        if b != payload(rec[0], rec[1]):
            w.fail("location-rewritten", f"{path}+{off}:{ln} no longer holds the bytes of {rec}")
        n += 1
    for path, (size, md) in list(w.files.items()):
        with open(path, "rb") as f:
            b = f.read(size)
        if len(b) < size or hashlib.md5(b).hexdigest() != md:
            w.fail("data-file-rewritten", f"{path}: its first {size} bytes changed")
    w.res.count("locations_rechecked", n)
    w.res.saw(("immut", min(n, 20), w.tag))


def note_locations(w):
    """List everything, remember locations and data file prefixes"""
    q = w.fresh()
    r = w.ok({"op": "list", "h": q, "mode2": "full", "all": True, "read": True})
    rows = w.rows(r["items"], "list")
    for it, (p, rec) in zip(r["items"], rows):
        w.seen_locs[(it["path"], it["off"], it["len"])] = rec
    w.done(q)
    for path in {k[0] for k in w.seen_locs}:
        with open(path, "rb") as f:
            b = f.read()
        w.files[path] = (len(b), hashlib.md5(b).hexdigest())


def check_compact(w, request):
    q = w.fresh()
    op = {"op": "compact", "h": q}
    op.update({"req": req(request)} if request else {"all": True})
    r = w.ok(op)
    exp = w.model.list(request, "dedup")
    w.done(q)
    if r["n"] != len(exp) or r["bytes"] != sum(x[1] for _, x in exp):
        w.fail("compact-totals", f"compact listing of {request}: {r['n']} fields {r['bytes']} bytes, expected {len(exp)}, {sum(x[1] for _, x in exp)}")
    got = collections.Counter()
    for line in r["text"].strip().splitlines():
        kv = {}
        for t in line.strip().split(","):
            if not t:
                continue
            n, v = t.split("=", 1)
            if v != "":
                kv[n] = v.split("/")
        for e in expand(kv):
            got[frozenset(e.items())] += 1
    expc = collections.Counter(frozenset(full(p).items()) for p, _ in exp)
    if got != expc:
        w.fail("compact-set", f"compact listing of {request} describes {list((got - expc).items())[:2]} too many, lacks {list((expc - got).items())[:2]}\n{r['text'][:800]}")
    w.res.saw(("compact", min(len(exp), 8), w.tag))


def check_stats(w, request):
    """Totals of the statistics equal the listing's"""
    q = w.fresh()
    op = {"op": "stats", "h": q}
    op.update({"req": req(request)} if request else {"all": True})
    r = w.ok(op)["items"]
    w.done(q)
    rows = [(p, x) for p, x in w.model.all() if w.db_matches(p[0], full(p), request)]
    vis = w.model.visible()
    fields, size = len(rows), sum(x[1] for _, x in rows)
    got = (sum(i["fields"] for i in r), sum(i["size"] for i in r), sum(i["dfields"] for i in r), sum(i["dsize"] for i in r))
    nvis = len({p for p, _ in rows})
    svis = sum(vis[p][1] for p in {p for p, _ in rows})
    exp = (fields, size, fields - nvis, size - svis)
    if got != exp:
        w.fail("stats-wrong", f"stats {request}: (fields,size,dup fields,dup size) = {got}, the stored content is {exp}")
    w.res.saw(("stats", min(fields, 10), min(fields - nvis, 5), w.tag))


def restart(w):
    for h in list(w.handles):
        w.close(h)
    w.d.quit()
    w.d = track(w.mk("main"))
    w.res.count("restarts")


def history(w, steps, weights=None, extra=None, final=True):
    wt = dict(WEIGHTS, **(weights or {}))
    names = [n for n in wt if wt[n] > 0]
    ws = [wt[n] for n in names]
    rng = w.rng
    for _ in range(steps):
        a = rng.choices(names, ws)[0]
        h = f"w{rng.randrange(w.max_handles)}"
        if a in ("archive", "flush", "close") and h not in w.handles:
            w.open(h)
        if a == "archive":
            w.archive(h)
        elif a == "flush":
            w.flush(h)
        elif a == "close":
            w.close(h)
        elif a == "restart":
            restart(w)
        elif a == "list":
            w.check_list(w.rand_request() if rng.random() < .85 else {}, rng.choice(["full", "dedup", "onlydup"]))
        elif a == "depth":
            w.check_depth(w.rand_request(rng.choice([1, 2, 3])), rng.choice([1, 2]))
        elif a == "retrieve":
            w.check_retrieve(w.rand_full())
        elif a == "inspect":
            w.check_inspect(w.rand_full())
        elif a == "axes":
            w.check_axes(w.rand_request() if rng.random() < .8 else {})
        elif a == "compact":
            check_compact(w, w.rand_request() if rng.random() < .8 else {})
        elif a == "stats":
            check_stats(w, w.rand_request(1) if rng.random() < .7 else {})
        elif a == "immut":
            immutability(w)
            note_locations(w)
        else:
            extra[a](w)
    for h in list(w.handles):
        w.close(h)
    if final:
        restart(w)
        w.check_all()
        check_compact(w, {})
        if wt.get("stats"):
            check_stats(w, {})
        if wt.get("immut"):
            immutability(w)
    w.end()
    w.res.sample({"variant": w.tag, "env": w.env, "ops": len(w.trace), "fields": len(list(w.model.all())),
                  "visible": len(w.model.visible()), "databases": len(w.model.dbs), "first_ops": w.trace[1:4]})
