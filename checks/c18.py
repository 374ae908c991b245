import sys, os, re, itertools, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *
from vf.tools import *

c = Check("C18", "monitored",
          "Random configurations of spaces (regular expressions, handlers), roots (flags writable/visit/list/retrieve/archive/wipe, missing directories), naming tables, experiment tables and "
          "environment variables, written as YAML, as roots/spaces files or through FDB_ROOT_DIRECTORY. A writer archives fields of random databases; the directories that appear (whole tree) are "
          "compared with the rules: first matching space, root the handler prescribes, name of the table, nothing elsewhere; other processes list, retrieve, wipe, purge with the same or a changed "
          "configuration (roots reordered, closed, added): existing databases stay in use, closed roots are not read, not written, not wiped. Sources of configuration: every subset of the documented "
          "ones is offered, each naming another root; where the database appears tells which one won. distinct = (source, handlers, flags, change of configuration, outcome)",
          ["Regular expressions are anchored prefixes or '.*': how eckit anchors them is not judged.",
           "Handlers that choose by chance or by free space are judged by membership; which of the eligible roots they choose is open."])

SCHEMA = """
[ class, expver, stream, date
  [ type
    [ step, param ]]
]
"""
NAMES = ("class", "expver", "stream", "date", "type", "step", "param")
DB = NAMES[:4]
VALS = {"class": ["od", "rd", "e4"], "expver": ["0001", "0002", "xxxy"], "stream": ["oper", "enfo"], "date": ["20200101", "20200102"]}
REGEX = ["od:.*", "rd:.*", "^od:.*", "^(od|rd):.*", ".*", "^od:0001:.*", "^[^:]*:0001:.*", "^rd:[^:]*:oper:.*", "^e4:xxxy:.*"]
HANDLERS = ["Default", "First", "RoundRobin", "Random", "PureRandom", "LeastUsed", "LeastUsedPercent", "WeightedRandom", "WeightedRandomPercent"]


def matches(rx, s):
    return re.match(rx, s) is not None


class Space:
    def __init__(s, rx, handler, roots):
        s.rx, s.handler, s.roots = rx, handler, roots


class RootC:
    def __init__(s, path, flags, exists=True):
        s.path, s.flags = path, dict(flags)

    @property
    def exists(s):
        return os.path.isdir(s.path)

    def can(s, what):
        f = s.flags
        if what in f:
            return f[what]
        return f.get("visit" if what in ("list", "retrieve") else "writable", True)


def yaml(spaces, schema, extra=""):
    out = f"---\ntype: local\nengine: toc\nschema: {schema}\n{extra}spaces:\n"
    for s in spaces:
        out += f"- handler: {s.handler}\n  regex: '{s.rx}'\n  roots:\n"
        for r in s.roots:
            out += f"  - path: {r.path}\n" + "".join(f"    {k}: {str(v).lower()}\n" for k, v in r.flags.items())
    return out


def files(wd, spaces):
    """the same as roots and spaces files (flags writable and visit only)"""
    ro, sp = "# path space writable visit\n\n", "# regex space handler\n"
    for i, s in enumerate(spaces):
        sp += f"{s.rx}   space{i} {s.handler}\n"
        for r in s.roots:
            ro += f"{r.path}  space{i}  {'yes' if r.can('archive') else 'no'}   {'yes' if r.can('list') else 'no'}\n"
    return write(os.path.join(wd, "roots"), ro), write(os.path.join(wd, "spaces"), sp)


def tree(wd):
    """{(root directory, name of database directory)}, and every directory there is"""
    dbs, dirs = set(), set()
    for d, sub, fs in os.walk(wd):
        if "/home" in d[len(wd):] or d.startswith(os.path.join(wd, "home")):
            continue
        dirs.add(d)
        if "toc" in fs:
            dbs.add((os.path.dirname(d), os.path.basename(d)))
    return dbs, dirs


def snapfiles(path):
    out = {}
    for d, sub, fs in os.walk(path):
        for f in fs:
            p = os.path.join(d, f)
            st = os.stat(p)
            with open(p, "rb") as fh:
                out[p] = (st.st_size, hash(fh.read()))
        for s in sub:
            out[os.path.join(d, s)] = "dir"
    return out


def namer(table, k):
    for conds, fmt in table:
        if set(conds) == set(DB) and all(rx is None or re.search(rx, k[n]) for n, rx in conds.items()):
            return fmt.format(**k)
    return ":".join(k[n] for n in DB)


TABLE = [({"class": "od", "expver": None, "stream": None, "date": None}, "{stream}-{class}.{expver}.{date}"),
         ({"class": None, "expver": "0[0-9]*", "stream": "en[a-z]*", "date": None}, "E-{date}-{class}-{expver}-{stream}")]


def table_file(wd, t):
    return write(os.path.join(wd, "dbnames"), "# names\n\n" + "".join(",".join(n if rx is None else f"{n}={rx}" for n, rx in conds.items()) + f"   {fmt}\n" for conds, fmt in t))


def tup(k):
    return tuple(k[n] for n in NAMES)


def field(r, db):
    return dict(db, type=r.choice(["an", "fc"]), step=r.choice(["0", "6", "12"]), param=r.choice(["1", "2", "3"]))


def lvl(k):
    return [[n, k[n]] for n in NAMES]


def spaces(cs, wd, res):
    r = rng_for("c18s", cs["seed"], cs["n"])
    schema = write(os.path.join(wd, "schema"), SCHEMA)
    source = r.choice(["yaml", "yaml", "yaml", "files", "rootdir"])
    env = {}
    nroots = r.randint(1, 5)
    paths = [os.path.join(wd, "data", f"r{i}") for i in range(nroots)]
    R = []
    for i, p in enumerate(paths):
        ex = r.random() > .1
        os.makedirs(p if ex else os.path.dirname(p), exist_ok=True)
        f = {}
        if source == "yaml":
            for n in ("writable", "visit", "list", "retrieve", "archive", "wipe"):
                if r.random() < .12:
                    f[n] = r.random() < .35
        elif source == "files":
            f = {"writable": r.random() > .2, "visit": r.random() > .15}
        R.append(RootC(p, f, ex))
    nsp = r.randint(1, min(3, nroots))
    if source == "rootdir":
        nsp, R = 1, [RootC(paths[0], {}, True)]
        os.makedirs(paths[0], exist_ok=True)
    parts = [[] for _ in range(nsp)]
    for i, x in enumerate(R):
        parts[i if i < nsp else r.randrange(nsp)].append(x)
    SP = [Space(".*" if i == nsp - 1 and r.random() < .7 else r.choice(REGEX), r.choice(["Default"] * 5 + HANDLERS), p) for i, p in enumerate(parts)]
    expmap = None
    if source != "rootdir" and r.random() < .2:
        expmap = write(os.path.join(wd, "expver.map"), "# expver root\n\n" + (f"0001   {r.choice(parts[0]).path}\n" if r.random() < .5 else ""))
        env["FDB_EXPVER_FILE"] = expmap
        SP[0].handler = "expver"
    table = TABLE if r.random() < .3 else []
    if table:
        env["FDB_DBNAMES_FILE"] = table_file(wd, table)
    if source == "yaml":
        cfg = yaml(SP, schema)
    elif source == "files":
        env["FDB_ROOTS_FILE"], env["FDB_SPACES_FILE"] = files(wd, SP)
        cfg = f"---\ntype: local\nengine: toc\nschema: {schema}\n"
    else:
        env["FDB_ROOT_DIRECTORY"] = paths[0]
        SP = [Space(".*", "Default", [R[0]])]
        cfg = yaml([Space(".*", "Default", [RootC(os.path.join(wd, "data", "other"), {})])], schema) if r.random() < .5 else f"---\ntype: local\nengine: toc\nschema: {schema}\n"
        os.makedirs(os.path.join(wd, "data", "other"), exist_ok=True)
    w = World(r, wd, res, env=env, config=cfg, tag="spaces")
    w.do({"op": "now"})
    where, fields, seq, again = {}, {}, 0, set()      # again: databases with a field archived twice

    def space_of(k):
        s = ":".join(k[n] for n in DB)
        return next((x for x in SP if matches(x.rx, s)), None)

    def usable(k):
        """(root where the database is or must go | list of allowed | None if archiving must fail)"""
        s = space_of(k)
        if s is None:
            return None, "no space"
        name = namer(table, k)
        have = [x for x in s.roots if x.exists and x.can("list") and (x.path, name) in dbs]
        if len(have) > 1:
            return None, "several"
        if have:
            return ([have[0].path], "existing") if have[0].can("archive") else (None, "closed")
        ok = [x.path for x in s.roots if x.exists and x.can("archive")]
        if s.handler == "expver":
            for line in open(expmap):
                t = line.split()
                if len(t) == 2 and t[0] == k["expver"]:
                    x = next((x for x in s.roots if x.path == t[1]), None)
                    return ([t[1]], "mapped") if x is None or x.can("archive") else (None, "mapped to closed")
            return (ok, "expver") if ok else (None, "no root")
        if not ok:
            return None, "no root"
        if s.handler in ("Default", "First"):
            return ok[:1], "first"
        return ok, "any"

    def check_where(why):
        now, dirs = tree(wd)
        for d in dirs:
            if d != wd and not any(d == p or p.startswith(d + "/") for p in paths + [os.path.join(wd, "data", "other")]) and os.path.dirname(d) not in paths:
                w.fail("directory-elsewhere", f"{why}: {d}")
        return now

    dbs, _ = tree(wd)
    for rnd in range(r.choice([2, 3])):
        # --- write
        used = [dict(zip(DB, [r.choice(VALS[n]) for n in DB])) for _ in range(r.randint(1, 5))]
        for db in used:
            k = field(r, db)
            allowed, why = usable(k)
            before = snapfiles(os.path.join(wd, "data"))
            h = f"w{seq}"
            seq += 1
            w.ok({"op": "open", "h": h, "config": cfg})
            a = w.do({"op": "archive", "h": h, "key": lvl(k), "seed": 1000 + seq, "len": 50 + seq})
            b = w.do({"op": "flush", "h": h}) if "err" not in a else a
            w.do({"op": "close", "h": h})
            failed = "err" in a or "err" in b
            now = check_where(f"archive {k}")
            name = namer(table, k)
            new = now - dbs
            if allowed is None:
                if not failed:
                    w.fail(f"archived-although:{why}", f"{k}: {name} appeared at {sorted(new)}")
                if snapfiles(os.path.join(wd, "data")) != before:
                    w.fail(f"refused-but-written:{why}", f"{k}: {sorted(set(snapfiles(os.path.join(wd, 'data'))) ^ set(before))[:5]}")
            else:
                if failed:
                    w.fail(f"archive-refused:{why}", f"{k}: allowed {allowed}: {short(a)}")
                if why == "existing":
                    if new:
                        w.fail("existing-database-not-used", f"{k}: is at {allowed}, appeared at {sorted(new)}")
                else:
                    # a root whose databases cannot be listed may hold one already
                    at = [x for x in now if x[1] == name and x[0] in allowed]
                    if not at or any(x[1] != name or x[0] not in allowed for x in new):
                        w.fail(f"wrong-root:{why}", f"{k}: {name} belongs in {allowed}, appeared at {sorted(new)}")
                    if why == "expver":
                        got = [l.split()[1] for l in open(expmap) if l.split()[:1] == [k["expver"]]]
                        if len(got) != 1 or got[0] != sorted(new)[0][0] if new else False:
                            w.fail("expver-not-recorded", f"{k}: at {sorted(new)}, table says {got}")
                at = [x for x in now if x[1] == name and x[0] in allowed]
                changed = {os.path.dirname(p) for p, v in snapfiles(os.path.join(wd, "data")).items() if before.get(p) != v and v != "dir"}
                if len(changed) != 1 and why in ("any", "expver") and any(not x.can("list") for x in space_of(k).roots):
                    res.count("scattered")
                    return      # data and TOC may be in different ones of the roots that cannot be looked at
                if len(changed) != 1:
                    w.fail("several-directories-changed", f"{k}: {sorted(changed)}")
                if any(t == tup(k) for _, t in fields):
                    again.add(tup(k)[:4])
                fields[(next(iter(changed)), tup(k))] = (1000 + seq, 50 + seq)
            dbs = now
            res.count("archived" if allowed else "refused")
            res.saw(("write", source, why, bool(table), space_of(k).handler if space_of(k) else None))
        # --- read by another process
        d2 = track(Driver(wd, "plain", dict(w.env), f"reader{rnd}"))
        w.ok({"op": "open", "h": "r", "config": cfg}, d=d2)
        roots_seen = {x.path: x for s in SP for x in s.roots}

        def visible(p, k, what):
            root = roots_seen.get(os.path.dirname(p))
            if root is None or not root.exists or not root.can("list") or (what == "retrieve" and not root.can("retrieve")):
                return False
            return True

        for q in range(3):
            rq = {}
            if q:
                src = dict(zip(NAMES, r.choice(list(fields))[1])) if fields and r.random() < .8 else {n: r.choice(VALS[n]) for n in DB}
                for n in r.sample(list(src), r.randint(1, min(4, len(src)))):
                    rq[n] = [src[n]]
            li = w.ok(dict({"op": "list", "h": "r", "mode2": "full", "level": 3}, **({"req": [[n, v] for n, v in rq.items()]} if rq else {"req": [], "all": True})), d=d2)["items"]
            got = {}
            for i in li:
                k = {n: v for l in i["k"] for n, v in l}
                got.setdefault(tup(k), []).append(i)
            exp = {}
            for (p, t), v in fields.items():
                k = dict(zip(NAMES, t))
                if all(k[n] in v2 for n, v2 in rq.items()) and visible(p, k, "list"):
                    exp.setdefault(t, []).append(v)
            # a root is looked at if a space with it matches; roots belong to one space here
            for t in set(got) | set(exp):
                k = dict(zip(NAMES, t))
                if t not in got:
                    sp = {s.rx for s in SP for (p, t2) in fields if t2 == t for x in s.roots if x.path == os.path.dirname(p)}
                    if any(matches(rx, ":".join(k[n] for n in DB)) for rx in sp):
                        w.fail("existing-not-found", f"{k} for {rq}: stored at {[p for p, t2 in fields if t2 == t]}")
                elif t not in exp:
                    w.fail("closed-root-listed", f"{k} for {rq}: stored at {[p for p, t2 in fields if t2 == t]}")
            res.count("lists")
        for t in r.sample(sorted({t for _, t in fields}), min(4, len({t for _, t in fields}))):
            k = dict(zip(NAMES, t))
            at = [p for p, t2 in fields if t2 == t]
            if len(at) != 1:
                continue
            s = space_of(k)
            inspace = s is not None and any(x.path == os.path.dirname(at[0]) for x in s.roots)
            a = w.do({"op": "retrieve", "h": "r", "req": [[n, [v]] for n, v in k.items()], "mode": "records"}, d=d2)
            n = a.get("len", a.get("size", 0)) if "err" not in a else 0
            recs = a.get("rec", []) if "err" not in a else []
            if inspace and visible(at[0], k, "retrieve"):
                if "err" in a or not recs:
                    w.fail("existing-not-retrieved", f"{k}: stored at {at}: {short(a)}")
            elif recs and not (roots_seen.get(os.path.dirname(at[0])) and roots_seen[os.path.dirname(at[0])].can("retrieve")):
                w.fail("closed-root-retrieved", f"{k}: stored at {at}: {short(a)}")
            res.count("retrieved")
        # --- wipe and purge: closed roots keep what they have
        barred = [f for f in fields if any(os.path.dirname(f[0]) == x.path and not x.can("wipe") and x.can("list") for x in R)]
        if fields and r.random() < (.8 if barred else .4):
            k = dict(zip(DB, r.choice(barred if barred and r.random() < .6 else list(fields))[1][:4]))
            what = r.choice(["wipe", "wipe", "purge"])
            before = snapfiles(os.path.join(wd, "data"))
            a = w.do({"op": what, "h": "r", "req": [[n, [v]] for n, v in k.items()], "doit": True}, d=d2)
            after = snapfiles(os.path.join(wd, "data"))
            gone = sorted(p for p in before if p not in after or after[p] != before[p])
            left = sorted(p for p in after if p not in before)
            if left:
                sp = space_of(k)
                own = sp is not None and all(any(p.startswith(x.path + "/") for x in sp.roots) for p in left)
                w.fail(f"{what}-leaves-files:{'own' if own else 'other'}-space", f"{k}: {left}: {short(a)}")
            for p in gone:
                root = next(x for x in R if p.startswith(x.path + "/"))
                if not root.can("wipe") or not root.can("list"):
                    w.fail(f"{what}d-in-closed-root", f"{k}: {p} of root {root.flags}: {short(a)}")
                if what == "purge" and tuple(k[n] for n in DB) not in again:
                    w.fail("purged-live", f"{k}: {p}")
                if os.path.basename(os.path.dirname(p)) != namer(table, k) and os.path.basename(p) != namer(table, k):
                    w.fail("wiped-other", f"{k}: {p}")
            for (p, t) in list(fields):
                if t[:4] == tuple(k[n] for n in DB) and what == "wipe" and "err" not in a:
                    root = roots_seen.get(os.path.dirname(p))
                    s = space_of(k)
                    if root and root.exists and root.can("list") and root.can("wipe") and s and root in s.roots and os.path.exists(p):
                        w.fail("not-wiped", f"{k} at {p}: {short(a)}")
            for (p, t) in list(fields):
                if not os.path.exists(os.path.join(p, "toc")):
                    del fields[(p, t)]
            dbs, _ = tree(wd)
            res.count(what)
            res.saw((what, bool(gone), "err" in a))
        w.do({"op": "close", "h": "r"}, d=d2)
        d2.close() if hasattr(d2, "close") else None
        # --- another configuration, of later processes
        if source == "yaml" and r.random() < .7:
            ch = r.choice(["order", "close", "close", "close", "open", "handler", "spaces"])
            s = r.choice(SP)
            if ch == "order":
                r.shuffle(s.roots)
            elif ch == "close":
                x = r.choice(s.roots)
                x.flags[r.choice(["writable", "writable", "writable", "archive", "visit", "list", "retrieve", "wipe"])] = False
            elif ch == "open":
                for x in s.roots:
                    x.flags = {}
            elif ch == "handler" and s.handler != "expver":
                s.handler = r.choice(HANDLERS)
            elif ch == "spaces" and len(SP) > 1:
                r.shuffle(SP)
            cfg = w.config = yaml(SP, schema)
            w.d.close() if hasattr(w.d, "close") else None
            w.d = track(Driver(wd, "plain", dict(w.env), f"again{rnd}"))
            res.saw(("change", ch))
    res.count("configurations")


def sources(cs, wd, res):
    """which source of configuration wins"""
    r = rng_for("c18o", cs["seed"], cs["n"])
    schema = write(os.path.join(wd, "schema"), SCHEMA)
    home, xhome = os.path.join(wd, "home"), os.path.join(wd, "xhome")

    def one(tag):
        p = os.path.join(wd, "data", tag)
        os.makedirs(p)
        return yaml([Space(".*", "Default", [RootC(p, {})])], schema)
    # in order of precedence; the tool or program name precedes "config", yaml precedes json
    offered, env, arg = [], {}, {}

    def offer(tag, put, p=.5):
        if r.random() < p:
            put(one(tag))
            offered.append(tag)
    offer("FDB_CONFIG", lambda y: env.__setitem__("FDB_CONFIG", y), .25)
    offer("FDB5_CONFIG", lambda y: env.__setitem__("FDB5_CONFIG", y), .25)
    offer("FDB_CONFIG_FILE", lambda y: env.__setitem__("FDB_CONFIG_FILE", write(os.path.join(wd, "a.yaml"), y)), .35)
    offer("FDB5_CONFIG_FILE", lambda y: env.__setitem__("FDB5_CONFIG_FILE", write(os.path.join(wd, "b.yaml"), y)), .35)
    os.makedirs(os.path.join(home, "etc", "fdb"), exist_ok=True)
    offer("home:fdb-write", lambda y: write(os.path.join(home, "etc/fdb/fdb-list.yaml"), y), .5)
    offer("home:config.yaml", lambda y: write(os.path.join(home, "etc/fdb/config.yaml"), y), 1 if not offered else .7)
    win = offered[0]
    # a database in every root: the one listed tells
    w = World(r, wd, res, env=dict(env, FDB_HOME=home), config=yaml([Space(".*", "Default", [RootC(os.path.join(wd, "data", win), {})])], schema), tag="sources")
    for i, t in enumerate(offered):
        k = {"class": "od", "expver": f"{i:04d}", "stream": "oper", "date": "20200101", "type": "an", "step": "0", "param": "1"}
        w.ok({"op": "open", "h": t, "config": yaml([Space(".*", "Default", [RootC(os.path.join(wd, "data", t), {})])], schema)})
        w.ok({"op": "archive", "h": t, "key": lvl(k), "seed": i + 1, "len": 40})
        w.ok({"op": "close", "h": t})
    args = ["--minimum-keys=class", "class=od"]
    if r.random() < .3:
        x = "--config"
        args.insert(0, "--config=" + write(os.path.join(wd, "z.yaml"), one("option")))
        win = "option"
    e = base_env("plain", home, dict(env, FDB_HOME=home))
    p = subprocess.run([os.path.join(BUILD, "plain", "bin", "fdb-list"), *args], env=e, cwd=wd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
    out = p.stdout.decode("utf-8", "replace")
    found = sorted(set(re.findall(r"expver=(\d{4})", out)))
    expect = [] if win == "option" else [f"{offered.index(win):04d}"]
    if p.returncode or found != expect:
        got = [offered[int(x)] for x in found]
        w.fail(f"wrong-source:{win}:{'+'.join(got)}", f"offered {offered}, {args}: expected {win}, found {got}, exit {p.returncode}: {out[-800:]}")
    res.count("sources")
    res.saw(("source", win, tuple(offered)))
    w.end()


ensure("plain", ("fdbdrv", "iofault", "tools"))
S = c.seed
c.run(spaces, [dict(n=n, seed=S) for n in range(c.n(280, 3000))])
c.run(sources, [dict(n=n, seed=S) for n in range(c.n(48, 600))])
c.finish(100)
