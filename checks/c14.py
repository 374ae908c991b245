import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *
from vf.tools import *

c = Check("C14", "exploration", "random histories over four roots, one database moved step by step through the API (copies, TOC, clean-up; also abandoned, "
          "or its process killed, at every kind of step) or by fdb-move with several threads and failing writes; between steps another process lists and "
          "retrieves everything; every file of every root compared before and after. distinct = (layout, way, stage, outcome, versions present)",
          ["Nobody writes to the database while it is moved: the move locks it."])
IOSO = os.path.join(BUILD, "plain", "lib", "libiofault.so")
NAMES = ("main", "subtoc", "ser1", "ser3sub", "loadthr", "nocache", "async", "nocachesub", "subtocuser", "idx64", "evict", "nopreload", "dbnames")
PV = [v for v in VARIANTS if v[0] in NAMES] + [("aux", {"FDB_AUX_EXTENSIONS": "gribjump,idx2"}, 1)]


def roots_config(wd, schema):
    t = local_config(wd, 0, schema=schema)
    for i, extra in enumerate(("", "", "    archive: false\n", "    wipe: false\n")):
        p = os.path.join(wd, f"fdb-root{i}")
        os.makedirs(p, exist_ok=True)
        t += f"  - path: {p}\n{extra}"
    os.makedirs(os.path.join(wd, "outside"), exist_ok=True)
    return t


def under(s, d):
    return {p: v for p, v in s.items() if p == d or p.startswith(d + "/")}


def observe(w, stage, reader, src=None, dst=None):
    """another process finds every field; src/dst: where the database may be found now"""
    main, w.d = w.d, reader
    try:
        q = w.fresh()
        items = w.ok({"op": "list", "h": q, "mode2": "full", "all": True, "read": True})["items"]
        got = collections.Counter(w.rows(items, "list"))
        exp = collections.Counter(w.model.all())
        both = src and dst
        for x in set(got) | set(exp):
            in_db = x[0][0] == w.moved
            if not (exp[x] <= got[x] <= exp[x] * (2 if both and in_db else 1)):
                w.fail(f"{stage}-list", f"{stage}: {fmt(x[0])} {x[1]} listed {got[x]} times, expected {exp[x]}")
        dirs = {os.path.dirname(i["path"]) for i in items if elem_parts(i)[0] == w.moved}
        for d in dirs:
            if d not in (src, dst):
                w.fail(f"{stage}-place", f"{stage}: fields of the database are in {d}, not {src} or {dst}")
        ded = w.rows(w.ok({"op": "list", "h": q, "mode2": "dedup", "all": True, "read": True})["items"], "dedup")
        w.expect(f"{stage}-dedup", ded, list(w.model.visible().items()), stage)
        w.done(q)
        for p, rec in w.rng.sample(sorted(w.model.visible().items(), key=repr), min(6, len(w.model.visible()))):
            q = w.fresh()
            r = w.do({"op": "retrieve", "h": q, "req": req({n: [v] for n, v in full(p).items()})})
            if "err" in r or not r["rec"] or set(w.recs(r, "retrieve", stage)) != {rec} or (not both and len(r["rec"]) != 1):
                w.fail(f"{stage}-retrieve", f"{stage}: {fmt(p)} {rec} -> {short(r)}")
            w.done(q)
        w.res.count("observations")
    finally:
        w.d = main


def toolreq(w):
    return {n: [v] for n, v in w.moved}


def refused(w, dest, why, cname):
    before = snap(w.wd)
    q = w.fresh()
    r = w.do({"op": "mv", "act": "begin", "h": q, "dest": dest, "req": req(toolreq(w))})
    if "err" not in r:
        r = w.do({"op": "mv", "act": "copy", "n": 1000})
    w.do({"op": "mv", "act": "drop"})
    w.done(q)
    if "err" not in r:
        w.fail("not-refused", f"move to {dest} ({why}) is not refused: {short(r)}")
    after = snap(w.wd)
    if why == "busy":       # what the writer buffers may arrive
        before, after = ({p: v for p, v in x.items() if not p.endswith(".data")} for x in (before, after))
    if after != before:
        w.fail("refused-but-changed", f"a refused move to {dest} ({why}) changed {tdiff(before, after)}")
    w.res.saw((w.tag, "refused", why))
    w.res.count("refused")


def compare(w, before, after, src, dst, aux, keep=False):
    """files of the moved database arrived unchanged, the source is gone, nothing else changed"""
    rest = lambda s: {p: v for p, v in s.items() if p not in under(s, src) and p not in under(s, dst)}
    if rest(before) != rest(after):
        w.fail("others-changed", f"moving {src} to {dst} changed {tdiff(rest(before), rest(after))}")
    want = {p[len(src):]: v for p, v in under(before, src).items() if not p.endswith(".lock") and not p.endswith("duplicates.allow")}
    have = {p[len(dst):]: v for p, v in under(after, dst).items()}
    if want != have:
        w.fail("files-differ", f"moved to {dst}: {tdiff(want, have)}")
    left = under(after, src)
    if left and not keep:
        w.fail("source-left", f"{src} still holds {sorted(left)[:5]}")
    if keep and {p: v for p, v in left.items() if not p.endswith(".lock") and not p.endswith("duplicates.allow")} != \
            {p: v for p, v in under(before, src).items() if not p.endswith(".lock") and not p.endswith("duplicates.allow")}:
        w.fail("kept-source-changed", f"{tdiff(under(before, src), left)}")


def later(w, dst, before_dirs):
    """archives and wipes go to the new place"""
    base = dict(w.moved)
    if w.tag2 != 2:
        w.open("late")
        for _ in range(300):
            k = w.ks.key()
            if parts(k, w.model.rule_of)[0] == w.moved:
                w.archive("late", k)
                if w.rng.random() < .3:
                    break
        w.close("late")
    observe(w, "later", w.reader, dst, None) if w.tag2 != 2 else None
    dirs = {d for d in glob_dbs(w.wd) if os.path.basename(d) == os.path.basename(dst)}
    if dirs != {dst}:
        w.fail("second-place", f"after the move to {dst} there are {dirs}")
    if w.rng.random() < .6:
        q = w.fresh()
        before = snap(w.wd)
        r = w.do({"op": "wipe", "h": q, "doit": True, "req": req(toolreq(w))})
        w.done(q)
        after = snap(w.wd)
        if "err" in r or under(after, dst):
            w.fail("wipe-after-move", f"{short(r)}; {sorted(under(after, dst))[:4]}")
        if {p: v for p, v in before.items() if p not in under(before, dst)} != after:
            w.fail("wipe-others", f"{tdiff(before, after)}")
        w.model.dbs.pop(w.moved)
        w.model.created.discard(w.moved)
        observe(w, "wiped", w.reader)


def glob_dbs(wd):
    out = []
    for t in os.listdir(wd):
        if t.startswith("fdb-root"):
            out += [os.path.join(wd, t, d) for d in os.listdir(os.path.join(wd, t)) if os.path.isdir(os.path.join(wd, t, d))]
    return out


def build(cs, wd, res):
    k = cs["n"]
    rng = rng_for("c14", cs["seed"], k)
    name, env, _ = PV[k % len(PV)]
    b = k // len(PV) % 2 == 1
    kw = dict(ks=KeySpaceB(rng, ndb=2), rule_of=rule_b) if b else dict(ks=KeySpace(rng, ndb=2))
    w = World(rng, wd, res, env=env, tag=name + ("/B" if b else ""), config=roots_config(wd, SCHEMA_B if b else SCHEMA_A), lens=[16, 100, 4096, 20000], **kw)
    history(w, cs["steps"], weights=dict(archive=70, flush=14, close=6, restart=2, list=0, depth=0, retrieve=0, inspect=0, axes=0, compact=0, immut=0, stats=0),
            final=False)
    w.d = track(w.mk("mover"))
    rows = list(w.model.all())
    if not rows:
        return None
    dbs = sorted({p[0] for p, _ in rows}, key=repr)
    dbs = [d for d in dbs if not any(d < o for o in dbs)]       # a move is for one database
    w.moved = rng.choice(dbs)
    w.reader = track(w.mk("reader"))
    q = w.fresh()
    items = w.ok({"op": "list", "h": q, "mode2": "full", "req": req(toolreq(w)), "level": 3})["items"]
    w.done(q)
    dirs = {os.path.dirname(i["path"]) for i in items if elem_parts(i)[0] == w.moved}
    if len(dirs) != 1:
        w.fail("places", f"{fmt((w.moved,))}: {dirs}")
    w.src = dirs.pop()
    w.aux = []
    for i in sorted({i["path"] for i in items if elem_parts(i)[0] == w.moved}):
        for e in w.env.get("FDB_AUX_EXTENSIONS", "gribjump").split(","):
            if rng.random() < .5:
                w.aux.append(i + "." + e)
                write(i + "." + e, f"aux of {i}")
    return w


def dest(w, i):
    p = os.path.join(w.wd, f"fdb-root{i}")
    r = w.rng.random()
    return p if r < .5 else p + "/" if r < .6 else "toc:" + p if r < .7 else "file:" + p if r < .8 else "toc://" + p if r < .9 else os.path.join(w.wd, ".", f"fdb-root{i}")


def busy(w):
    """another process is archiving to the database"""
    main, w.d = w.d, w.reader
    try:
        w.open("busy")
        for _ in range(300):
            k = w.ks.key()
            if parts(k, w.model.rule_of)[0] == w.moved:
                w.archive("busy", k)
                w.d = main
                refused(w, os.path.join(w.wd, f"fdb-root{w.rng.choice([i for i in (0, 1, 2) if f'fdb-root{i}' not in w.src])}"), "busy", None)
                w.d = w.reader
                break
        w.close("busy")
    finally:
        w.d = main


def refusals(w):
    r = w.rng
    if r.random() < .3:
        busy(w)
    if r.random() < .5:
        return
    home = os.path.dirname(w.src)
    for why, d in r.sample([("not a root", os.path.join(w.wd, "outside")), ("root without wipe", os.path.join(w.wd, "fdb-root3")), ("own root", home),
                            ("inside", w.src), ("missing", os.path.join(w.wd, "nowhere")), ("scheme", "foo://" + os.path.join(w.wd, "fdb-root1"))], 2):
        refused(w, d, why, None)
    if r.random() < .5:
        d = os.path.join(w.wd, "fdb-root2", os.path.basename(w.src))
        os.makedirs(d)
        write(os.path.join(d, "something"), "x")
        refused(w, os.path.dirname(d), "exists", None)
        shutil.rmtree(d)


def api(cs, wd, res):
    w = build(cs, wd, res)
    if w is None:
        return
    r = w.rng
    refusals(w)
    w.tag2 = r.choice([i for i in (0, 1, 2) if os.path.join(wd, f"fdb-root{i}") != os.path.dirname(w.src)])
    dst = os.path.join(wd, f"fdb-root{w.tag2}", os.path.basename(w.src))
    before = snap(wd)
    kill = r.random() < .35
    keep = r.random() < .15
    stop = r.choice(["begin", "copy", "copied", "toc", "clean", "cleaning"]) if kill or r.random() < .1 else None
    versions = "masked" if len(list(w.model.all())) > len(w.model.visible()) else "single"
    q = w.fresh()
    w.ok({"op": "mv", "act": "begin", "h": q, "dest": dest(w, w.tag2), "req": req(toolreq(w))})
    done = False

    def at(stage, both=False, moved=False):
        nonlocal done
        if r.random() < .5 or stop == stage or stage in ("toc", "end"):
            observe(w, stage, w.reader, None if moved else w.src, dst if both or moved else None)
            w.res.saw((w.tag, "api", stage, versions))
        if stop == stage and not done:
            done = True
            if kill:
                w.d.kill()
                w.d = track(w.mk("again"))
            else:
                w.do({"op": "mv", "act": "drop"})
            observe(w, f"stopped-{stage}", w.reader, None if moved else w.src, dst if both or moved else None)
            w.res.saw((w.tag, "stopped", stage, kill, versions))
        return done
    if at("begin"):
        return
    while True:
        a = w.ok({"op": "mv", "act": "copy", "n": r.choice([1, 1, 2, 5])})
        if a["sync"]:
            break
        if not a["n"]:
            w.fail("no-toc", "the copies ended without the TOC")
        if at("copy"):
            return
    if at("copied"):
        return
    w.ok({"op": "mv", "act": "toc"})
    if at("toc", both=True):
        return
    if keep:
        w.do({"op": "mv", "act": "drop"})
        w.done(q)
        compare(w, before, snap(wd), w.src, dst, w.aux, keep=True)
        res.saw((w.tag, "kept", versions))
        return
    w.ok({"op": "mv", "act": "clean", "n": 1})
    if at("clean", moved=True):
        return
    while w.ok({"op": "mv", "act": "clean", "n": r.choice([1, 2, 100])})["n"]:
        if at("cleaning", moved=True):
            return
    w.do({"op": "mv", "act": "drop"})
    w.done(q)
    compare(w, before, snap(wd), w.src, dst, w.aux)
    at("end", moved=True)
    res.saw((w.tag, "moved", w.tag2, versions, len(w.aux) > 0))
    res.count("moved")
    later(w, dst, None)
    res.sample({"layout": w.tag, "to": w.tag2, "fields": len(rows_of(w)), "files": len(under(before, w.src))})


def rows_of(w):
    return list(w.model.all())


def bytool(cs, wd, res):
    w = build(cs, wd, res)
    if w is None or dict(w.moved).get("stream") == "moda" or w.tag.endswith("/B"):     # values the language of the tools does not have
        return
    r = w.rng
    w.tag2 = r.choice([i for i in (0, 1, 2) if os.path.join(wd, f"fdb-root{i}") != os.path.dirname(w.src)])
    dst = os.path.join(wd, f"fdb-root{w.tag2}", os.path.basename(w.src))
    before = snap(wd)
    versions = "masked" if len(list(w.model.all())) > len(w.model.visible()) else "single"
    mode = r.choice(["plain", "plain", "keep", "fault", "fault", "fault", "refuse"])
    args = [reqarg(dict(w.moved)), f"--dest={dest(w, w.tag2)}", f"--threads={r.choice([1, 2, 4])}"]
    args += ["--minimum-keys=" + ",".join(dict(w.moved))]
    if mode == "keep":
        args.append("--keep")
    if mode == "refuse":
        args[1] = "--dest=" + os.path.join(wd, r.choice(["outside", "fdb-root3"]))
        rc, out = tool(w, "fdb-move", *args)
        if rc == 0:
            w.fail("not-refused", f"fdb-move {args} ends with 0: {out[-500:]}")
        after = snap(wd)
        if after != before:
            w.fail("refused-but-changed", f"fdb-move {args}: {tdiff(before, after)}")
        observe(w, "refused", w.reader, w.src, None)
        res.saw((w.tag, "tool", mode))
        return
    env, pre = {}, None
    if mode == "fault":
        what = r.choice([f"write:{r.randint(1, 12)}:1:28", f"write:{r.randint(1, 12)}:1:short:7", f"write:{r.randint(1, 30)}:1:kill", f"unlink:{r.randint(1, 6)}:1:kill",
                         f"open:{r.randint(1, 20)}:1:kill"])
        env["VF_IO"] = f"root={os.path.dirname(dst)};fault={what};seed={r.randrange(1 << 30)}" if not what.startswith("unlink") else f"root={w.src};fault={what}"
        pre = IOSO
    rc, out = toolrc(w, args, env, pre)
    after = snap(wd)
    if rc == 0:
        compare(w, before, after, w.src, dst, w.aux, keep=mode == "keep")
        if mode == "keep":
            observe(w, "kept", w.reader, w.src, dst)
        else:
            observe(w, "moved", w.reader, None, dst)
            later(w, dst, None)
        res.count("moved")
    else:
        if mode != "fault":
            w.fail("tool-error", f"fdb-move {args}: {rc} {out[-1500:]}")
        observe(w, "failed", w.reader, w.src, dst)
        rest = lambda s: {p: v for p, v in s.items() if p not in under(s, w.src) and p not in under(s, dst)}
        if rest(before) != rest(after):
            w.fail("others-changed", f"{tdiff(rest(before), rest(after))}")
        res.count("failed_moves")
    res.saw((w.tag, "tool", mode, rc, versions, env.get("VF_IO", "").split(";")[1:2] and env["VF_IO"].split("fault=")[1].split(":")[0]))


def toolrc(w, args, env, pre):
    try:
        return tool(w, "fdb-move", *args, env=env, preload=pre)
    except Violation as v:
        if env and "kill" in env.get("VF_IO", "") and v.sig.startswith("crash:"):
            return -9, v.msg
        raise


ensure("plain", ("fdbdrv", "iofault", "tools"))
c.run(api, [{"n": k, "seed": c.seed, "steps": c.n(40, 80)} for k in range(c.n(150, 6000))])
c.run(bytool, [{"n": k, "seed": c.seed + 1000, "steps": c.n(30, 80)} for k in range(c.n(60, 2000))])
c.finish(60)
