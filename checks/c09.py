import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *
from vf.remote import *

c = Check("C09", "monitored",
          "2 to 8 threads of one process run random programs of archive, flush, list, inspect, retrieve, axes, status and statistics, on one shared "
          "handle, on handles of their own, or both, over local and remote configurations; the same programs run in a ThreadSanitizer build and in a "
          "plain build (with delays before system calls). Every call is logged with start and end; an offline checker requires every field exactly once "
          "with its own bytes, visible to any handle opened after a flush that began after its archive call had returned, no error and no hang. "
          "distinct = (build, sharing, operations that overlapped in time)",
          ["ThreadSanitizer does not see inside eckit, metkit and eccodes, which are prebuilt: races of which one access is theirs are not judged.",
           "A retrieval sees a database as it was when its handle first used it."])
IOSO = os.path.join(BUILD, "plain", "lib", "libiofault.so")
NAMES = ("main", "subtoc", "roots3", "loadthr", "nocache", "async", "idx64", "nopreload", "evict")
PV = [v for v in VARIANTS if v[0] in NAMES]
TV = [v for v in PV if v[0] not in ("async", "subtoc")]     # POSIX AIO: ThreadSanitizer does not know the threads glibc makes for it


def tsan_reports(err):
    """-> [(signature, text)] of the data races both of whose accesses are in this repository; a lock order inversion is no deadlock: hangs are judged"""
    out = []
    for rep in re.split(r"={18,}\n", err):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", rep)
        if not m:
            continue
        kind = m.group(1).strip()
        stacks = re.split(r"\n\s*\n", rep)
        acc, two = [], []
        for s in stacks:
            fr = re.findall(r"^\s+#\d+ (.*)$", s, re.M)
            fr = [f for f in fr if f]
            if fr:
                acc.append(fr)
                if re.search(r"(read|write|Read|Write) of size \d+ at .* by ", s):
                    two.append(fr)
        if kind.startswith("data race") or "race on" in kind or "use-after-free" in kind:
            # the access itself is the library's: made by its code or, below interceptors and inlined headers, on behalf of it
            top = [next((f for f in fr if "/src/fdb5/" in f or "libeckit" in f or "libmetkit" in f or "libeccodes" in f or "fdbdrv.cc" in f), "")
                   for fr in two]
            if len(two) < 2 or not all("/src/fdb5/" in x for x in top):
                out.append((None, rep))
                continue
            own = top
            sig = sorted(re.sub(r"\(.*", "", o).split(" /")[0].strip()[:80] for o in own)
            out.append((f"{kind}: {' and '.join(dict.fromkeys(sig))}", rep))
        else:
            out.append((None, rep))
    return out


def program(w, r, t, steps, share, uniq, mode):
    """ops of one thread; -> (ops, notes)"""
    ops, notes = [], []
    own = f"t{t}"
    nq = 0

    def add(op, note=None):
        ops.append(op)
        notes.append(note)

    opened = False
    nflush = 0
    for s in range(steps):
        k = r.random()
        h = "s" if share == "shared" or share == "both" and r.random() < .5 else own
        if h == own and not opened:
            add(w.open_op(own))
            opened = True
        if k < .45:
            for _ in range(r.choice([1, 2, 5])):
                key = w.ks.key()
                if "step" not in key and key["stream"] == "moda":
                    key["step"] = "0"
                uniq[0] += 1
                if "step" in key:
                    key["step"] = str(uniq[0])     # each field once
                p = parts(key, w.model.rule_of)
                if p in uniq[1]:
                    continue
                uniq[1].add(p)
                w.seed += 1
                rec = (w.seed, r.choice([16, 100, 4096, 20000]))
                add({"op": "archive", "h": h, "key": keylist(key, rng=r), "seed": rec[0], "len": rec[1]}, ("archive", h, p, rec))
        elif k < .6:
            add({"op": "flush", "h": h}, ("flush", h))
        else:
            kind = r.choice(["full", "dedup", "inspect", "retrieve", "axes", "status", "stats", "depth", "same", "same", "full"])
            q = h
            fresh = kind != "same" and r.random() < .6
            if kind == "same":      # a question to the handle that others write through
                kind = r.choice(["full", "inspect", "axes", "status", "retrieve"])
            if mode == "remote" and kind == "status":
                kind = "stats"
            if fresh:
                nq += 1
                q = f"t{t}q{nq}"
                add(w.open_op(q))
            base = w.ks.key()
            fq = {n: [base[n]] for n in r.sample(sorted(base), r.randint(0, 3))}
            sel = lambda x: {"req": req(x)} if x else {"all": True}
            dbq = {n: v for n, v in fq.items() if n in ("class", "expver", "stream")} or {"class": [base["class"]]}
            if kind in ("full", "dedup"):
                add(dict({"op": "list", "h": q, "mode2": kind, "level": 3, "read": True}, **sel(fq)), ("list", kind, fq, fresh))
            elif kind == "depth":
                add(dict({"op": "list", "h": q, "mode2": "full", "level": r.choice([1, 2])}, **sel(fq)))
            elif kind in ("inspect", "retrieve"):
                x = {n: [v] for n, v in base.items()}
                if "step" in x:
                    x["step"] = [str(v) for v in range(max(1, uniq[0] - 30), uniq[0] + 1)]
                add({"op": kind, "h": q, "req": req(x), "read": True}, (kind, None, x, fresh))
            elif kind == "axes":
                add(dict({"op": "axes", "h": q, "level": 3}, **sel(fq)), ("axes", None, fq, fresh))
            else:
                add(dict({"op": kind, "h": q}, **({"req": req(dbq)})))
            if fresh:
                add({"op": "close", "h": q})
    if opened:
        add({"op": "close", "h": own}, ("flush", own))
    return ops, notes


def verify(w, what, logs):
    """logs: per thread [(t0, t1, result, op, note)]"""
    arch, flushes, reads, spans = [], [], [], []
    for t, log in enumerate(logs):
        for t0, t1, a, op, note in log:
            if isinstance(a, dict) and "err" in a:
                w.fail(f"error:{op['op']}", f"{what}: thread {t}: {short(op)} -> {short(a)}")
            spans.append((t0, t1, t, op["op"]))
            if note and note[0] == "archive":
                arch.append((t1, *note[1:]))
            elif note and note[0] == "flush":
                flushes.append((t0, t1, note[1]))
            elif note:
                reads.append((t0, t1, a, note, t))
    spans.sort()
    live = []
    for s in spans:
        live = [x for x in live if x[1] > s[0]]
        for x in live:
            if x[2] != s[2]:
                w.res.saw((what, tuple(sorted((x[3], s[3])))))
                w.res.count("overlaps")
        live.append(s)
    acked = {}
    for t1, h, p, rec in arch:
        f = [b for a, b, fh in flushes if fh == h and a > t1]
        acked[p] = (min(f) if f else None, rec)
    for t0, t1, a, (kind, mode, q, fresh), t in reads:
        ctx = f"{what}: thread {t}: {kind} {mode or ''} {short(q, 300)} {'fresh' if fresh else ''}"
        if kind == "axes":
            for p, (at, rec) in acked.items():
                if at and at < t0 and matches(p, q) and any(v not in a["axes"].get(n, ()) for n, v in full(p).items()):
                    w.fail("axes-lost", f"{ctx} lacks {fmt(p)}")
            continue
        if kind == "retrieve":
            byrec = {rec: p for p, (_, rec) in acked.items()}
            got = []
            for x in w.recs(a, "retrieve", ctx):
                if x not in byrec:
                    w.fail("never-archived", f"{ctx} delivers {x}")
                got.append((byrec[x], x))
        else:
            got = w.rows(a["items"], kind)
        if len(set(got)) != len(got):
            w.fail("twice", f"{ctx}: {[(fmt(p), r) for p, r in got if got.count((p, r)) > 1][:2]}")
        for p, rec in got:
            if p not in acked or acked[p][1] != rec:
                w.fail("wrong-field", f"{ctx}: {fmt(p)} {rec}, archived {acked.get(p)}")
            if kind == "list" and not matches(p, q):
                w.fail("spurious", f"{ctx}: {fmt(p)}")
        g = {p for p, _ in got}
        if fresh or kind == "list":
            for p, (at, rec) in acked.items():
                sel = matches(p, q) if kind == "list" else set(full(p)) == set(q) and matches(p, q)
                if sel and at and at < t0 and p not in g:
                    w.fail("lost", f"{ctx} lacks {fmt(p)}, flushed before it began")
        w.res.count("fields_read", len(got))
    w.res.count("calls", len(spans))
    return acked


def case(cs, wd, res):
    k, seed, tsan = cs["n"], cs["seed"], cs["tsan"]
    remote = k % 4 == 3
    r = rng_for("c09", seed, k, tsan)
    variant = "tsan" if tsan else "plain"
    share = ("shared", "own", "both")[k // 4 % 3]
    if remote:
        # ThreadSanitizer in the client or in the servers
        w = remote_world(k // 4, wd, res, seed, schema="a", **(dict(svariant="tsan", layouts=[l for l in LAYOUTS if l[2]]) if tsan and k % 8 == 7 else {}))
        if k % 8 == 7:
            variant = "plain"
    else:
        name, env, roots = (TV if tsan else PV)[(k // 4 * 3 + k % 4) % len(TV) if tsan else k % len(PV)]
        env = dict(env)
        if name == "subtoc" and share == "both":
            share = "own"
        w = World(r, wd, res, env=env, config=local_config(wd, roots), tag=name, ks=KeySpace(r, streams=("oper", "enfo", "moda")))
    mode = "remote" if remote else "local"
    w.d.quit()
    env = dict(w.env)
    pre = None
    if not tsan and r.random() < .5:
        env["VF_IO"] = f"root={wd};delay=.1:{r.choice([100, 1000])};seed={r.randrange(1 << 30)}"
        pre = IOSO
    d = track(Driver(wd, variant, env, "thr", preload=pre, args=w.argv))
    what = f"{'tsan' if tsan else 'plain'}{'-server' if tsan and variant == 'plain' else ''}/{mode}/{share}"
    nt = r.choice([2, 3, 4, 6, 8])
    uniq = [100, set()]
    acked = None
    try:
        for h in ["s"] if share != "own" else []:
            a = d.do(w.open_op(h))
            if "err" in a:
                w.fail("error:open", short(a))
        progs = [program(w, rng_for("c09t", seed, k, t), t, cs["steps"], share, uniq, mode) for t in range(nt)]
        raw = d.par([p[0] for p in progs], timeout=100)
        logs = [[(x[0], x[1], x[2], o, n) for x, o, n in zip(rl, p[0], p[1])] for rl, p in zip(raw, progs)]
        t0 = max(x[1] for l in logs for x in l)
        if share != "own":
            a = d.do({"op": "close", "h": "s"})
            logs.append([(t0 + 1, t0 + 2, a, {"op": "close"}, ("flush", "s"))])
        acked = verify(w, what, logs)
        d.quit()
    except DriverDied as e:
        if e.rc != 66:
            w.fail("crash:" + (san_sig(e.err, "") or str(e.rc)), f"{what}: rc={e.rc} {e.err[-4000:]}")
    if tsan:
        reps = tsan_reports(d.stderr(1 << 26))
        for sig, text in reps:
            if sig is None:
                res.count("reports_outside")
                continue
            w.fail(sig, f"{what}: {text[:5000]}")
    if acked is None:
        raise Inconclusive(f"{what}: {d.stderr()[-500:]}")
    # exactly once, in a fresh process
    w.d = track(w.mk("after"))
    q = w.fresh()
    got = w.rows(w.ok({"op": "list", "h": q, "mode2": "full", "all": True, "read": True})["items"], "list")
    w.expect("final", got, [(p, rec) for p, (_, rec) in acked.items()], f"{what}: final listing")
    w.done(q)
    w.d.quit()
    if remote:
        w.cl.kill()
        if tsan:
            for nm in w.cl.procs:
                for sig, text in tsan_reports(w.cl.out(nm)):
                    if sig is None:
                        res.count("reports_outside")
                    else:
                        w.fail("server:" + sig, text[:5000])
    res.sample({"what": what, "layout": w.tag, "threads": nt, "fields": len(acked)})


ensure("plain", ("fdbdrv", "iofault", "fdb-server"))
ensure("tsan", ("fdbdrv", "fdb-server"))
c.run(case, [{"n": k, "seed": c.seed, "tsan": True, "steps": c.n(12, 25)} for k in range(c.n(40, 1000))] +
      [{"n": k, "seed": c.seed, "tsan": False, "steps": c.n(20, 40)} for k in range(c.n(72, 2000))], workers=3)
c.finish(60)
