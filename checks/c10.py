import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *

c = Check("C10", "exploration", "histories with archive and flush callbacks recorded; the recorded events are checked for exactly-once, order, content, and visibility at the "
          "moment of the flush callback (probed from inside it); distinct = (layout, fields per flush, databases per flush, kind of check)")
EV = VARIANTS + [("evict2", {"VF_RES": "fdbMaxNbDBsOpen=2"}, 2), ("evict3", {"VF_RES": "fdbMaxNbDBsOpen=3"}, 1), ("evictsub", {"VF_RES": "fdbMaxNbDBsOpen=1", "FDB_SUB_TOCS": "1"}, 1)]


def tree(wd):
    out = {}
    for p, ds, fs in os.walk(wd):
        if p == wd:
            ds[:] = [d for d in ds if "-root" in d]
            continue
        for f in fs:
            q = os.path.join(p, f)
            st = os.stat(q)
            with open(q, "rb") as fh:
                out[q] = (st.st_size, st.st_mtime_ns, hashlib.md5(fh.read()).hexdigest())
        for d in ds:
            out[os.path.join(p, d)] = "dir"
    return out


class Mon:
    """Events of one writing handle against what was asked of it"""

    def __init__(self, w, h, reader):
        self.w, self.h, self.reader = w, h, reader
        self.want = []      # archives since the last collection
        self.effective = 0  # flushes expected to fire the callback
        self.since = 0      # archives since the last effective flush
        w.open(h)
        q = h + "p"
        op = lambda **k: json.dumps(k)
        probe = [json.dumps(dict(w.open_op(q))), op(op="list", h=q, all=True, mode2="dedup", read=True), op(op="close", h=q)]
        self.register = {"op": "callbacks", "h": h, "probe": probe}

    def archive(self):
        w = self.w
        k = w.ks.key()
        if w.evict or self.evicting:
            pass
        w.seed += 1
        ln = w.rng.choice(w.lens)
        w.ok({"op": "archive", "h": self.h, "key": keylist(k, rng=w.rng), "seed": w.seed, "len": ln})
        self.order = getattr(self, "order", [])
        self.order.append((k, (w.seed, ln)))
        self.want.append((k, (w.seed, ln)))
        self.since += 1
        w.res.count("archived")

    evicting = False


def latest(order):
    out = {}
    for k, rec in order:
        out[parts(k, Mon.rule_of)] = rec
    return out


def check_visible(w, rows, order, what):
    got = dict(rows)
    exp = latest(order)
    if len(got) != len(rows):
        w.fail(what + "-duplicates", f"{what}: de-duplicated listing repeats a field")
    for p, rec in exp.items():
        if got.get(p) != rec:
            w.fail(what + ("-missing" if p not in got else "-stale"), f"{what}: {fmt(p)} should hold {rec}, is {got.get(p)}")
    for p in got:
        if p not in exp:
            w.fail(what + "-foreign", f"{what}: {fmt(p)} was never archived")


def collect(m, w, ctx, order):
    r = w.ok({"op": "events", "h": m.h, "read": True})
    ev = r["events"]
    a = [e for e in ev if e["t"] == "a"]
    f = [e for e in ev if e["t"] == "f"]
    if len(a) != len(m.want):
        w.fail("archive-callback-count", f"{ctx}: {len(m.want)} fields archived, archive callback called {len(a)} times")
    for e, (k, rec) in zip(a, m.want):
        d = {x[0]: x[1] for x in e["key"]}
        if d != k:
            w.fail("archive-callback-key", f"{ctx}: callback got {d} for {k}")
        if [int(e["rec"][0][0]), e["rec"][0][1]] != list(rec) or not e["rec"][0][2] or e["len"] != rec[1] or len(e["rec"]) != 1:
            w.fail("archive-callback-data", f"{ctx}: callback got data {short(e)} for {rec}")
    if len(f) != m.effective:
        w.fail("flush-callback-count", f"{ctx}: {m.effective} effective flushes, flush callback called {len(f)} times")
    if f and a and f[-1]["idx"] < a[-1]["idx"]:
        w.fail("flush-callback-order", f"{ctx}: flush callback before the archive callback of a field it covers")
    locs = {i: l for i, l in r["locs"]}
    for e, (k, rec) in zip(a, m.want):
        l = locs.get(e["idx"])
        if not isinstance(l, dict) or "err" in l:
            w.fail("callback-future", f"{ctx}: the future of {k} gave {short(l)}")
        if len(l["rec"]) != 1 or (int(l["rec"][0][0]), l["rec"][0][1]) != rec or not l["rec"][0][2] or l["len"] != rec[1]:
            w.fail("callback-location", f"{ctx}: the location given for {k} {rec} reads {short(l)}")
    for e in f:
        for x in e["probe"]:
            if "err" in x:
                w.fail("flush-callback-probe", f"{ctx}: inside the flush callback: {short(x)}")
        if f.index(e) == len(f) - 1:
            check_visible(w, w.rows(e["probe"][1]["items"], "probe"), order, "in-flush-callback")
    w.res.saw(("events", w.tag, min(len(a), 12), len({parts(k, Mon.rule_of)[0] for k, _ in m.want}), len(f)))
    w.res.count("archive_callbacks", len(a))
    w.res.count("flush_callbacks", len(f))
    m.want, m.effective = [], 0


def hist(i, wd, res):
    name, env, roots = EV[i % len(EV)]
    rng = rng_for("c10", c.seed, i)
    w = make_world(i, wd, res, c.seed, variants=EV, schema="a" if (i // len(EV)) % 2 else "b", lens=[16, 100, 3000, 20000], ksargs={"ndb": [1, 4, 8][i % 3]})
    go(w, wd, res, rng)


def lanes(i, wd, res):
    """the same through a select FDB: two lanes, opened when first used"""
    rng = rng_for("c10l", c.seed, i)
    cfg = "---\ntype: select\nfdbs:\n"
    for n, sel in (("lane-od", "class=od"), ("lane-rd", "class=rd")):
        sub = local_config(wd, rng.choice([1, 2]), name=n).replace("---\n", "")
        cfg += f"- select: {sel}\n" + "".join("  " + l + "\n" for l in sub.splitlines())
    w = World(rng, wd, res, config=cfg, ks=KeySpace(rng, ndb=[2, 4, 8][i % 3]), tag="select", lens=[16, 100, 3000, 20000])
    go(w, wd, res, rng)


def go(w, wd, res, rng):
    w.evict = False
    Mon.rule_of = staticmethod(w.model.rule_of)
    other = track(Driver(wd, "plain", dict(w.env), "other", args=w.argv))
    order = []      # everything archived, flush order (one writer at a time)
    for life in range(rng.choice([1, 2])):
        m = Mon(w, "w", other)
        m.order = order
        late = rng.random() < .3     # callbacks registered on a handle already in use
        if not late:
            w.ok(m.register)
        elif rng.random() < .4:      # in use for reading
            w.ok({"op": "list", "h": "w", "all": True, "mode2": "dedup"})
        for rnd in range(rng.choice([2, 4])):
            for _ in range(rng.choice([0, 1, 1, 3, 8])):
                m.archive()
            if late and rnd == 0:
                w.ok({"op": "flush", "h": "w"})
                w.ok(m.register)
                m.want, m.effective, m.since, late = [], 0, 0, False
                continue
            before = None
            if m.since == 0:
                before = tree(wd)
            w.ok({"op": "flush", "h": "w"})
            if m.since:
                m.effective += 1
                m.since = 0
            elif tree(wd) != before:
                w.fail("empty-flush-changes", f"flush with nothing archived since the last one changed the store: {set(before.items()) ^ set(tree(wd).items())}")
            else:
                w.res.saw(("empty-flush", w.tag))
            collect(m, w, f"{w.tag} round {rnd}", order)
            # visible to handles opened now, in this process and in another
            for d in (w.d, other):
                w.ok(w.open_op("v"), d=d)
                r = w.ok({"op": "list", "h": "v", "all": True, "mode2": "dedup", "read": True}, d=d)
                check_visible(w, w.rows(r["items"], "after-flush"), order, "after-flush")
                if order and rng.random() < .5:
                    k, _ = rng.choice(order)
                    r = w.ok({"op": "retrieve", "h": "v", "req": req(k)}, d=d)
                    if w.recs(r, "after-flush", k) != [latest(order)[parts(k, w.model.rule_of)]]:
                        w.fail("after-flush-retrieve", f"{k} -> {short(r)}, expected {latest(order)[parts(k, w.model.rule_of)]}")
                w.ok({"op": "close", "h": "v"}, d=d)
                w.res.saw(("visible", w.tag, d is other, min(len(order), 20)))
        for _ in range(rng.choice([0, 1, 5])):
            m.archive()
        w.ok({"op": "close", "h": "w"})     # closing flushes
        w.handles.pop("w")
        for d in (w.d, other):
            w.ok(w.open_op("v"), d=d)
            r = w.ok({"op": "list", "h": "v", "all": True, "mode2": "dedup", "read": True}, d=d)
            check_visible(w, w.rows(r["items"], "after-close"), order, "after-close")
            w.ok({"op": "close", "h": "v"}, d=d)
            w.res.saw(("closed", w.tag, d is other, min(len(m.want), 9)))
    other.quit()
    w.d.quit()
    res.sample({"layout": w.tag, "fields": len(order), "operations": w.trace[:3]})


ensure("plain")
c.run(hist, range(c.n(480, 20000)))
c.run(lanes, range(c.n(96, 3000)))
c.finish(500)
