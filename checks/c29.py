import sys, os, hashlib, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *
from vf.tools import *

c = Check("C29", "monitored",
          "Streams of GRIB messages (both editions, several sizes, many databases, repeats, bytes between messages, cut or damaged messages) archived through the message interface from files and "
          "from memory, with an accompanying request (exactly fitting, with a value more, a value less, other values, a message twice) and through fdb-write with filters, modifiers and several "
          "archivers. Every message's identifiers are known from how it was made; afterwards the listing of a fresh handle, the bytes of every field and the data files themselves (every stored "
          "message once, in order, nothing else) are compared with them. distinct = (way, shape of stream, filters/modifiers, outcome)",
          ["Messages carry the MARS keys (local section); bytes between messages are skipped, as the readers of the libraries below do."])

BASE = [{"class": a, "expver": e, "stream": "oper", "date": d, "time": t, "domain": "g"} for a in ("od", "rd") for e in ("0001", "xxxy") for d in ("20200101", "20200102") for t in ("0000", "1200")]
SCHEMA = """
param: Param;
step: Step;
date: Date;
levelist: Double;
expver: Expver;
time: Time;

[ class, expver, stream, date, time, domain
  [ type, levtype
    [ step, levelist, param ]]
]
"""
NAMES = ("class", "expver", "stream", "date", "time", "type", "levtype", "levelist", "step", "param")
DB = ("class", "expver", "stream", "date", "time", "domain")
SAMPLES = ["regular_ll_pl_grib1", "regular_ll_pl_grib2"]


def md5(b):
    return hashlib.md5(b).hexdigest()


class Msgs:
    def __init__(self, w):
        self.w, self.made = w, {}

    def setting(self, k):
        out = []
        for n in NAMES:
            v = k[n]
            g = {"date": "dataDate", "time": "dataTime", "levelist": "level", "step": "step", "param": "paramId"}.get(n)
            if g:
                out.append([g, int(v)])
            elif n != "levtype":
                out.append([n, v])
        return [["setLocalDefinition", 1]] + out

    def make(self, k, big=False):
        r = self.w.rng
        op = {"op": "grib", "sample": "reduced_gg_pl_48_grib2" if big else r.choice(SAMPLES), "seed": r.randrange(1 << 40), "set": self.setting(k)}
        return bytes.fromhex(self.w.ok(op)["hex"])

    def edit(self, b, what):
        return bytes.fromhex(self.w.ok({"op": "grib", "hex": b.hex(), "set": [[n, v] for n, v in what]})["hex"])


def rand_key(r, dbs):
    k = dict(r.choice(dbs))
    k.update(type=r.choice(["an", "fc"]), levtype="pl", levelist=r.choice(["500", "850", "1000"]), step=r.choice(["0", "6", "12", "24"]), param=r.choice(["130", "131", "133"]))
    return k


def tup(k):
    return tuple(sorted(k.items()))


def dbof(k):
    return tuple(k[n] for n in DB)


def verify(w, stored, why):
    """stored: every message in the order of archiving, [(key, bytes)]; returns after comparing all that can be seen"""
    last = {tup(k): b for k, b in stored}
    f = w.fresh()
    items = w.ok({"op": "list", "h": f, "mode2": "full", "req": [], "all": True, "level": 3, "read": True, "md5": True})["items"] if last else w.ok({"op": "list", "h": f, "mode2": "full", "all": True, "level": 3})["items"]
    got = {}
    for i in items:
        k = tup({n: v for lvl in i["k"] for n, v in lvl if v != ""})
        got.setdefault(k, []).append(i)
    for k in last:
        if k not in got:
            w.fail("message-not-stored", f"{why}: {dict(k)}; there are {len(got)} fields for {len(last)} expected")
    for k in got:
        if k not in last:
            w.fail("field-not-asked-for", f"{why}: {dict(k)}")
    for k, its in got.items():
        if its[0]["md5"] != md5(last[k]):
            w.fail("other-bytes", f"{why}: {dict(k)}: {its[0]['len']} bytes, expected {len(last[k])}")
    # the data files hold every message once, in order of arrival, and nothing else
    want = {}
    for k, b in stored:
        want.setdefault((dbof(k), k["type"]), b"")
        want[(dbof(k), k["type"])] += b
    have = {}
    for root in (d for d in sorted(os.listdir(w.wd)) if "-root" in d):
        for d in sorted(os.listdir(os.path.join(w.wd, root))):
            for n in sorted(os.listdir(os.path.join(w.wd, root, d))):
                if n.endswith(".data"):
                    with open(os.path.join(w.wd, root, d, n), "rb") as fh:
                        have.setdefault((tuple(d.split(":")), n.split(":")[0]), []).append(fh.read())
    for g in set(want) | set(have):
        a, b = want.get(g, b""), have.get(g, [])
        if sum(map(len, b)) != len(a):
            w.fail("stored-once", f"{why}: data files of {g}: {[len(x) for x in b]} bytes, the messages are {len(a)}")
        if len(b) == 1 and b[0] != a:
            w.fail("stored-in-order", f"{why}: the data file of {g} differs from the messages in order of arrival")
    w.done(f)
    w.res.count("messages", len(stored))


def junk(r):
    """bytes in which no message starts"""
    return bytes(r.choice(b"abcdefxyz\0\xff \n") for _ in range(r.choice([1, 3, 8, 50, 5000])))


def stream(r, m, n, dbs, gaps=False, big=False):
    keys = []
    for _ in range(n):
        keys.append(dict(r.choice(keys)) if keys and r.random() < .1 else rand_key(r, dbs))
    msgs = [(k, m.make(k, big and r.random() < .2)) for k in keys]
    data = b""
    for k, b in msgs:
        if gaps and data and r.random() < .3:
            data += junk(r)
        data += b
    if gaps and r.random() < .5:
        data += junk(r)
    return msgs, data


def put(wd, name, b):
    p = os.path.join(wd, name)
    with open(p, "wb") as f:
        f.write(b)
    return p


def world(cs, wd, res, r, tag):
    return World(r, wd, res, env={"FDB_SUB_TOCS": "1"} if cs["n"] % 5 == 4 else {}, tag=tag, config=local_config(wd, 1 + (cs["n"] % 3 == 2), schema=SCHEMA), variant="asan" if cs["n"] % 4 == 1 else "plain")


def plain(cs, wd, res):
    r = rng_for("c29p", cs["seed"], cs["n"])
    w = world(cs, wd, res, r, "plain")
    m = Msgs(w)
    dbs = r.sample(BASE, r.randint(1, 4))
    stored = []
    for rnd in range(r.randint(1, 3)):
        gaps = r.random() < .4
        n = r.choice([1, 2, 5, 30, 70]) if r.random() < .9 else 300
        msgs, data = stream(r, m, n, dbs, gaps, big=r.random() < .3)
        how = r.choice(["file", "mem", "write", "write2"])
        bad = None
        if msgs and r.random() < .2:
            bad = r.choice(["cut", "end"])
            lastlen = len(msgs[-1][1])
            if gaps:
                data = b"".join(b for _, b in msgs)
            if bad == "cut":
                data = data[:-r.randint(1, lastlen - 20)]
            else:
                data = data[:-4] + b"ABCD"
            msgs, lost = msgs[:-1], msgs[-1]
        p = put(wd, f"in{rnd}", data)
        if how in ("file", "mem"):
            w.ok({"op": "open", "h": "m", "config": w.config})
            a = w.do({"op": "archive_file", "h": "m", "file": p, "mem": how == "mem"})
            b = w.do({"op": "close", "h": "m"})
            failed = "err" in a
        else:
            cut = r.randrange(len(data) + 1) if False else 0
            files = [p]
            if how == "write2" and len(msgs) > 1 and not bad and not gaps:
                j = r.randrange(1, len(msgs))
                files = [put(wd, f"in{rnd}a", b"".join(x for _, x in msgs[:j])), put(wd, f"in{rnd}b", b"".join(x for _, x in msgs[j:]))]
            rc, out = tool(w, "fdb-write", *files)
            failed = rc != 0
            a = out[-600:]
        if bad:
            if not failed:
                w.fail(f"damaged-message-not-reported:{bad}", f"{how}: a stream whose last message is damaged was archived without an error")
            # what came before may be stored or not, by whether the handle got to flush; that last message never
            f = w.fresh()
            li = w.ok({"op": "list", "h": f, "mode2": "dedup", "req": [[n, [v]] for n, v in lost[0].items()], "level": 3, "read": True, "md5": True})["items"]
            if any(i["md5"] == md5(lost[1]) or i["len"] < 20 for i in li) or any(i["md5"] not in {md5(x) for k, x in stored + msgs} for i in li):
                w.fail("damaged-message-stored", f"{how}: {short(li)}")
            res.saw(("bad", bad, how, min(len(msgs), 3)))
            res.count("damaged")
            break
        if failed:
            w.fail(f"archive-failed:{how}", f"{len(msgs)} messages, {len(data)} bytes: {short(a)}")
        stored += msgs
        verify(w, stored, how)
        res.saw(("plain", how, gaps, n, len(dbs), bool(rnd)))
    w.end()


def request(cs, wd, res):
    """archiving with a request that says what is to come"""
    r = rng_for("c29r", cs["seed"], cs["n"])
    w = world(cs, wd, res, r, "request")
    m = Msgs(w)
    dbs = r.sample(BASE, 2)
    vals = {"type": ["an", "fc"], "levelist": ["500", "850", "1000"], "step": ["0", "6", "12", "24"], "param": ["130", "131", "133"]}
    stored = []
    for rnd in range(3):
        db = r.choice(dbs)
        pick = {n: r.sample(v, r.randint(1, min(3, len(v)))) for n, v in vals.items()}
        rq = dict({n: [v] for n, v in db.items()}, levtype=["pl"], **pick)
        if r.random() < .3:
            d2 = {"class": "od", "expver": "0001"}
            rq["date"] = ["20200101", "20200102"]
        keys = [dict(zip(rq, x)) for x in itertools.product(*rq.values())]
        if r.random() < .5:
            r.shuffle(keys)
        what = r.choice(["exact", "exact", "missing", "extra", "twice", "other", "swap", "empty"])
        if what == "missing":
            keys.pop(r.randrange(len(keys)))
        elif what in ("extra", "swap"):
            k = dict(r.choice(keys))
            n = r.choice(["step", "param", "levelist", "date", "class", "type"])
            k[n] = {"step": "36", "param": "138", "levelist": "700", "date": "20200103", "class": "e4", "type": "cf" if False else ("fc" if rq["type"] == ["an"] else "an")}[n]
            if n == "type" and len(rq["type"]) == 2:
                k["type"], k["step"] = "an", "36"
            if what == "swap":
                keys.pop(r.randrange(len(keys)))
            keys.insert(r.randrange(len(keys) + 1), k)
        elif what == "twice":
            keys.insert(r.randrange(len(keys) + 1), dict(r.choice(keys)))
        elif what == "other":
            n = r.choice(["step", "levelist"])
            for k in keys:
                k[n] = {"step": "36", "levelist": "700"}[n]
        elif what == "empty":
            keys = []
        msgs = [(k, m.make(k)) for k in keys]
        p = put(wd, f"in{rnd}", b"".join(b for _, b in msgs))
        w.ok({"op": "open", "h": "m", "config": w.config})
        order = list(rq)
        r.shuffle(order)
        q = []
        for n in order:
            v = list(rq[n])
            r.shuffle(v)
            q.append([n, v])
        a = w.do({"op": "archive_file", "h": "m", "file": p, "req": q})
        if what == "exact":
            if "err" in a:
                w.fail("fitting-request-refused", f"{rq}: {short(a)}")
            w.ok({"op": "close", "h": "m"})
            stored += msgs
            verify(w, stored, "request")
        else:
            if "err" not in a:
                w.fail(f"unfitting-request-accepted:{what}", f"{rq}: {len(keys)} messages")
            if a["err"] != "UserError" and "UserError" not in str(a):
                res.count("other_error")
            w.do({"op": "close", "h": "m"})
        res.saw(("request", what, len(keys), len(rq["date"])))
        res.count("requests")
        if what != "exact":
            break
    w.end()


FVALS = {"class": ["od", "rd"], "expver": ["0001", "xxxy"], "date": ["20200101", "20200102"], "time": ["0000", "1200"], "type": ["an", "fc"], "levelist": ["500", "850", "1000"],
         "step": ["0", "6", "12", "24"], "param": ["130", "131", "133"], "levtype": ["pl", "sfc"]}


def rand_filter(r):
    return {n: r.sample(FVALS[n], r.randint(1, len(FVALS[n]) - 1)) for n in r.sample(list(FVALS), r.choice([1, 1, 2, 3]))}


def ftext(r, f):
    out = []
    for n, v in f.items():
        v = list(v)
        if n == "step" and r.random() < .3 and v == ["0", "6", "12"]:
            v = ["0", "to", "12", "by", "6"]
        if n == "time" and r.random() < .3:
            v = [{"0000": "00", "1200": "12"}[x] for x in v]
        if n == "param" and r.random() < .3:
            v = [{"130": "t", "131": "u", "133": "q"}[x] for x in v]
        if n == "expver" and r.random() < .3:
            v = [{"0001": "1"}.get(x, x) for x in v]
        out.append(f"{n}={'/'.join(v)}")
    return ",".join(out)


def fits(k, f):
    return all(k.get(n) in v for n, v in f.items())


def filters(cs, wd, res):
    r = rng_for("c29f", cs["seed"], cs["n"])
    w = world(cs, wd, res, r, "filters")
    m = Msgs(w)
    dbs = r.sample(BASE, r.randint(2, 6))
    stored = []
    for rnd in range(3):
        msgs, data = stream(r, m, r.choice([3, 10, 40]), dbs, r.random() < .2)
        args, inc, exc, mod = [], None, None, []
        if r.random() < .6:
            inc = rand_filter(r)
            args.append("--include-filter=" + ftext(r, inc))
        if r.random() < .5:
            exc = rand_filter(r)
            args.append("--exclude-filter=" + ftext(r, exc))
        if r.random() < .5:
            mod = [(n, v) for n, v in (("class", r.choice(["od", "rd"])), ("expver", r.choice(["0001", "yyyy"])), ("type", r.choice(["an", "fc"])), ("step", r.choice(["6", "48"])))
                   if r.random() < .4]
            if mod:
                args.append("--modifiers=" + ",".join(f"{n}={v}" for n, v in mod))
        na = 1
        files = [put(wd, f"in{rnd}", data)]
        new = []
        for k, b in msgs:
            if inc is not None and not fits(k, inc) or exc is not None and fits(k, exc):
                continue
            if mod:
                k, b = dict(k), m.edit(b, mod)
                for n, v in mod:
                    k[n] = v
            new.append((k, b))
        if r.random() < .2:
            na = r.randint(1, 3)
            args.append(f"--archivers={na}")
        rc, out = tool(w, "fdb-write", *args, *files)
        if rc:
            w.fail("write-failed", f"{args}: {out[-1000:]}")
        stored += new
        verify(w, stored, f"fdb-write {args}")
        res.count("selected", len(new))
        res.count("filtered", len(msgs) - len(new))
        res.saw(("filter", tuple(sorted(inc or [])), tuple(sorted(exc or [])), tuple(n for n, _ in mod), min(len(new), 2), na))
    w.end()


def nomsg(cs, wd, res):
    """data that are no message at all"""
    r = rng_for("c29n", cs["seed"], cs["n"])
    w = world(cs, wd, res, r, "nomsg")
    m = Msgs(w)
    k = rand_key(r, BASE)
    b = m.make(k)
    kinds = {"head": b[:r.randint(4, 60)], "short": b[:7], "noend": b[:-4], "len0": b[:8] + bytes(8) + b[16:] if b[7] == 2 else b[:4] + bytes(3) + b[7:],
             "lenbig": b[:8] + b"\0\0\0\0\x7f\xff\xff\xff" + b[16:] if b[7] == 2 else b[:4] + b"\x7f\xff\xff" + b[7:], "edition": b[:7] + b"\x09" + b[8:],
             "flip": bytes(x ^ (1 << r.randrange(8)) if i == 30 else x for i, x in enumerate(b))[:len(b) - 5]}
    kind = r.choice(sorted(kinds))
    p = put(wd, "in", kinds[kind])
    tooled = r.random() < .4
    before = None
    if tooled:
        rc, out = tool(w, "fdb-write", p)
        failed, a = rc != 0, out[-500:]
    else:
        w.ok({"op": "open", "h": "m", "config": w.config})
        a = w.do({"op": "archive_file", "h": "m", "file": p, "mem": r.random() < .5})
        failed = "err" in a
        w.do({"op": "close", "h": "m"})
    if not failed:
        w.fail(f"no-message-not-reported:{kind}", f"{len(kinds[kind])} bytes, {'fdb-write' if tooled else 'API'}: {short(a)}")
    f = w.fresh()
    li = w.ok({"op": "list", "h": f, "mode2": "full", "all": True, "level": 3})["items"]
    if li:
        w.fail(f"no-message-stored:{kind}", short(li))
    res.count("broken")
    res.saw(("nomsg", kind, tooled, "asan" if cs["n"] % 4 == 1 else "plain"))
    w.end()


ensure("plain", ("fdbdrv", "iofault", "tools"))
ensure("asan")
S = c.seed
c.run(plain, [dict(n=n, seed=S) for n in range(c.n(40, 1500))])
c.run(request, [dict(n=n, seed=S) for n in range(c.n(64, 2000))])
c.run(filters, [dict(n=n, seed=S) for n in range(c.n(48, 2000))])
c.run(nomsg, [dict(n=n, seed=S) for n in range(c.n(48, 600))])
c.finish(100)
