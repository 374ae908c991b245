"""C04: identity of fields. Reference: canonical values per type, computed here; the oracle compares what archive accepts, and what
list, retrieve and inspect deliver, for identifiers that are as similar as possible."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.core import *
from vf.hist import local_config
from vf.model import elem_parts
from vf.remote import Cluster

c = Check("C04", "exact sets: accepted identities, listed identities and bytes delivered per spelling, against canonical values computed per type",
          ["values of type Param are compared within table 128 and 0 only; requests for step ranges that touch other steps are not judged (metkit normalises them to what is there)", "keys constrained to listed values in the schema are given in the case of the schema"])

SCHEMA = """
i: Integer; n: Integer;
d: Double; e: Double;
date: Date; step: Step; time: Time; expver: Expver; param: Param; g: Grid;
[ k=one/two, expver, v
  [ u, w?
    [ n, x? ]]]

[ c, expver, date, time
  [ i, d, u, g
    [ step, param, n, x, e?, o? ]]]
"""
LEVEL = {1: [["c", "expver", "date", "time"], ["i", "d", "u", "g"], ["step", "param", "n", "x", "e", "o"]],
         2: [["k", "expver", "v"], ["u", "w"], ["n", "x"]]}
OPT = {1: {"e", "o"}, 2: {"w", "x"}}
TYPE = dict(i="I", n="I", d="D", e="D", date="date", time="time", expver="expver", step="step", param="param", g="g")
TEXT = ["a", "b", "ab", "aa", "a b", "a-b", "a_b", "a.b", "a=b", "a,b", "a+b", "a*", "*", "a?", "[a]", "{a}", "(a)", "a|b", "a%b", "a$", "^a", ".",
        "..", "...", "a.", ".a", "10", "01", "1", "1.0", "001", "+1", "-1", "\u00e9", "a#b", "a&b", "a;b", "a'b", "a\"b", "a\\b", "off", "none",
        "true", "a ", " a", "to", "by", "-", "_", "0"]
NUM = ["1", "0", "10", "100", "-1", "11", "-10", "110", "1000000", "123456789012", "2147483648", "-2147483648"]
DBL = ["0.5", "0.1234567", "0.12345678", "1000000.5", "1000000", "1234567.25", "1234567.5", "123456789", "123456788", "0.1", "0.10000001", "1e+20",
       "-0.5", "0", "5", "0.05", "1e-07", "2.5", "25", "250", "-5", "3.141592653589793", "3.14159265358979"]
POOL = dict(I=NUM, D=DBL, date=["20200101", "20200102", "20200110", "20201001", "20200111", "19991231", "20240229"],
            time=["0000", "0100", "0010", "0030", "1200", "2359", "0001", "1000"],
            expver=["0001", "0010", "1000", "0011", "abcd", "abc1", "00001", "aaaa", "0a01"],
            step=["0", "1", "2", "10", "11", "12", "100", "24", "30m", "1h30m", "240"],
            param=["130", "131", "13", "1", "30", "1300", "228"], g=["1+1", "11", "1", "0.5+0.5", "0.5+1", "1+0.5", "o1280", "n32"])
WRONG = dict(date=["2020-01-01", "200101", "0", "-1", "20200230", "20191332", "2020001", "2020-1-1"],
             time=["0", "00", "12", "000000", "00:00", "2400", "123045", "1:00", "02"],
             expver=["1", "01", " 1", "0001 ", "001", "a"], step=["-1", "abc", "1-x"],
             t=["a:b", ":", ":a", "a:", "a::b"], tp=["a/b", "/", "../a", "/tmp/a"])


def kind(k):
    return TYPE.get(k, "t")


def canon(k, v):
    """what two spellings of one value have in common"""
    t = kind(k)
    v = v.lower()
    if t == "I":
        s = v[1:] if v[:1] in "+-" else v
        a, _, b = s.partition(".")
        if a.isdigit() and not b.strip("0"):
            return str(int(("-" if v[0] == "-" else "") + a))
        return v
    if t == "D":
        return repr(float(v) + 0.0) if float(v) else "0.0"
    if t == "step":
        m, s, f = 0, v, 0
        if s[-1:].isdigit():
            return int(s) * 60
        num = ""
        for ch in s:
            if ch.isdigit():
                num += ch
            else:
                m += int(num) * {"h": 60, "m": 1, "d": 1440}[ch]
                num = ""
        return m
    if t == "time":
        s = v.replace(":", "")
        s = s.zfill(2) if ":" not in v else s.zfill(4)
        return (s + "0000")[:4]
    if t == "date":
        return v.replace("-", "")
    if t == "g":
        return v.replace("/", "+")
    if t == "param":
        return str(int(v.split(".")[0]))
    return v


def spell(rng, k, v):
    """another accepted spelling of the same value in a request"""
    t = kind(k)
    o = [v]
    if t == "I" and v.lstrip("-").isdigit():
        o += [v + ".0", ("-0" + v[1:]) if v[0] == "-" else "0" + v] + (["+" + v] if v[0] != "-" else [])
    if t == "D":
        o += [v + "0" if "." in v and "e" not in v else v, "0" + v if v[0] != "-" else v]
        if v == "0.5":
            o += [".5", "5e-1"]
        if "e" not in v and "." not in v:
            o += [v + ".0"]
    if t == "date":
        o += [f"{v[:4]}-{v[4:6]}-{v[6:]}"]
    if t == "time":
        o += [v[:2] + ":" + v[2:], v + "00"] + ([v[:2]] if v[2:] == "00" else []) + ([v[1]] if v[0] == "0" and v[2:] == "00" else [])
    if t == "step":
        m = canon(k, v)
        o += [f"{m}m"] + ([f"{m // 60}h", "0" + v] if m % 60 == 0 else []) + ([f"{m // 1440}d"] if m % 1440 == 0 and m else [])
    if t == "param":
        o += [v + ".128", "0" + v] if int(v) < 256 else []
    if t == "g":
        o += [v.replace("+", "/")]
    if t in ("t", "expver") and k != "k":
        o += [v.upper() if v.isascii() else v]
    return rng.choice(o)


def aspell(rng, k, v):
    """another spelling that is accepted on archive"""
    return spell(rng, k, v) if kind(k) in ("I", "D", "step") else v.upper() if kind(k) == "t" and k != "k" and v.isascii() and rng.random() < .5 else v


class Id:
    """an identity: canonical value per key, split by level"""

    def __init__(self, rule, vals):
        self.rule, self.vals = rule, vals
        self.id = (rule, tuple(sorted((k, canon(k, v)) for k, v in vals.items())))


def ident_of(item):
    keys = {}
    ps = elem_parts(item)
    for lv in ps:
        for k, v in lv:
            if v == "":
                continue
            keys[k] = v
    rule = 2 if "k" in keys else 1
    return (rule, tuple(sorted((k, canon(k, v)) for k, v in keys.items()))), ps


def rec(x):
    return (int(x[0]), x[1]) if x[2] == 1 else tuple(x)


def fp(rule, vals):
    return sum(len(vals.get(k, "")) + 1 for k in LEVEL[rule][2])


class W:
    def __init__(self, i, wd, res):
        self.rng = rng_for("c04", c.seed, i)
        self.i, self.wd, self.res = i, wd, res
        self.cluster = None
        r = self.rng
        self.tag = ["local", "subtoc", "roots2", "remote", "dbnames"][i % 5] if i % 25 == 3 or i % 5 != 3 else "local"
        env = {}
        if self.tag == "remote":
            self.cluster = track(Cluster(wd, "split", schema=SCHEMA, env={"FDB_INDEX_TYPE": "BTreeIndex64"}))
            self.cfg = self.cluster.client
        else:
            self.cfg = local_config(wd, 2 if self.tag == "roots2" else 1, schema=SCHEMA)
            if self.tag == "subtoc":
                env["FDB_SUB_TOCS"] = "1"
        env["FDB_INDEX_TYPE"] = "BTreeIndex64"
        self.env = env
        self.d = track(Driver(wd, "plain", env, "m"))
        self.acc, self.pend, self.trace = {}, {}, []
        self.w = False
        # few values per key, so that identities differ in one key only
        self.pool = {}
        for k in "c expver date time i d u g step param n x e o k v w".split():
            vs = list(POOL.get(kind(k), TEXT))
            if self.cluster:        # see remote_chars()
                vs = [v for v in vs if not set(v) & set("#?%")]
            r.shuffle(vs)
            self.pool[k] = vs[:r.choice([1, 2, 3, 6])]
        self.pool["k"] = ["one", "two"]
        self.seed = 0
        self.seeds = {}

    def fail(self, sig, msg):
        v = Violation(sig, f"[{self.tag}] {msg}")
        v.detail = {"config": self.cfg, "env": self.env, "trace": self.trace[-60:]}
        raise v

    def do(self, op):
        self.trace.append({k: v for k, v in op.items() if k != "config"})
        return self.d.do(op)

    def gen(self):
        r = self.rng
        while True:
            rule = 1 if r.random() < .7 else 2
            vals = {}
            for lv in LEVEL[rule]:
                for k in lv:
                    if k in OPT[rule] and r.random() < .5:
                        continue
                    vals[k] = r.choice(self.pool[k])
            if r.random() < .6 and self.acc:     # one key away from one that is there
                rule, base = r.choice(list(self.acc.values()))[0]
                vals = dict(base)
                k = r.choice([k for lv in LEVEL[rule] for k in lv])
                if k in OPT[rule] and k in vals and r.random() < .5:
                    del vals[k]
                else:
                    src = POOL.get(kind(k), TEXT) if k != "k" else ["one", "two"]
                    if self.cluster:
                        src = [v for v in src if not set(v) & set("#?%")]
                    vals[k] = r.choice(src)
            # adjacent values that join to the same text
            if r.random() < .15 and rule == 2:
                a, b = r.choice([("a", "ab"), ("aa", "b"), ("a", "a.b"), ("a.a", "b")])
                vals["v"], vals["u"] = a, b
            if fp(rule, vals) <= 56:
                return rule, vals

    def key(self, vals, spelled):
        ks = [[k, spelled.get(k, v)] for k, v in vals.items()]
        if self.rng.random() < .5:
            self.rng.shuffle(ks)
        return ks

    def open(self):
        if not self.w:
            self.d.ok({"op": "open", "h": "w", "config": self.cfg})
            self.w = True

    def archive(self):
        rule, vals = self.gen()
        self.open()
        sp = {k: aspell(self.rng, k, v) for k, v in vals.items() if self.rng.random() < .3}
        self.seed += 1
        ln = self.rng.choice([17, 64, 200])
        a = self.do({"op": "archive", "h": "w", "key": self.key(vals, sp), "seed": self.seed, "len": ln})
        if "err" in a:
            self.fail("rejected", f"archive of a valid identifier {vals} spelt {sp} failed: {a['what'][:300]}")
        self.pend[Id(rule, vals).id] = ((rule, vals), (self.seed, ln))
        self.res.count("archived")
        for k in sp:
            if sp[k] != vals[k]:
                self.res.saw(("archived spelling", kind(k), sp[k] if kind(k) != "t" else ""))

    def reject(self):
        """identifiers that must be refused, and leave nothing"""
        r = self.rng
        rule, vals = self.gen()
        vals = dict(vals)
        how = r.choice(["value", "value", "value", "value", "missing", "extra", "norule", "sep", "sep"])
        if how == "value":
            ks = [k for k in vals if kind(k) in WRONG]
            if not ks:
                return
            k = r.choice(ks)
            vals[k] = r.choice(WRONG[kind(k)])
            what = (how, kind(k), vals[k])
        elif how == "sep":
            k = r.choice([k for k in vals if kind(k) == "t" and k != "k"] or [None])
            if k is None:
                return
            deep = k in LEVEL[rule][2]
            vals[k] = r.choice(WRONG["t"] + ([] if deep else WRONG["tp"]))
            what = (how, [j for j in range(3) if k in LEVEL[rule][j]][0], vals[k])
        elif how == "missing":
            k = r.choice([k for k in vals if k not in OPT[rule]])
            del vals[k]
            what = (how, k)
        elif how == "extra":
            vals[r.choice(["z", "zz", "number"])] = r.choice(["1", "a", "0"])
            what = (how,)
        else:
            rule, vals = 2, {k: r.choice(self.pool[k]) for lv in LEVEL[2] for k in lv}
            vals["k"] = r.choice(["three", "on", "onee", "one/two", "twoo", "o"])
            what = (how, vals["k"])
        self.open()
        a = self.do({"op": "archive", "h": "w", "key": self.key(vals, {}), "seed": 999999, "len": 40})
        if "err" not in a:
            self.fail(f"accepted:{what[0]}", f"archive accepted {vals} ({what})")
        if a["err"] and "Abort" in a["what"]:
            self.fail("abort", a["what"])
        self.res.count("rejected")
        self.res.saw(("rejected",) + what)

    def flush(self):
        if self.w:
            self.d.ok({"op": "flush", "h": "w"})
            self.acc.update(self.pend)
            self.pend = {}

    def close(self):
        if self.w:
            self.flush()
            self.d.ok({"op": "close", "h": "w"})
            self.w = False

    def reader(self):
        self.d.ok({"op": "open", "h": "q", "config": self.cfg})

    def listing(self, reqd=None, spelled=None):
        op = {"op": "list", "h": "q", "mode2": "dedup", "level": 3, "read": True}
        if reqd is None:
            op["all"] = True
        else:
            op["req"] = [[k, v] for k, v in reqd.items()]
        l = self.do(op)
        if "items" not in l:
            self.fail("list", f"listing {reqd or 'everything'} failed: {str(l)[:300]}")
        got = {}
        for it in l["items"]:
            idn, ps = ident_of(it)
            if idn in got:
                self.fail("alias:list", f"{idn} is listed twice: {got[idn]} and {ps}")
            got[idn] = rec(it["rec"][0]) if len(it.get("rec") or []) == 1 else str(it)
        return got

    def want(self, reqd):
        """identities that a request matches, with values as sets of canonical values"""
        q = {k: {canon(k, x) for x in v} for k, v in reqd.items()}
        return {i: s for i, (rv, s) in self.acc.items()
                if all((k not in rv[1] and k in OPT[rv[0]] and False) or (k in rv[1] and canon(k, rv[1][k]) in vs) for k, vs in q.items())}

    def compare(self, what, got, want, ctx):
        for i, s in want.items():
            if i not in got:
                self.fail(f"lost:{what}", f"{ctx}: {i} was not found")
            if got[i] != tuple(s):
                self.fail(f"bytes:{what}", f"{ctx}: {i} delivered {got[i]}, archived was {s}")
        for i in got:
            if i not in want:
                self.fail(f"alias:{what}", f"{ctx}: found {i}, which was not asked for (or never archived)")

    def full_request(self, rule, vals):
        """all keys given, in arbitrary spelling"""
        q, sp = {}, {}
        for k, v in vals.items():
            s = spell(self.rng, k, v) if self.rng.random() < .5 else v
            q[k] = s.split("/") if kind(k) == "g" else [s]
            if s != v:
                self.res.saw(("requested spelling", kind(k), s if kind(k) != "t" else ""))
        return q

    def expected(self, rule, vals):
        """the field itself; and those without an optional datum key, if no field of their index has the value asked for"""
        q = {k: canon(k, v) for k, v in vals.items()}
        out = {}
        for i, (rv, s) in self.acc.items():
            if rv[0] != rule or any(k not in q or canon(k, v) != q[k] for k, v in rv[1].items()):
                continue
            if all(k in LEVEL[rule][2] and not self.axis_has(rv, k, q[k]) for k in q if k not in rv[1]):
                out[i] = s
        return out

    def axis_has(self, rv, k, v):
        top = [x for x in LEVEL[rv[0]][0] + LEVEL[rv[0]][1]]
        return any(o[0] == rv[0] and k in o[1] and canon(k, o[1][k]) == v and
                   all((x in o[1]) == (x in rv[1]) and (x not in o[1] or canon(x, o[1][x]) == canon(x, rv[1][x])) for x in top)
                   for o, _ in self.acc.values())

    def retrieve(self, rule, vals, ctx):
        q = self.full_request(rule, vals)
        want = self.expected(rule, vals)
        r = self.do({"op": "retrieve", "h": "q", "req": [[k, v] for k, v in q.items()]})
        if "err" in r:
            if want:
                self.fail("lost:retrieve", f"{ctx}: retrieving {q} failed: {r['what'][:200]}")
            self.res.count("not found")
            return
        got, exp = sorted(map(rec, r["rec"]), key=repr), sorted(want.values(), key=repr)
        if got != exp:
            self.fail("lost:retrieve" if len(got) < len(exp) else "alias:retrieve", f"{ctx}: retrieving {q} delivered {got}, expected {exp}")
        self.res.count("retrieved", len(got))

    def inspect(self, rule, vals, ctx):
        q = self.full_request(rule, vals)
        want = self.expected(rule, vals)
        r = self.do({"op": "inspect", "h": "q", "req": [[k, v] for k, v in q.items()]})
        if "items" not in r:
            if want:
                self.fail("lost:inspect", f"{ctx}: inspecting {q} failed: {str(r)[:200]}")
            return
        got = {ident_of(it)[0] for it in r["items"]}
        if got != set(want):
            self.fail("lost:inspect" if set(want) - got else "alias:inspect", f"{ctx}: inspecting {q} delivers {got}, expected {set(want)}")
        self.res.count("inspected", len(got))

    def check(self):
        self.close()
        r = self.rng
        self.reader()
        self.compare("list", self.listing(), {i: s for i, (_, s) in self.acc.items()}, "list")
        ids = list(self.acc.values())
        for (rule, vals), s in ids:
            self.retrieve(rule, vals, "retrieve")
        for (rule, vals), s in r.sample(ids, min(8, len(ids))):
            self.inspect(rule, vals, "inspect")
            # partial listings with canonical values
            ks = r.sample(sorted(vals), r.choice([1, 2, 4]))
            q = {k: [vals[k]] for k in ks if kind(k) != "g" and kind(k) != "param"}
            if q:
                self.compare("list", self.listing(q), self.want(q), f"list {q}")
                self.res.count("partial listings")
        for _ in range(12):         # one key away, mostly not archived
            rule, vals = self.gen()
            self.retrieve(rule, vals, "near")
            self.res.count("near misses")
        self.d.ok({"op": "close", "h": "q"})


def world(i, wd, res):
    w = W(i, wd, res)
    for rnd in range(w.rng.choice([1, 2, 3])):
        for _ in range(w.rng.choice([5, 12, 25])):
            if w.rng.random() < .35:
                w.reject()
            else:
                w.archive()
            if w.rng.random() < .1:
                w.flush()
        w.check()
    # and in a process that never wrote
    w.d.quit()
    w.d = track(Driver(wd, "plain", w.env, "r"))
    w.check()
    w.d.quit()
    res.saw(("configuration", w.tag))
    res.sample({"layout": w.tag, "identities": len(w.acc), "example": [v for (_, v), _ in list(w.acc.values())[:2]]})


def params(i, wd, res):
    """each spelling of a parameter finds the field archived under its canonical one; what is accepted can be retrieved as it was archived"""
    rng = rng_for("c04p", c.seed, i)
    d = track(Driver(wd, "plain", {}, "m"))
    cfg = local_config(wd, 1, schema=SCHEMA)
    base = dict(c="a", expver="0001", date="20200101", time="0000", i="1", d="1", u="u", g="x", step="0", n="1", x="x")
    v = ["130", "228228", "t", "130.0", "0130", "130.128", "128130", "130200", "130.200"][i]
    d.ok({"op": "open", "h": "w", "config": cfg})
    a = d.do({"op": "archive", "h": "w", "key": [[k, x] for k, x in dict(base, param=v).items()], "seed": 5, "len": 50})
    d.ok({"op": "close", "h": "w"}) if "err" not in a else d.do({"op": "close", "h": "w"})
    d.ok({"op": "open", "h": "q", "config": cfg})
    l = d.do({"op": "list", "h": "q", "mode2": "full", "all": True, "level": 3})
    n = len(l.get("items", []))
    res.saw(("param", v))
    if "err" in a:
        if n:
            raise Violation("accepted:param", f"param={v} was rejected and is listed")
        d.quit()
        return
    r = d.do({"op": "retrieve", "h": "q", "req": [[k, [x]] for k, x in dict(base, param=v).items()]})
    if n != 1 or "err" in r or len(r["rec"]) != 1:
        raise Violation(f"own:param:{v}", f"a field archived with param={v} is not retrieved with param={v}: listed {n}, {str(r)[:150]}")
    res.count("retrieved")
    d.quit()


def remote_chars(i, wd, res):
    """characters that mean something in URIs, in values that become part of the path of a remote data file"""
    cl = track(Cluster(wd, "split", schema=SCHEMA))
    d = track(Driver(wd, "plain", {}, "m"))
    v = ["a#b", "a?b", "a%41b", "a b"][i]
    key = dict(c="x", expver="0001", date="20200101", time="0000", i="1", d="1", u="u", g="x", step="0", param="130", n="1", x="x")
    key["cu"[i % 2]] = v
    d.ok({"op": "open", "h": "w", "config": cl.client})
    d.ok({"op": "archive", "h": "w", "key": [[k, x] for k, x in key.items()], "seed": 5, "len": 50})
    d.ok({"op": "flush", "h": "w"})
    d.ok({"op": "close", "h": "w"})
    d.ok({"op": "open", "h": "q", "config": cl.client})
    r = d.do({"op": "retrieve", "h": "q", "req": [[k, [x]] for k, x in key.items()]})
    res.saw(("remote path", v))
    if "err" in r or [rec(x) for x in r["rec"]] != [(5, 50)]:
        raise Violation(f"remote-path:{v}", f"a field with {key} archived remotely is retrieved as {str(r)[:200]}")
    d.quit()


if __name__ == "__main__":
    ensure("plain")
    c.run(params, range(9))
    c.run(remote_chars, range(4))
    c.run(world, range(c.n(500, 15000)))
    c.finish(200)
