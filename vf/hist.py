"""World: a live FDB driven through its API next to the reference model; every query is checked."""
import collections, hashlib, json, os, random, re, shutil
from .core import *
from .model import *


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)
    return path


def local_config(wd, roots=1, schema=SCHEMA_A, name="fdb", extra="", root_extra=""):
    sp = write(os.path.join(wd, name + ".schema"), schema) if schema else os.path.join(wd, name + ".schema")
    out = f"---\ntype: local\nengine: toc\nschema: {sp}\n{extra}spaces:\n- handler: Default\n  roots:\n"
    for i in range(roots):
        r = os.path.join(wd, f"{name}-root{i}")
        os.makedirs(r, exist_ok=True)
        out += f"  - path: {r}\n{root_extra}"
    return out


def short(x, n=1200):
    s = x if isinstance(x, str) else json.dumps(x, default=lambda o: sorted(o) if isinstance(o, (set, frozenset)) else str(o))
    return s[:n]


def fmt(p):
    return "{" + "}{".join(",".join(f"{a}={b}" for a, b in sorted(l)) for l in p) + "}"


def diff_ms(got, exp):
    g, e = collections.Counter(got), collections.Counter(exp)
    return list((e - g).elements()), list((g - e).elements())


class World:
    def __init__(self, rng, wd, res, env=None, config=None, variant="plain", ks=None, rule_of=rule_a, lens=None,
                 driver=None, tag=""):
        self.rng, self.wd, self.res, self.env = rng, wd, res, dict(env or {})
        self.config = config or local_config(wd)
        self.variant = variant
        self.user = self.env.pop("_user", None)
        self.argv = self.env.pop("_args", [])
        self.subtoc = "FDB_SUB_TOCS" in self.env or bool(self.env.pop("_sub", None))
        self.evict = "fdbMaxNbDBsOpen=1;" in self.env.get("VF_RES", "")
        self.model = Model(rule_of)
        self.ks = ks or KeySpace(rng)
        self.handles = {}
        self.seed = rng.randrange(1, 1 << 40)
        self.trace = []
        self.tag = tag
        self.lens = lens or [16, 17, 100, 1000, 4096, 20000]
        self.mk = driver or (lambda name: Driver(wd, variant, self.env, name, args=self.argv))
        self.d = track(self.mk("main"))
        self.nfresh = 0
        self.session = {}
        self.nsession = 0
        self.max_handles, self.seen_locs, self.files = 1 if self.subtoc else 3, {}, {}

    # ------------------------------------------------------------------ plumbing
    def fail(self, sig, msg, **kw):
        raise Violation(sig, f"{msg}\nrecent operations: {short(self.trace[-25:], 6000)}", env=self.env, config=self.config,
                        trace=self.trace[-400:], **kw)

    def do(self, op, timeout=60, d=None):
        self.trace.append(op)
        return (d or self.d).do(op, timeout)

    def ok(self, op, timeout=60, d=None):
        r = self.do(op, timeout, d)
        if isinstance(r, dict) and "err" in r:
            self.fail(f"unexpected-error:{op['op']}", f"{short(op)} -> {short(r)}")
        return r

    def open_op(self, h):
        op = {"op": "open", "h": h, "config": self.config}
        if self.user:
            op["user"] = self.user
        return op

    def open(self, h, d=None):
        self.ok(self.open_op(h), d=d)
        self.handles[h] = self.model.pending()
        self.nsession += 1
        self.session[h] = self.nsession

    def fresh(self):
        """A handle opened now, for one query"""
        self.nfresh += 1
        h = f"q{self.nfresh}"
        self.ok(self.open_op(h))
        return h

    def done(self, h):
        self.ok({"op": "close", "h": h})

    # ------------------------------------------------------------------ writers
    def archive(self, h, k=None, ln=None, seed=None):
        k = k or self.ks.key()
        self.seed += 1
        seed = seed or self.seed
        ln = ln or self.rng.choice(self.lens)
        op = {"op": "archive", "h": h, "key": keylist(k, rng=self.rng), "seed": seed, "len": ln}
        self.ok(op)
        if self.evict:    # only one database is kept open per writer: leaving it flushes it
            pend = self.handles[h]
            db = parts(k, self.model.rule_of)[0]
            out = {d: v for d, v in pend.items() if d != db}
            for d in out:
                del pend[d]
            self.model.flush(out, self.session[h])
        self.model.archive(self.handles[h], k, seed, ln)
        self.res.count("archived")
        return k

    def flush(self, h):
        self.ok({"op": "flush", "h": h})
        self.model.flush(self.handles[h], self.session[h])
        self.res.count("flushes")

    def close(self, h):
        self.ok({"op": "close", "h": h})
        self.model.flush(self.handles.pop(h), self.session[h])
        if self.subtoc:
            self.model.consolidate(self.session[h])

    # ------------------------------------------------------------------ readers
    def rows(self, items, what, need_data=True):
        out = []
        for it in items:
            p = elem_parts(it)
            if "readerr" in it:
                self.fail(f"{what}-location-unreadable", f"{fmt(p)} at {it['uri']}+{it['off']}: {it['readerr']}")
            if need_data:
                rec = it.get("rec", [])
                if len(rec) != 1 or not rec[0][2] or it["len"] != rec[0][1] or it["n"] != it["len"]:
                    self.fail(f"{what}-wrong-bytes", f"{fmt(p)} at {it['uri']}+{it['off']}:{it['len']} reads as {short(rec)}")
                out.append((p, (int(rec[0][0]), rec[0][1])))
            else:
                out.append((p, None))
        return out

    def expect(self, what, got, exp, ctx):
        miss, extra = diff_ms(got, exp)
        if miss or extra:
            # classify
            kind = "mismatch"
            gp, ep = {p for p, _ in got}, {p for p, _ in exp}
            if any(p not in gp for p, _ in miss):
                kind = "missing"
            elif any(p not in ep for p, _ in extra):
                kind = "spurious"
            elif len(got) != len(exp):
                kind = "multiplicity"
            else:
                kind = "wrong-version"
            self.fail(f"{what}-{kind}", f"{ctx}: {len(miss)} expected but absent, e.g. {[(fmt(p), r) for p, r in miss[:3]]}; "
                      f"{len(extra)} present but not expected, e.g. {[(fmt(p), r) for p, r in extra[:3]]}")

    def check_list(self, request, mode="full", h=None, read=True):
        q = h or self.fresh()
        op = {"op": "list", "h": q, "mode2": mode, "level": 3, "read": read}
        op.update({"req": req(request)} if request else {"all": True})
        r = self.ok(op)
        got = self.rows(r["items"], "list", read)
        exp = self.model.list(request, mode)
        if not read:
            exp = [(p, None) for p, _ in exp]
        self.expect(f"list-{mode}", got, exp, f"list {mode} {request}")
        self.res.saw(("list", mode, tuple(sorted(request)), min(len(exp), 9), len(exp) == len(set(p for p, _ in exp)), self.tag))
        self.res.count("listed_fields", len(got))
        if not h:
            self.done(q)
        return got

    def check_depth(self, request, level):
        q = self.fresh()
        op = {"op": "list", "h": q, "mode2": "full", "level": level}
        op.update({"req": req(request)} if request else {"all": True})
        r = self.ok(op)
        got = [tuple(elem_parts(i)[:level]) for i in r["items"]]
        must = {p[:level] for p, _ in self.model.list(request)}
        have = {p[:level] for p, _ in self.model.all()}
        if level == 1:
            have |= {(d,) for d in self.model.created}
        names = set(request)
        for g in set(got):
            if g not in have:
                self.fail(f"list-depth{level}-spurious", f"list depth {level} {request} returned {fmt(g)} which holds nothing")
            d = full(g)
            if any(n in d and d[n] not in vs for n, vs in request.items()):
                self.fail(f"list-depth{level}-spurious", f"list depth {level} {request} returned non-matching {fmt(g)}")
        lost = must - set(got)
        if lost:
            self.fail(f"list-depth{level}-missing", f"list depth {level} {request} lacks {[fmt(x) for x in list(lost)[:3]]}")
        if level == 1 and len(got) != len(set(got)):
            self.fail("list-depth1-duplicates", f"list depth 1 {request} repeats a database: {short(r)}")
        self.res.saw(("depth", level, tuple(sorted(names)), min(len(got), 5), self.tag))
        self.done(q)

    def recs(self, r, what, ctx):
        out = []
        for s, l, okb in r["rec"]:
            if not okb or s == "garbage":
                self.fail(f"{what}-corrupt", f"{ctx}: returned bytes are not the archived ones: {short(r)}")
            out.append((int(s), l))
        return out

    def db_matches(self, db, fullkey, request):
        """Does a database (of a field with this key) match the request, ignoring keys below database level?"""
        d = dict(db)
        rule = self.model.rule_of(fullkey)[0]
        return all(d.get(n) in vs for n, vs in request.items() if n in rule)

    def expected_retrieve(self, request):
        """A requested optional datum key none of whose values occurs in the index stands for its absence"""
        names = set(request)
        axes = {}
        for p, _ in self.model.all():
            for n, v in p[2]:
                axes.setdefault((p[0], p[1], n), set()).add(v)
        out = []
        for p, r in self.model.visible().items():
            d = full(p)
            if self.is_locked(p[0], "retrieve") or not set(d) <= names or any(d[n] not in request[n] for n in d):
                continue
            rule = self.model.rule_of(d)
            if all(n in rule[2] and not axes.get((p[0], p[1], n), set()) & set(request[n]) for n in names - set(d)):
                out.append((p, r))
        return out

    def is_locked(self, db, what):
        return what in self.model.locked.get(db, ())

    def check_retrieve(self, request, h=None, how="retrieve"):
        q = h or self.fresh()
        exp = self.expected_retrieve(request)
        r = self.do({"op": "retrieve", "h": q, "req": req(request), "chunk": self.rng.choice([1 << 20, 1 << 20, 777, 4096])})
        if "err" in r:
            self.fail("retrieve-error", f"retrieve {request} -> {short(r)}; expected {len(exp)} fields")
        got = self.recs(r, "retrieve", f"retrieve {request}")
        miss, extra = diff_ms(got, [x for _, x in exp])
        if miss or extra:
            known = {rec: p for p, rec in self.model.all()}
            self.fail("retrieve-" + ("missing" if len(got) < len(exp) else "wrong" if len(got) == len(exp) else "extra"),
                      f"retrieve {request}: expected {sorted(x for _, x in exp)} got {sorted(got)}; "
                      f"returned instead: {[(x, fmt(known[x]) if x in known else 'nobody') for x in extra[:4]]}")
        if r["est"] != r["n"] and r["est"] != 0 and "est" in r:
            self.fail("retrieve-length", f"openForRead announced {r['est']} bytes, {r['n']} were delivered for {request}")
        self.res.saw(("retrieve", len(exp) if len(exp) < 6 else "many", len(request), self.tag))
        self.res.count("retrieved_fields", len(got))
        if not h:
            self.done(q)
        return got

    def check_inspect(self, request, h=None):
        q = h or self.fresh()
        r = self.ok({"op": "inspect", "h": q, "req": req(request), "read": True})
        got = self.rows(r["items"], "inspect")
        self.expect("inspect", got, self.expected_retrieve(request), f"inspect {request}")
        self.res.saw(("inspect", min(len(got), 5), len(request), self.tag))
        if not h:
            self.done(q)

    def check_axes(self, request):
        q = self.fresh()
        op = {"op": "axes", "h": q, "level": 3}
        op.update({"req": req(request)} if request else {"all": True})
        r = self.ok(op)["axes"]
        got = {k: {v for v in vs if v != ""} for k, vs in r.items()}
        got = {k: v for k, v in got.items() if v}
        # axes are per database x index: every name/value of a matching field must be there, and nothing never archived
        must, may = collections.defaultdict(set), collections.defaultdict(set)
        for p, _ in self.model.list(request):
            for n, v in full(p).items():
                must[n].add(v)
        for p, _ in self.model.all():
            d = full(p)
            if all(n not in d or d[n] in vs for n, vs in request.items() if n in dict(p[0]) or n in dict(p[1])):
                for n, v in d.items():
                    may[n].add(v)
        for db in self.model.created:
            d = dict(db)
            if all(n not in d or d[n] in vs for n, vs in request.items()):
                for n, v in d.items():
                    may[n].add(v)
        for n, vs in must.items():
            if not vs <= got.get(n, set()):
                self.fail("axes-missing", f"axes {request}: {n} lacks {vs - got.get(n, set())} (got {r})")
        for n, vs in got.items():
            if not vs <= may.get(n, set()):
                self.fail("axes-spurious", f"axes {request}: {n} has {vs - may.get(n, set())} that no field has")
        self.res.saw(("axes", len(must), tuple(sorted(request)), self.tag))
        self.done(q)

    # ------------------------------------------------------------------ random requests
    def rand_request(self, levels=3, hit=0.85):
        """A partial request: some names of one field's key, values widened at random"""
        r = self.rng
        rows = list(self.model.all())
        if rows and r.random() < hit:
            base = full(r.choice(rows)[0])
        else:
            base = dict(self.ks.key())
        names = list(base)
        rule = self.model.rule_of(base)
        names = [n for n in names if any(n in l for l in rule[:levels])]
        if not names:
            return {}
        k = r.randint(1, len(names))
        sel = r.sample(names, k)
        return {n: self.widen(n, base[n]) for n in sel}

    def widen(self, n, v):
        r = self.rng
        if r.random() < 0.5:
            return [v]
        pool = {x.get(n) for x in self.ks.dbs} | set(getattr(self.ks, n, [])) | {"sfc", "pl"} if n == "levtype" else \
            {x.get(n) for x in self.ks.dbs} | set(getattr(self.ks, n, []))
        pool = sorted(x for x in pool if x and x != v)
        vs = [v] + r.sample(pool, min(len(pool), r.randint(0, 2)))
        r.shuffle(vs)
        return vs

    def rand_full(self, hit=0.9):
        """A fully specified, multi-valued request over one schema rule"""
        r = self.rng
        vis = list(self.model.visible())
        base = full(r.choice(vis)) if vis and r.random() < hit else dict(self.ks.key())
        q = {}
        for n, v in base.items():
            if n in ("levtype", "class") or n == "stream" and v in ("oper", "enfo", "moda"):
                q[n] = [v]
            else:
                q[n] = self.widen(n, v)
        return q

    def check_all(self):
        """Complete sweep: everything the model holds, through list, retrieve, inspect"""
        for m in ("full", "dedup", "onlydup"):
            self.check_list({}, m)
        for lv in (1, 2):
            self.check_depth({}, lv)
        groups = collections.defaultdict(list)
        for p in self.model.visible():
            groups[(p[0], p[1], frozenset(n for n, _ in p[2]))].append(p)
        for (d, i, names), ps in sorted(groups.items(), key=repr):
            q = {n: [v] for n, v in list(d) + list(i)}
            for p in ps:
                for n, v in p[2]:
                    q.setdefault(n, [])
                    if v not in q[n]:
                        q[n].append(v)
            self.check_retrieve(q)

    def end(self):
        for h in list(self.handles):
            self.close(h)
        self.d.quit()
