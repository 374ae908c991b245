import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *
from vf.profiles import history
from vf.remote import Cluster
from vf.model import SCHEMA_A

c = Check("C17", "monitored", "histories through selecting configurations (2 to 5 lanes, regular expressions, exclusions, nested selections, remote lanes) compared with a model "
          "that routes each field by the documented rule; the location of every listed field must lie in its lane. distinct = (query, shape of the configuration, size)")

SEL = dict(**{"class": ["od", "rd", "od|rd", "^od$", "o", ".*"]}, expver=["0001", "xxxx", "x+", "00.?.?", "(0001|0099)", "^0+1$", "9"],
           stream=["oper", "enfo", "moda", "oper|moda", "^(enfo|oper)$"], date=["20200101", "2020.*", "20191231", "^2019"], time=["0000", "1200"],
           type=["an", "fc", "an|fc"])


class Lane:
    def __init__(self, select, excludes, root=None, lanes=None, text=""):
        self.select, self.excludes, self.root, self.lanes, self.text = select, excludes, root, lanes, text

    def accepts(self, k):
        hit = lambda m: all(n in k and re.search(x, k[n]) for n, x in m.items())
        return hit(self.select) and not any(hit(e) for e in self.excludes)

    def route(self, k):
        """the root that a field goes to, None if nobody takes it"""
        if self.lanes is None:
            return self.root
        for l in self.lanes:
            if l.accepts(k):
                return l.route(k)
        return None


def expr(m):
    return ",".join(f"{n}={x}" for n, x in m.items())


def rand_sel(r, most=3):
    return {n: r.choice(SEL[n]) for n in r.sample(sorted(SEL), r.choice([1, 1, 2, most]))}


class Select(World):
    def __init__(self, i, wd, res, poison=False):
        r = rng_for("c17", c.seed, i, poison)
        self.clusters, self.roots, self.flat = [], [], []
        self.sp = write(os.path.join(wd, "sel.schema"), SCHEMA_A)
        self.nroot = 0
        self.remote = i % 20 == 7
        n = r.choice([2, 3, 4, 5])
        self.typesel = r.random() < .3
        top = self.lanes(r, wd, n, 0)
        if poison:
            top.insert(0, Lane({"class": "zz"}, [], text="  type: nosuch\n"))
            if r.random() < .5:     # contradicted by an exclusion
                e = r.choice(["od", "rd"])
                top.insert(0, Lane({"class": e}, [{"class": e}], text="  type: nosuch\n"))
            r.shuffle(top)
        self.top = Lane({}, [], lanes=top)
        head = "---\ntype: select\n" + (f"schema: {self.sp}\n" if r.random() < .6 or self.nohead else "")
        cfg = head + "fdbs:\n" + self.render(top, 0)
        env = {"FDB_SUB_TOCS": "1"} if i % 7 == 3 else {}
        super().__init__(r, wd, res, env=env, config=cfg, tag="select%d%s" % (n, "+" if any(l.lanes for l in top) else ""))
        self.accepting = lambda k: self.top.route(k)

    nohead = True

    def lanes(self, r, wd, n, depth):
        out = []
        for j in range(n):
            sel = {"class": ".*"} if j == n - 1 and r.random() < .3 else rand_sel(r)
            ex = [rand_sel(r) for _ in range(r.choice([0, 0, 1, 2]))]
            if not self.typesel:
                sel.pop("type", None)
                sel = sel or {"expver": ".*"}
                [e.pop("type", None) for e in ex]
                ex = [e for e in ex if e]
            if depth == 0 and r.random() < .2:
                out.append(Lane(sel, ex, lanes=self.lanes(r, wd, 2, 1)))
                continue
            if self.remote and not self.clusters:
                cd = os.path.join(wd, "cl")
                os.makedirs(cd)
                cl = track(Cluster(cd, "split", schema=SCHEMA_A))
                self.clusters.append(cl)
                out.append(Lane(sel, ex, root=os.path.join(cd, "store0-root0"), text="".join("  " + x + "\n" for x in cl.client.splitlines()[1:])))
                continue
            root = os.path.join(wd, f"lane{self.nroot}")
            self.nroot += 1
            os.makedirs(root)
            out.append(Lane(sel, ex, root=root, text=f"  type: local\n  engine: toc\n  spaces:\n  - handler: Default\n    roots:\n    - path: {root}\n"))
        return out

    def render(self, lanes, depth):
        pad = "  " * depth
        t = ""
        for l in lanes:
            body = f'  select: "{expr(l.select)}"\n' if l.select else ""
            if l.excludes:
                body += "  excludes:\n" + "".join(f'  - "{expr(e)}"\n' for e in l.excludes)
            if l.lanes:
                body += "  type: select\n  fdbs:\n"
                lines = body.splitlines()
                t += pad + "- " + lines[0].strip() + "\n" + "".join(pad + x + "\n" for x in lines[1:]) + self.render(l.lanes, depth + 1)
            else:
                lines = (body + l.text).splitlines()
                t += pad + "- " + lines[0].strip() + "\n" + "".join(pad + x + "\n" for x in lines[1:])
        return t

    def archive(self, h, k=None, ln=None, seed=None):
        k = k or self.ks.key()
        if self.accepting(k) is not None:
            return super().archive(h, k, ln, seed)
        r = self.do({"op": "archive", "h": h, "key": keylist(k, rng=self.rng), "seed": 77, "len": 16})
        if "err" not in r:
            self.fail("accepted-by-nobody", f"no lane of the configuration accepts {k}, archive succeeded")
        self.res.count("rejected")
        self.res.saw(("rejected", self.tag))

    def rows(self, items, what, need_data=True):
        for it in items:
            k = full(elem_parts(it))
            root = self.accepting(k)
            if root is None or not (os.path.dirname(os.path.dirname(it["path"])) == root):
                self.fail("wrong-lane", f"{what}: {k} is stored in {it['path']}, the configuration sends it to {root}")
            self.res.count("placements")
        return super().rows(items, what, need_data)

    def check_depth(self, request, level):
        if not self.typesel:
            super().check_depth(request, level)

    def end(self):
        # what is on disk is where the configuration sends it
        if not self.typesel:
            for db in self.model.created:
                root = self.accepting(dict(db))
                name = ":".join(dict(db).get(n, "") for n in ("class", "expver", "stream", "date", "time"))
                for j in range(self.nroot):
                    p = os.path.join(self.wd, f"lane{j}")
                    if p != root and os.path.isdir(os.path.join(p, name)):
                        self.fail("stray", f"{name} exists in {p}, the configuration sends it to {root}")
        super().end()


def remove(w):
    dbs = sorted(w.model.dbs, key=repr)
    if not dbs:
        return
    for h in list(w.handles):
        w.close(h)
    db = w.rng.choice(dbs)
    h = w.fresh()
    q = {n: [v] for n, v in db}
    if w.rng.random() < .5:
        w.ok({"op": "wipe", "h": h, "doit": False, "req": req(q)})
        w.done(h)
        return
    w.ok({"op": "wipe", "h": h, "doit": True, "req": req(q)})
    w.done(h)
    del w.model.dbs[db]
    w.model.created.discard(db)
    w.res.count("wipes")


def hist(i, wd, res):
    w = Select(i, wd, res)
    ext = {"remove": remove} if not w.remote else {}
    history(w, w.rng.choice([20, 40, 80]), {"compact": 0, "stats": 0, "immut": 0, **({"remove": 3} if ext else {})}, extra=ext)
    res.saw(("configuration", w.tag, w.typesel, w.remote))


def poison(i, wd, res):
    """lanes that cannot be opened, and whose selection contradicts every request"""
    w = Select(i, wd, res, poison=True)
    pool = [w.ks.key() for _ in range(20)]
    w.open("w0")
    for k in pool:
        w.archive("w0", k)
    w.close("w0")
    for _ in range(25):
        q = w.rand_request() or {"expver": ["0001"]}
        q["class"] = [w.rng.choice(["od", "rd"])]
        w.check_list(q, w.rng.choice(["full", "dedup"]))
        f = w.rand_full()
        w.check_retrieve(f)
        w.check_inspect(f)
        w.check_axes(q)
    w.end()
    res.count("with unusable lanes")
    res.sample({"config": w.config})


def callbacks(i, wd, res):
    """callbacks registered with the front-end are called once for each archive, and for each flush"""
    w = Select(i + 5000, wd, res)
    w.open("w0")
    w.ok({"op": "callbacks", "h": "w0", "archive": True, "flush": True})
    na = nf = 0
    for _ in range(w.rng.choice([3, 10, 20])):
        k = w.ks.key()
        if w.accepting(k) is None:
            continue
        w.archive("w0", k)
        na += 1
        if w.rng.random() < .3:
            w.flush("w0")
            nf += 1
    if na and w.handles["w0"]:
        w.flush("w0")
        nf += 1
    ev = w.ok({"op": "events", "h": "w0", "read": True})
    res.saw(("callbacks", min(na, 5), min(nf, 3)))
    return ev, na, nf, w


def cb(i, wd, res):
    ev, na, nf, w = callbacks(i, wd, res)
    es = ev["events"]
    a = [e for e in es if e["t"] == "a"]
    f = [e for e in es if e["t"] == "f"]
    if len(a) != na or (na and len(f) < 1) or len(f) != nf:
        w.fail("callbacks", f"{na} archives and {nf} flushes through a selecting configuration: {len(a)} archive and {len(f)} flush callbacks")
    for (j, l) in ev["locs"]:
        if not isinstance(l, dict) or "err" in l or not l.get("rec") or not l["rec"][0][2]:
            w.fail("callback-location", f"the location given for the field of event {j} reads {short(l)}")
    w.end()


def rand(i, wd, res):
    """a random configuration: one handle uses one of its FDBs for everything"""
    r = rng_for("c17r", c.seed, i)
    n = r.choice([2, 3, 4])
    sp = write(os.path.join(wd, "r.schema"), SCHEMA_A)
    body = [f"  type: local\n  engine: toc\n  schema: {sp}\n  spaces:\n  - handler: Default\n    roots:\n    - path: {wd}/lane{j}\n" for j in range(n)]
    for j in range(n):
        os.makedirs(f"{wd}/lane{j}")
    cfg = "---\ntype: random\nfdbs:\n" + "".join("- " + b.lstrip() for b in body)
    w = World(r, wd, res, config=cfg, tag="random")
    pool = [w.ks.key() for _ in range(6)]
    content = {}        # lane -> {parts: rec}
    for s in range(r.choice([4, 10])):
        h = f"x{s}"
        w.ok(w.open_op(h))
        mine = {}
        for _ in range(r.choice([1, 3, 8])):
            k = r.choice(pool)
            w.seed += 1
            w.ok({"op": "archive", "h": h, "key": keylist(k), "seed": w.seed, "len": 100})
            mine[parts(k, rule_a)] = (w.seed, 100)
        w.ok({"op": "flush", "h": h})
        it = w.ok({"op": "list", "h": h, "mode2": "dedup", "all": True, "level": 3, "read": True})["items"]
        lanes = {os.path.basename(os.path.dirname(os.path.dirname(x["path"]))) for x in it}
        if len(lanes) != 1:
            w.fail("random-lanes", f"one handle of a random configuration lists fields of {lanes}")
        lane = lanes.pop()
        content.setdefault(lane, {}).update(mine)
        w.expect("random-list", w.rows(it, "random-list"), list(content[lane].items()), f"handle {h} on {lane}")
        w.done(h)
        res.saw(("random", n, lane))
    for j in range(n):
        w.ok({"op": "open", "h": "direct", "config": "---\n" + "".join(x[2:] + "\n" for x in body[j].splitlines())})
        it = w.ok({"op": "list", "h": "direct", "mode2": "dedup", "all": True, "level": 3, "read": True})["items"]
        w.expect("random-direct", w.rows(it, "random-direct"), list(content.get(f"lane{j}", {}).items()), f"lane{j} itself")
        w.done("direct")
    w.end()


ensure("plain")
c.run(cb, range(c.n(40, 400)))
c.run(rand, range(c.n(40, 400)))
c.run(poison, range(c.n(60, 2000)))
c.run(hist, range(c.n(300, 10000)))
c.finish(200)
