import sys, os, hashlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *
from vf.remote import *
from vf.reads import script, judge

c = Check("C21", "monitored",
          "Stores with fields of 16 to 200000 bytes in several files, overwritten ones among them; handles over them from retrieve (plain, "
          "optimised, seekable, de-duplicating), from listings and inspections (request and storage order), from one and many locations "
          "(repeated, adjacent, of several databases), local and remote. Random programs of read, skip, seek, rewind, position, size, close, "
          "re-open and copy run on each handle, with guard bytes behind the caller's buffer (and AddressSanitizer in some cases), and every result "
          "is compared with the byte sequence the archived fields give. distinct = (kind of handle, operation before, operation, where it lands)",
          ["A handle over remote fields may refuse to go back with an error.",
           "eckit's MultiHandle is part of the environment: for it, only what it documents."])

KINDS = ["retrieve", "retrieve", "optimise", "list", "listsorted", "inspect", "inspectsorted", "uris", "urissorted", "single"]


def plan(w, remote):
    """-> (kind, op making a handle, [(seed, len)] expected or None if in any order)"""
    r = w.rng
    kind = r.choice(KINDS)
    h = w.fresh()
    if kind in ("retrieve", "optimise", "inspect", "inspectsorted"):
        q = w.rand_full(1.0)
        items = w.ok({"op": "inspect", "h": h, "req": req(q), "read": True})["items"]
        w.expect("inspect", w.rows(items, "inspect"), w.expected_retrieve(q), f"inspect {q}")
        check_request_order(w, q, items)
        if kind in ("retrieve", "optimise"):
            op = {"op": "retrieve", "req": req(q) + ([["optimise", ["on"]]] if kind == "optimise" else [])}
        else:
            op = {"op": "readlist", "inspect": True, "sorted": kind == "inspectsorted", "req": req(q)}
    elif kind in ("list", "listsorted"):
        q = w.rand_request() if r.random() < .8 else {}
        mode = r.choice(["full", "dedup"])
        op = {"op": "readlist", "sorted": kind == "listsorted", "mode2": mode}
        op.update({"req": req(q)} if q else {"all": True})
        items = w.ok(dict({"op": "list", "h": h, "mode2": mode, "read": True, "level": 3}, **({"req": req(q)} if q else {"all": True})))["items"]
        w.expect("list", w.rows(items, "list"), w.model.list(q, mode), f"list {q}")
    else:
        items = w.ok({"op": "list", "h": h, "mode2": "full", "all": True, "read": True, "level": 3})["items"]
        w.expect("list", w.rows(items, "list"), w.model.list({}, "full"), "list")
        items = [r.choice(items) for _ in range(1 if kind == "single" else r.choice([1, 2, 5, 20]))]
        if kind != "single" and r.random() < .5:    # neighbours, in storage order
            items.sort(key=lambda i: (i["path"], i["off"]))
        if kind == "urissorted":    # the same location twice is an overlap
            items = list({(i["path"], i["off"]): i for i in items}.values())
        op = {"op": "readuris", "uris": [i["furi"] for i in items], "sorted": kind == "urissorted", "single": kind == "single"}
    w.done(h)
    seq = []
    for i in items:
        s, ln, okb = i["rec"][0]
        seq.append((int(s), ln, i["path"], i["off"]))
    return kind, op, seq, items


def in_storage_order(seq):
    files = {}
    for x in seq:
        files.setdefault(x[2], []).append(x)
    return [x for f in files.values() for x in sorted(f, key=lambda x: x[3])]


def check_request_order(w, q, items):
    """retrieval: values given first come first, the names in the order of the schema"""
    rank = []
    for i in items:
        d = full(elem_parts(i))
        rule = w.model.rule_of(d)
        if any(n not in d for lv in rule for n in lv):
            return
        rank.append([q[n].index(d[n]) for lv in rule for n in lv])
    if rank != sorted(rank):
        w.fail("request-order", f"inspect {q} gives {rank}")
    w.res.count("ordered", len(rank) > 1)


def build(w, op, keep):
    h = w.fresh()
    w.ok(dict(op, h=h, keep=keep))
    w.done(h)


def fill(w):
    r = w.rng
    w.lens = r.choice([[16, 17, 100], [16, 1000, 4096, 20000], [100, 65536, 70000, 200000], [16]])
    for k in range(r.randint(1, 4)):
        h = f"w{k}"
        w.open(h)
        for _ in range(r.choice([3, 10, 30])):
            w.archive(h)
            if r.random() < .2:
                w.flush(h)
        w.close(h)


def case(cs, wd, res):
    k, seed = cs["n"], cs["seed"]
    remote = k % 5 == 4
    seekable = k % 2
    env = {"FDB_SEEKABLE_DATA_HANDLE": str(int(seekable))}
    if k % 7 == 3 and not remote:
        env["FDB_DEDUPLICATE_FIELDS"] = "1"
    variant = "asan" if k % 4 == 1 else "plain"
    rng = rng_for("c21", seed, k)
    if remote:
        w = remote_world(k // 5, wd, res, seed, env=env, variant=variant)
    else:
        w = World(rng, wd, res, env=env, config=local_config(wd, rng.choice([1, 2])), variant=variant)
    w.tag = f"{'remote' if remote else 'local'}/{'seekable' if seekable else 'plain'}/{'dedup' if 'FDB_DEDUPLICATE_FIELDS' in env else ''}"
    fill(w)
    seq = []
    for j in range(cs["m"]):
        kind, op, seq, items = plan(w, remote)
        if not seq:
            continue
        what = kind + ("/seekable" if seekable and kind in ("retrieve", "optimise") else "")
        field = seekable and kind in ("retrieve", "optimise")
        dedup = "FDB_DEDUPLICATE_FIELDS" in env and kind not in ("uris", "urissorted", "single")
        srt = kind in ("optimise", "listsorted", "inspectsorted", "urissorted") and not field
        exp = [x[:2] for x in (in_storage_order(seq) if srt else seq)]
        # one full read gives the sequence of fields
        keep = f"k{j}"
        h = w.fresh()
        got = w.do(dict(op, h=h, chunk=w.rng.choice([1 << 20, 777, 70000])))
        if "err" in got:
            if dedup and "HyperCube::indexOf no value for" in got["what"] and len({frozenset(n for n in full(elem_parts(i))) for i in items}) > 1:
                w.fail("dedup-different-optional-keys", f"{short(op, 500)}: {got['what']}")
            w.fail(f"error:{what}", f"{short(op, 500)}: {got['what']}")
        w.done(h)
        rec = w.recs(got, what, what)
        ctx = f"{what} {short(op, 500)}"
        if dedup:    # one per identity, in the order of the hypercube
            want = {}
            if len(set(rec)) != len(rec) or not set(rec) <= set(exp):
                w.fail(f"dedup-set:{what}", f"{ctx}: {rec} expected of {exp}")
            if kind in ("retrieve", "optimise", "inspect", "inspectsorted") and len(rec) != len(exp):
                w.fail(f"dedup-set:{what}", f"{ctx}: {rec} expected {exp}")
        elif srt and remote:
            if sorted(rec) != sorted(exp):
                w.fail(f"set:{what}", f"{ctx}: {rec} expected {exp}")
        elif rec != exp:
            w.fail(f"order:{what}" if sorted(rec) == sorted(exp) else f"set:{what}", f"{ctx}: {rec} expected {exp}")
        data = b"".join(payload(*x) for x in rec)
        bounds = [0]
        for x in rec:
            bounds.append(bounds[-1] + x[1])
        for _ in range(3):
            build(w, op, keep)
            can = w.ok({"op": "dh", "keep": keep, "script": [["canseek"]]})["r"][0]
            sc = script(w, len(data), bounds, kind, can is True and not remote, w.rng.choice([3, 10, 30]))
            rs = w.ok({"op": "dh", "keep": keep, "script": sc})["r"]
            judge(w, what, ctx, sc, rs, data, not field, remote)
            w.ok({"op": "dhfree", "keep": keep})
            w.res.count("handles")
    # a data file lost its end: an error, not fewer bytes
    if not remote and seq and not dedup:
        p, off, ln = w.rng.choice([(x[2], x[3], x[1]) for x in seq])
        os.truncate(p, off + w.rng.choice([0, 1, ln // 2, ln - 1]))
        h = w.fresh()
        got = w.do(dict(op, h=h))
        if "err" not in got:
            w.fail(f"truncated-unnoticed:{what}", f"{ctx}: {p} was truncated at {os.path.getsize(p)}: {short(got)}, expected an error or {exp}")
        w.res.saw(("truncated", what, w.tag))
    w.end()
    if remote:
        w.cl.kill()
    res.sample({"world": w.tag, "ops": len(w.trace)})


ensure("plain", ("fdbdrv", "iofault", "fdb-server"))
ensure("asan", ("fdbdrv",))
c.run(case, [{"n": k, "seed": c.seed, "m": c.n(12, 40)} for k in range(c.n(60, 900))])
c.finish(20)
