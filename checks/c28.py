import sys, os, hashlib, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *
from vf.tools import *

c = Check("C28", "monitored",
          "Two stores of GRIB messages (both editions) that are equal or differ by chosen edits (fields missing or in excess, a header key, packed values by more or less than a tolerance, single "
          "flipped bits of header or data, values of identifiers), at chosen positions among the fields, compared by fdb-compare in every scope and method, with keys ignored, selected, requests that "
          "restrict or map one experiment to another; the exit status must be zero exactly when the stores agree under the criteria, which the check computes from the messages' bytes, identifiers "
          "and values (eccodes). fdb-copy and fdb-read with requests and list arguments: target store and file hold exactly the requested messages, byte for byte (but for modified keys); "
          "requests that cannot be read, unknown stores and damaged data must give a non-zero status. distinct = (tool, scope, method, difference, edition, outcome)",
          ["Header-only comparison is judged with method grib-keys for differences in data (the documentation says the others compare the whole message).",
           "Tolerance applies to decoded values, in every method, as the option says."])

DBK = {"class": "rd", "stream": "oper", "date": "20200101", "time": "1200", "domain": "g"}
SCHEMA = """
param: Param;
step: Step;
date: Date;
levelist: Double;
expver: Expver;
time: Time;

[ class, expver, stream, date, time, domain
  [ type, levtype
    [ step, levelist, param ]]
]
"""
G = {"date": "dataDate", "time": "dataTime", "levelist": "level", "step": "step", "param": "paramId"}
NAMES = ("class", "expver", "stream", "date", "time", "type", "levtype", "levelist", "step", "param")


def setting(k):
    out = [["setLocalDefinition", 1]]
    for n in NAMES:
        if n in G:
            out.append([G[n], int(k[n])])
        elif n != "levtype":
            out.append([n, k[n]])
    return out


def make(w, k, ed, seed=None):
    return bytes.fromhex(w.ok({"op": "grib", "sample": f"regular_ll_pl_grib{ed}", "seed": w.rng.randrange(1 << 40) if seed is None else seed, "set": setting(k)})["hex"])


def edit(w, b, pairs, **kw):
    return bytes.fromhex(w.ok(dict({"op": "grib", "hex": b.hex(), "set": pairs}, **kw))["hex"])


def values(w, b):
    return w.ok({"op": "grib", "hex": b.hex(), "set": [], "values": True})["get"]["values"]


def sections(b):
    """[(number, begin, end)] of a message"""
    out = []
    if b[7] == 2:
        o = 16
        while b[o:o + 4] != b"7777":
            n = int.from_bytes(b[o:o + 4], "big")
            out.append((b[o + 4], o, o + n))
            o += n
    else:
        o, flags = 8, b[15]
        for num in [1] + ([2] if flags & 128 else []) + ([3] if flags & 64 else []) + [4]:
            n = int.from_bytes(b[o:o + 3], "big")
            out.append((num, o, o + n))
            o += n
    return out


def universe(r, n, expver="0001"):
    ks = [dict(DBK, expver=expver, type=t, levtype="pl", levelist=l, step=s, param=p) for t in ("an", "fc") for l in ("500", "850", "1000") for s in ("0", "6", "12") for p in ("130", "131", "133")]
    return r.sample(ks, n)


def store(w, cfg, msgs, how=0):
    """messages in a store; by several writers"""
    parts = [msgs] if how == 0 or len(msgs) < 2 else [msgs[:len(msgs) // 2], msgs[len(msgs) // 2:]]
    for i, p in enumerate(parts):
        f = os.path.join(w.wd, "in")
        with open(f, "wb") as fh:
            fh.write(b"".join(p))
        w.ok({"op": "open", "h": "m", "config": cfg})
        if p:
            w.ok({"op": "archive_file", "h": "m", "file": f})
        w.ok({"op": "close", "h": "m"})


def two(cs, wd, res, r, tag):
    w = World(r, wd, res, tag=tag, config=local_config(os.path.join(wd, "A"), 1, schema=SCHEMA))
    b = local_config(os.path.join(wd, "B"), 1, schema=SCHEMA)
    return w, w.config, b


def conf(w, name, cfg):
    return write(os.path.join(w.wd, name), cfg)


def tup(k):
    return tuple(sorted((n, k[n]) for n in NAMES))


TOL = 10 * 2.220446049250313e-16


def compare(cs, wd, res):
    r = rng_for("c28c", cs["seed"], cs["n"])
    os.makedirs(os.path.join(wd, "A")), os.makedirs(os.path.join(wd, "B"))
    w, ca, cb = two(cs, wd, res, r, "compare")
    ks = universe(r, r.choice([1, 2, 5, 9]))
    eds = {tup(k): r.choice([1, 2]) for k in ks}
    A = {tup(k): make(w, k, eds[tup(k)]) for k in ks}
    mapped = r.random() < .25          # the other store holds another experiment
    B = {}
    for k in ks:
        b = A[tup(k)]
        if mapped:
            b = edit(w, b, [["expver", "0002"]])
        B[tup(k)] = b
    diffs = {}
    kinds = r.choice([[], ["missing"], ["extra"], ["header"], ["values"], ["small"], ["flipdata"], ["swap"], ["fliphead"], ["header", "small"], ["values", "missing"], ["bits"]])
    if mapped:
        kinds = [x for x in kinds if x not in ("fliphead",)]
    order = [tup(k) for k in ks]
    extra = None
    for kind in kinds:
        t = r.choice(order)
        if kind == "missing":
            B.pop(t, None)
        elif kind == "extra":
            k = next(k for k in universe(r, 54) if tup(k) not in A)
            b = make(w, k, r.choice([1, 2]))
            B[tup(k)] = edit(w, b, [["expver", "0002"]]) if mapped else b
        elif t not in B:
            continue
        elif kind == "header":
            B[t] = edit(w, B[t], [["generatingProcessIdentifier", 77]])
        elif kind == "values":
            B[t] = edit(w, B[t], [], seed=r.randrange(1 << 40))
        elif kind == "bits":
            B[t] = edit(w, B[t], [["bitsPerValue", 24]])
        elif kind in ("flipdata", "small"):
            num, x, y = sections(B[t])[-1]
            p = r.randrange(x + (5 if B[t][7] == 2 else 11), y - 1)
            bit = 1 if kind == "small" else 1 << r.randrange(8)
            B[t] = B[t][:p] + bytes([B[t][p] ^ bit]) + B[t][p + 1:]
        elif kind == "fliphead":
            # the hours etc. of the local time stamps are not identifiers here; use bytes whose every value is valid
            num, x, y = sections(B[t])[0]
            p = x + 5 if B[t][7] == 1 else x + 13       # generating process (GRIB1) / second's part of reference time (GRIB2)
            p = x + 5 if B[t][7] == 1 else x + 18
            B[t] = B[t][:p] + bytes([B[t][p] ^ 1]) + B[t][p + 1:]
        elif kind == "swap" and len(B) > 1:
            # data of two fields exchanged: same total content, other places
            u = r.choice([x for x in B if x != t])
            a1, b1 = B[t], B[u]
            if eds.get(t) == eds.get(u) and t in A and u in A:
                sa, sb = sections(a1)[-1], sections(b1)[-1]
                if sa[2] - sa[1] == sb[2] - sb[1]:
                    B[t] = a1[:sa[1]] + b1[sb[1]:sb[2]] + a1[sa[2]:]
                    B[u] = b1[:sb[1]] + a1[sa[1]:sa[2]] + b1[sb[2]:]
    msgsA, msgsB = [A[t] for t in A], [B[t] for t in B]
    r.shuffle(msgsB)
    samestore = mapped and r.random() < .5
    for cfg, M in ((ca, A), (ca if samestore else cb, B)):
        if M and r.random() < .3:        # an outdated version underneath
            store(w, cfg, [edit(w, M[r.choice(list(M))], [["generatingProcessIdentifier", 33]], seed=r.randrange(1 << 40))])
            res.count("outdated")
    store(w, ca, msgsA, r.randrange(2))
    if not samestore and msgsB:
        store(w, cb, msgsB, r.randrange(2))
    elif samestore and msgsB:
        store(w, ca, msgsB, r.randrange(2))
    pa, pb = conf(w, "a.yaml", ca), conf(w, "b.yaml", cb)
    os.makedirs(os.path.join(wd, "B"), exist_ok=True)

    def headers_equal(a, b):
        """all but the bytes of data"""
        return a == b

    for q in range(r.choice([3, 5])):
        scope = r.choice(["mars", "header-only", "all", "all"])
        method = "grib-keys" if mapped else r.choice(["grib-keys", "hash-keys", "bit-identical"])
        args = [f"--config1={pa}"] + ([] if samestore else [f"--config2={pb}"])
        sel = lambda t: True
        rq = {}
        if r.random() < .3:
            n = r.choice(["type", "step", "levelist", "param"])
            v = r.choice(order)
            rq[n] = dict(v)[n]
        base = {"class": "rd"}
        if mapped:
            args += ["--request1=" + reqarg(dict(base, expver="0001", **rq)), "--request2=" + reqarg(dict(base, expver="0002", **rq))]
        elif rq or r.random() < .2:
            args += ["--request1=" + reqarg(dict(base, expver="0001", **rq))]
        ign = {}
        if r.random() < .3:
            for n in r.sample(["type", "step", "levelist", "param"], r.choice([1, 1, 2])):
                ign[n] = dict(r.choice(order))[n]
            args.append("--mars-keys-ignore=" + ",".join(f"{n}={v}" for n, v in ign.items()))

        def used(X):
            return {t: b for t, b in X.items() if all(dict(t)[n] == v for n, v in rq.items()) and not any(dict(t)[n] == v for n, v in ign.items())}
        tol = None
        if r.random() < .4:
            tol = r.choice([1e-9, .001, .5, 1e6])
            args.append(f"--fp-tolerance={tol}")
        gi = gs = None
        if method == "grib-keys" and r.random() < .3:
            if r.random() < .5:
                gi = ["generatingProcessIdentifier"]
                args.append("--grib-keys-ignore=" + ",".join(gi))
            else:
                gs = r.sample(["generatingProcessIdentifier", "Ni", "Nj", "values"] if scope == "all" else ["generatingProcessIdentifier", "Ni", "Nj"], r.choice([1, 2]))
                args.append("--grib-keys-select=" + ",".join(gs))
        args += [f"--scope={scope}", f"--grib-comparison-type={method}"]
        UA, UB = used(A), used(B)
        same = set(UA) == set(UB)
        why = "keys" if not same else ""
        judged = True
        if same and scope != "mars":
            for t in UA:
                a, b = UA[t], UB[t]
                b0 = b
                if mapped:
                    b0 = edit(w, b, [["expver", "0001"]])
                if a == b0:
                    continue
                sa, sb = sections(a), sections(b0)
                hdr = [x for x in sa if a[x[1]:x[2]] != b0[x[1]:x[2]]] if [x[1:] for x in sa] == [x[1:] for x in sb] else None
                if hdr is None:
                    judged = False      # other packing: which keys differ is eccodes' affair
                    break
                nums = {x[0] for x in hdr}
                ed = a[7]
                dsec = {4} if ed == 1 else {5, 7}
                last = {4} if ed == 1 else {7}
                vd = max((abs(x - y) for x, y in zip(values(w, a), values(w, b0))), default=0)
                limit = tol or TOL
                if nums - dsec:
                    # the generating process
                    if method == "grib-keys" and (gi or (gs and "generatingProcessIdentifier" not in gs)) and "header" in kinds and "fliphead" not in kinds:
                        pass
                    elif method == "grib-keys" and "fliphead" in kinds and (gi or gs):
                        judged = False
                        break
                    else:
                        same, why = False, "header"
                if nums & dsec:
                    if method == "grib-keys":
                        if scope == "header-only":
                            continue
                        if gs and "values" not in gs:
                            continue
                        if nums & {5} or ed == 1 and a[sa[-1][1] + 4:sa[-1][1] + 11] != b0[sa[-1][1] + 4:sa[-1][1] + 11]:
                            if gs:
                                judged = vd > limit
                                if judged:
                                    same, why = False, "values"
                                else:
                                    break
                            else:
                                same, why = False, "packing"     # reference value or scaling are keys
                        elif vd > limit:
                            same, why = False, "values"
                    else:
                        if scope == "header-only":
                            same, why = False, "bytes"
                        elif nums & dsec - last:
                            same, why = False, "packing"
                        elif ed == 1 and False:
                            pass
                        elif vd > limit:
                            same, why = False, "values"
        if not judged:
            res.count("unjudged")
            continue
        rc, out = tool(w, "fdb-compare", *args)
        w.trace.append({"expect": same, "why": why, "rc": rc, "kinds": kinds})
        if (rc == 0) != same:
            w.fail(("difference-overlooked:" if rc == 0 else "difference-invented:") + f"{scope}/{method}:{why or '+'.join(kinds) or 'equal'}",
                   f"fdb-compare {' '.join(args[1:])}: exit {rc}, but the stores {'agree' if same else 'differ in ' + why}; edits {kinds}; {len(UA)} and {len(UB)} fields: {out[-1500:]}")
        res.count("comparisons")
        res.count("equal" if same else "different")
        res.saw((scope, method, tuple(kinds), why, mapped, samestore, tol, bool(gi), bool(gs), bool(rq), bool(ign)))
    # what cannot be compared is no equality
    bad = r.choice([[f"--config1={pa}", "--config2=/nonexistent/x.yaml"], [f"--config1={pa}", "--scope=alles"], [f"--config1={pa}", "--grib-comparison-type=md5"], [f"--config1={pa}", "--request2=class=rd"],
                    [f"--config1={pa}", f"--config2={wd}"]])
    rc, out = tool(w, "fdb-compare", *bad)
    if rc == 0:
        w.fail("bad-arguments-accepted", f"{bad}: {out[-500:]}")
    # damaged data: a data file that has lost its end
    if cs["n"] % 4 == 0 and msgsB and not samestore:
        fs = [os.path.join(d, f) for d, _, x in os.walk(os.path.join(wd, "B")) for f in x if f.endswith(".data")]
        f = r.choice(fs)
        os.truncate(f, os.path.getsize(f) - r.choice([1, 5, 50, 200]))
        args = [f"--config1={pa}", f"--config2={pb}", "--scope=all", f"--grib-comparison-type={r.choice(['grib-keys', 'hash-keys', 'bit-identical'])}"]
        rc, out = tool(w, "fdb-compare", *args)
        if rc == 0:
            w.fail("truncated-data-equal", f"{args}: {out[-500:]}")
        res.count("truncated")
    w.end()


def content(w, cfg):
    w.ok({"op": "open", "h": "l", "config": cfg})
    li = w.ok({"op": "list", "h": "l", "mode2": "full", "all": True, "level": 3, "read": True, "md5": True})["items"]
    w.ok({"op": "close", "h": "l"})
    out = {}
    for i in li:
        k = {n: v for lvl in i["k"] for n, v in lvl if v != ""}
        out.setdefault(tup(k), []).append(i["md5"])
    return out


def md5(b):
    return hashlib.md5(b).hexdigest()


def copy(cs, wd, res):
    r = rng_for("c28p", cs["seed"], cs["n"])
    os.makedirs(os.path.join(wd, "A")), os.makedirs(os.path.join(wd, "B"))
    w, ca, cb = two(cs, wd, res, r, "copy")
    ks = universe(r, r.choice([4, 12, 30]))
    A = {}
    for rnd in range(r.choice([1, 2])):
        part = ks if rnd == 0 else r.sample(ks, max(1, len(ks) // 3))
        new = {tup(k): make(w, k, r.choice([1, 2])) for k in part}
        store(w, ca, list(new.values()), r.randrange(2))
        A.update(new)
    pa, pb = conf(w, "a.yaml", ca), conf(w, "b.yaml", cb)
    B = {}
    for q in range(3):
        # requests that ask for fields which are all there
        t = dict(r.choice(list(A)))
        dims = {n: sorted({dict(x)[n] for x in A}) for n in ("levelist", "step", "param")}
        rq = {n: [t[n]] for n in NAMES}
        for n in r.sample(list(dims), r.choice([0, 1, 2])):
            rq[n] = sorted({t[n]} | set(r.sample(dims[n], r.randint(1, len(dims[n])))))
        asked = [x for x in itertools.product(*[rq[n] for n in NAMES])]
        asked = [tup(dict(zip(NAMES, x))) for x in asked]
        there = [x for x in asked if x in A]
        text = reqarg(dict(rq, domain="g"))
        how = r.choice(["read", "copy", "copylist", "copylist", "copymod"])
        w.trace.append({"how": how, "rq": rq})
        if how != "copylist" and how != "copymod" and len(there) != len(asked):
            rq = {n: [t[n]] for n in NAMES}
            asked = there = [tup(t)]
            text = reqarg(dict(rq, domain="g"))
        f = os.path.join(wd, "req")
        with open(f, "w") as fh:
            fh.write("retrieve," + text + "\n")
        if how == "read":
            o = os.path.join(wd, "out")
            env = {"FDB5_CONFIG_FILE": pa}
            raw = ["--raw"] if r.random() < .3 else []
            rc, out = tool(w, "fdb-read", *raw, f, o, env=env)
            if rc:
                w.fail("read-failed", f"{text}: {out[-800:]}")
            b = open(o, "rb").read()
            left = sorted(A[x] for x in there)
            got = []
            p = 0
            while p < len(b):
                n = int.from_bytes(b[p + 8:p + 16], "big") if b[p + 7] == 2 else int.from_bytes(b[p + 4:p + 7], "big")
                if b[p:p + 4] != b"GRIB" or not n:
                    w.fail("read-no-message", f"{text}: at {p} of {len(b)}")
                got.append(b[p:p + n])
                p += n
            if sorted(got) != left:
                w.fail("read-other-messages", f"{text}: {len(got)} messages of {len(b)} bytes, expected {len(left)} of {sum(map(len, left))}")
            res.count("read")
        else:
            mods = {}
            args = [f"--source={pa}", f"--target={pb}"]
            if how == "copymod":
                mods = {"expver": r.choice(["0007", "xyzw"])}
                args.append("--modifiers=" + ",".join(f"{n}={v}" for n, v in mods.items()))
            if r.random() < .5:
                args.append("--sort")
            if how == "copy":
                args.append(f)
            else:
                args += ["--from-list", text]
            rc, out = tool(w, "fdb-copy", *args)
            if rc:
                w.fail("copy-failed", f"{args}: {out[-800:]}")
            for x in there:
                k = dict(x)
                b = A[x]
                if mods:
                    k.update(mods)
                    b = None
                B[tup(k)] = (b, A[x])
            got = content(w, cb)
            if set(got) != set(B):
                w.fail("copied-other-fields", f"{args}: lacking {str([dict(x) for x in set(B) - set(got)])}; too many {str([dict(x) for x in set(got) - set(B)])}")
            for x, v in got.items():
                b, src = B[x]
                if b is not None and v[0] != md5(b):
                    w.fail("copied-other-bytes", f"{args}: {dict(x)}")
            if mods:
                w.ok({"op": "open", "h": "l", "config": cb})
                for x in there:
                    k = tup(dict(dict(x), **mods))
                    fn = os.path.join(wd, "one")
                    w.ok({"op": "retrieve", "h": "l", "req": [[n, [v]] for n, v in k] + [["domain", ["g"]]], "mode": "file", "file": fn} if False else
                         {"op": "inspect", "h": "l", "req": [[n, [v]] for n, v in k] + [["domain", ["g"]]]})
                w.ok({"op": "close", "h": "l"})
            res.count("copied", len(there))
        res.saw((how, len(there) > 1, len(asked) == len(there), q))
    before = content(w, ca)
    if {x: v[0] for x, v in before.items()} != {x: md5(b) for x, b in A.items()}:
        w.fail("source-changed", "the source of the copy is not what it was")
    # what cannot happen must not be reported as done
    have = content(w, cb)
    nofile = os.path.join(wd, "nofile")
    junk = os.path.join(wd, "junk")
    with open(junk, "w") as fh:
        fh.write("retrieve,,class=\n=rd,,(")
    for name, args in (("read:no-request-file", ["fdb-read", nofile, os.path.join(wd, "o2")]), ("read:junk-request", ["fdb-read", junk, os.path.join(wd, "o3")]),
                       ("read:no-directory", ["fdb-read", f, os.path.join(wd, "nodir", "o4")]), ("read:one-argument", ["fdb-read", f]),
                       ("copy:no-request-file", ["fdb-copy", f"--source={pa}", f"--target={pb}", nofile]), ("copy:junk-request", ["fdb-copy", f"--source={pa}", f"--target={pb}", junk]),
                       ("copy:no-source", ["fdb-copy", f"--source={nofile}", f"--target={pb}", f]), ("copy:no-target", ["fdb-copy", f"--source={pa}", f]),
                       ("copy:modifier-not-there", ["fdb-copy", f"--source={pa}", f"--target={pb}", "--modifiers=number=1", f]),
                       ("write:no-file", ["fdb-write", nofile])):
        rc, out = tool(w, *args, env={"FDB5_CONFIG_FILE": pa})
        if rc == 0:
            w.res.violations.append({"sig": f"failure-not-signalled:{name}", "msg": f"{' '.join(map(str, args))}: exit status 0: {out[-400:]}", "detail": ""})
        res.saw(("refused", name))
        res.count("refused")
    if content(w, cb) != have:
        w.fail("refused-copy-changed-target", "")
    # a source whose data file lost its end
    fs = [os.path.join(d, x) for d, _, y in os.walk(os.path.join(wd, "A")) for x in y if x.endswith(".data")]
    fdata = r.choice(fs)
    typ = os.path.basename(fdata).split(":")[0]
    lastkey = None
    os.truncate(fdata, os.path.getsize(fdata) - r.choice([1, 4, 60]))
    live = content(w, cb)
    rc, out = tool(w, "fdb-copy", f"--source={pa}", f"--target={pb}", "--from-list", "class=rd,expver=0001")
    if rc == 0:
        # allowed only if the lost field is masked by a later version elsewhere
        got = content(w, cb)
        for x in A:
            if got.get(x, [""])[0] != md5(A[x]):
                w.fail("lost-data-copied", f"{dict(x)}: exit status 0")
    else:
        res.count("damaged_source")
    w.end()


ensure("plain", ("fdbdrv", "tools"))
S = c.seed
c.run(compare, [dict(n=n, seed=S) for n in range(c.n(72, 2000))])
c.run(copy, [dict(n=n, seed=S) for n in range(c.n(24, 800))])
c.finish(100)
