"""fdbdrv's protocol for pyfdb: one JSON operation per line in, [t0, t1, answer] out"""
import sys, json, time, gc, os, array, pathlib, yaml
out = os.fdopen(os.dup(1), "w", encoding="latin-1")
os.dup2(2, 1)
import pyfdb
from pyfdb.pyfdb_type import ControlAction, ControlIdentifier

F, IT, KEEP = {}, {}, {}
CONT = {"list": list, "tuple": tuple, "set": set, "keys": lambda v: dict.fromkeys(v).keys()}
NAMES = {"LIST": "list", "RETRIEVE": "retrieve", "ARCHIVE": "archive", "WIPE": "wipe", "UNIQUEROOT": "uniqueroot"}


def sel(op):
    c = CONT[op.get("cont", "list")]
    return {k: (c(v) if isinstance(v, list) else v) for k, v in op["sel"].items()}


def elem(e, op):
    r = {"k": [sorted(map(list, x.items())) for x in e.keys()], "ck": e.combined_key()}
    if e.has_location():
        r.update(uri=e.uri.path(), off=e.offset(), len=e.length())
        if op.get("read"):
            dh = e.data_handle
            if op.get("drop"):
                del e
                gc.collect()
            r["hex"] = dh.readall(op.get("chunk", 1024)).hex()
    else:
        r["none"] = [e.offset(), e.length(), e.uri is None, e.data_handle is None]
    return r


def ctrl(e, op):
    ids = e.controlIdentifiers()
    return {"key": {k: list(v) for k, v in e.key().items()}, "loc": e.location().path(), "ids": [NAMES[i.name] for i in ids]}


def wiped(e, op):
    return {"type": e.type().name, "msg": e.msg(), "uris": [u.path() for u in e.uris()]}


CONV = {"list": elem, "inspect": elem, "status": ctrl, "control": ctrl, "wipe": wiped, "purge": lambda e, op: repr(e),
        "stats": lambda e, op: {"index": e.index_statistics(), "db": e.db_statistics()}}


def start(f, op):
    o, s = op["op"], sel(op)
    if o == "list":
        return f.list(s, op["masked"], op["level"]) if "masked" in op else f.list(s, level=op["level"])
    if o in ("inspect", "status", "stats"):
        return getattr(f, o)(s)
    if o == "control":
        return f.control(s, ControlAction.ENABLE if op["action"] == "enable" else ControlAction.DISABLE, [ControlIdentifier[i.upper()] for i in op["ids"]])
    if o == "wipe":
        return f.wipe(s, **op.get("how", {}))
    if o == "purge":
        return f.purge(s, **op.get("how", {}))


def one(op):
    o = op["op"]
    if o == "open":
        cfg = op["config"]
        if op.get("form") == "dict":
            cfg = yaml.safe_load(cfg)
        elif op.get("form") == "path":
            p = pathlib.Path(op["h"] + ".yaml")
            p.write_text(cfg)
            cfg = p
        F[op["h"]] = pyfdb.FDB(cfg, op["user"]) if "user" in op else pyfdb.FDB(cfg)
        return {}
    if o == "close":
        del F[op["h"]]
        gc.collect()
        return {}
    f = F[op["h"]]
    if o == "archive":
        data = bytes.fromhex(op["hex"])
        k = op.get("key")
        if k is None:
            f.archive(data)
        else:
            f.archive(data, [tuple(x) for x in k] if op.get("aslist") else dict(k))
        return {}
    if o == "flush":
        if op.get("with"):
            with f:
                pass
        else:
            f.flush()
        return {}
    if o == "dirty":
        return {"dirty": f.dirty()}
    if o == "enabled":
        return {NAMES[i.name]: f.enabled(i) for i in ControlIdentifier if i.name in NAMES}
    if o == "axes":
        a = f.axes(sel(op), op["level"]) if "level" in op else f.axes(sel(op))
        if op.get("drop"):
            F.clear()
            del f
            gc.collect()
        ax = {k: sorted(v) for k, v in a.items()}
        assert sorted(a.keys()) == sorted(ax) and len(a) == len(ax) and all(k in a and a.has_key(k) and sorted(a[k]) == ax[k] for k in ax), "views of the axes differ"
        assert "nosuchkey" not in a
        assert a == {k: list(v) for k, v in ax.items()}, "axes differ from themselves"
        return {"axes": ax}
    if o == "retrieve":
        dh = f.retrieve(sel(op))
        if op.get("drop"):
            F.clear()
            del f
            gc.collect()
        res, done = [], 0
        for c in op["reads"]:
            try:
                if c[0] == "read":
                    b = dh.read(c[1]) if len(c) > 1 else dh.read()
                    res.append(b.hex())
                elif c[0] == "readinto":
                    ba = bytearray(b"\xa5" * c[1])
                    n = dh.readinto(memoryview(ba))
                    res.append([n, ba.hex()])
                elif c[0] == "readhow":      # other objects with the buffer interface
                    n = c[2]
                    if c[1] == "bytes":          # not writable
                        x = bytes([0xA5]) * n
                        y = bytes(bytearray(x))
                        try:
                            dh.readinto(memoryview(x) if n % 2 else x)
                        finally:
                            res.append({"changed": x != y})
                    elif c[1] == "array":
                        a = array.array("i", [-1] * n)
                        k = dh.readinto(memoryview(a))
                        res.append([k, a.tobytes().hex()])
                    else:
                        ba = bytearray(b"\xa5" * (8 * n))
                        v = {"every": memoryview(ba)[2 * n:6 * n:2], "back": memoryview(ba)[6 * n:4 * n:-1], "cut": memoryview(ba)[3 * n:5 * n]}[c[1]]
                        k = dh.readinto(v)
                        got = bytes(v)
                        v[:] = b"\xa5" * len(v)
                        res.append([k, got.hex(), bytes(ba) == b"\xa5" * len(ba)])
                elif c[0] == "readall":
                    res.append((dh.readall(c[1]) if len(c) > 1 else dh.readall()).hex())
                elif c[0] == "size":
                    res.append(dh.size())
                elif c[0] == "open":
                    dh.open()
                    res.append(None)
                elif c[0] == "close":
                    dh.close()
                    res.append(None)
            except Exception as x:
                if len(res) == done:
                    res.append({})
                res[done].update({"err": type(x).__name__, "what": str(x)[:300]})
            done += 1
        return {"res": res}
    it = start(f, op)
    if op.get("drop"):                       # the iterator outlives its FDB
        if op["drop"] == "late":
            first = next(it, None)
        F.clear()
        del f
        gc.collect()
        kept = ([first] if op["drop"] == "late" and first is not None else []) + list(it)
        del it
        gc.collect()
        items = []
        while kept:
            items.append(CONV[o](kept.pop(0), op))
            gc.collect(0)
        return {"items": items}
    return {"items": [CONV[o](e, op) for e in it]}


for line in sys.stdin.buffer:
    op = json.loads(line.decode("latin-1"))
    if op["op"] == "quit":
        break
    t0 = time.monotonic_ns()
    try:
        r = one(op)
    except Exception as x:
        r = {"err": type(x).__name__, "what": str(x)[:1500]}
    out.write(json.dumps([t0, time.monotonic_ns(), r]) + "\n")
    out.flush()
F.clear()
