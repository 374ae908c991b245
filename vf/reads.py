"""Random programs on data handles, and what they have to answer."""
import hashlib
from .hist import short


def script(w, size, bounds, kind, seekable, n):
    r = w.rng
    out = [["size"]] if r.random() < .5 else []
    where = lambda: min(size, max(0, r.choice([0, size, r.randrange(size + 1), r.choice(bounds), r.choice(bounds) + r.choice([-1, 1]), r.choice(bounds) - 16])))
    if r.random() < .2:
        out.append(["copy"])
    out.append(["open"])
    names = ["read"] * 6 + ["pos", "pos", "skip", "size", "est", "close"] + (["rewind", "seek", "seek", "seek"] if seekable else ["rewind", "seek"] * (r.random() < .3))
    for _ in range(n):
        k = r.choice(names)
        if k == "read":
            out.append(["read", r.choice([1, 2, 15, 16, 17, 100, 999, 4096, 5000, size, size + 1, max(1, size // 2), 1 << 20])])
        elif k == "skip":
            out.append(["skip", r.choice([0, 1, 16, 100, 1000, max(1, size // 3)])])
        elif k == "seek":
            out.append(["seek", where()])
        elif k == "close":
            out += [["close"]] + ([["copy"]] if r.random() < .3 else []) + [["open"]]
        else:
            out.append([k])
    return out + [["read", 1 << 22], ["read", 10], ["close"]]


def judge(w, kind, ctx, sc, rs, data, multi, remote):
    pos, isopen, prev, size = 0, False, "", len(data)
    for i, (s, a) in enumerate(zip(sc, rs)):
        o = s[0]
        bad = isinstance(a, dict)
        at = f"{ctx}, step {i} {s} after {sc[max(0, i - 6):i]} -> {short(a)}; expected position {pos} of {size}"
        if bad and remote and (o in ("seek", "rewind", "skip", "copy") or o == "open" and i > 0):
            w.res.count("refused")
            return
        if bad and o == "skip" and pos + s[1] > size:
            w.res.count("skip_beyond_refused")
            return
        if bad:
            w.fail(f"handle-error:{kind}:{o}", at)
        if o == "open":
            isopen, pos = True, 0
            if a != size:
                w.fail(f"announced-size:{kind}", at)
        elif o == "close":
            isopen = False
        elif o in ("size", "est"):
            if a != size and not (remote and o == "size"):
                w.fail(f"size:{kind}", at)
        elif o == "pos":
            if a != pos:
                w.fail(f"position:{kind}", at)
        elif o == "seek":
            pos = s[1]
            if a != pos:
                w.fail(f"seek-result:{kind}", at)
        elif o == "skip":
            pos = pos + s[1]
            if pos > size:
                w.res.count("skip_beyond")
                return
        elif o == "rewind":
            pos = 0
        elif o == "copy":
            if a[0] != size or a[1] != hashlib.md5(data).hexdigest():
                w.fail(f"copy:{kind}", at)
        elif o == "read":
            if len(a) > 2:
                w.fail(f"overrun:{kind}", at)
            k = a[0]
            if k < 0 or k > s[1] or (k == 0 and pos < size) or pos + k > size:
                w.fail(f"read-length:{kind}", at)
            if k and a[1] != hashlib.md5(data[pos:pos + k]).hexdigest():
                w.fail(f"read-bytes:{kind}", at)
            pos += k
            w.res.count("bytes", k)
        w.res.saw((kind, prev, o, 0 if pos == 0 else 2 if pos == size else 1, w.tag))
        w.res.count("steps")
        prev = o
