"""Recorded file system calls (src/iofault.c) and the store images they can leave behind after a crash."""
import os, shutil, struct

HDR = struct.Struct("<IIQQiiqqIIII")


class Rec:
    __slots__ = ("op", "seq", "ns", "tid", "fd", "ret", "off", "path", "path2", "data", "flags", "pid")

    def __repr__(self):
        return f"<{self.seq} {self.op} {self.path} off={self.off} ret={self.ret}>"


def load(path, pid=0):
    out = []
    with open(path, "rb") as f:
        b = f.read()
    p = 0
    while p + HDR.size <= len(b):
        magic, op, seq, ns, tid, fd, ret, off, pl, p2, dl, fl = HDR.unpack_from(b, p)
        if magic != 0x56464C47:
            raise ValueError("bad log")
        p += HDR.size
        r = Rec()
        r.op, r.seq, r.ns, r.tid, r.fd, r.ret, r.off, r.flags, r.pid = chr(op), seq, ns, tid, fd, ret, off, fl, pid
        r.path = b[p:p + pl].decode("latin-1")
        p += pl
        r.path2 = b[p:p + p2].decode("latin-1")
        p += p2
        r.data = b[p:p + dl]
        p += dl
        out.append(r)
    return out


class Inode:
    __slots__ = ("data", "synced", "pending")

    def __init__(self):
        self.data, self.synced, self.pending = bytearray(), b"", []

    def write(self, off, d):
        if off > len(self.data):
            self.data.extend(b"\0" * (off - len(self.data)))
        self.data[off:off + len(d)] = d
        self.pending.append((off, bytes(d)))

    def sync(self):
        self.synced, self.pending = bytes(self.data), []

    def truncate(self, n):
        if n < len(self.data):
            del self.data[n:]
        else:
            self.data.extend(b"\0" * (n - len(self.data)))
        self.pending.append((n, None))


def is_toc(path):
    return os.path.basename(path).startswith("toc")


class Sim:
    """File system state below a directory as the recorded calls build it. Directory operations are taken to be durable."""

    def __init__(self):
        self.files, self.dirs = {}, set()

    def apply(self, r, limit=None):
        if r.op in "ca":
            if r.ret >= 0 and r.path not in self.files and r.op == "c":
                self.files[r.path] = Inode()
            elif r.ret >= 0 and r.op == "c" and r.flags & 0o1000:
                self.files[r.path].truncate(0)
        elif r.op == "m" and r.ret == 0:
            self.dirs.add(r.path)
        elif r.op == "w" and r.ret > 0:
            d = r.data if limit is None else r.data[:limit]
            self.files[r.path].write(r.off, d)
        elif r.op == "s" and r.ret == 0:
            if r.path in self.files:
                self.files[r.path].sync()
        elif r.op == "n" and r.ret == 0:
            if r.path in self.files:
                self.files[r.path2] = self.files.pop(r.path)
        elif r.op == "u" and r.ret == 0:
            self.files.pop(r.path, None)
        elif r.op == "R" and r.ret == 0:
            self.dirs.discard(r.path)
        elif r.op == "t" and r.ret == 0:
            self.files[r.path].truncate(r.off)

    def image(self, model, rng=None):
        """-> {path: bytes}"""
        out = {}
        for p, i in self.files.items():
            if model == "kill" or not i.pending:
                out[p] = bytes(i.data)
            elif model == "lost":
                out[p] = i.synced
            else:   # some of the unsynchronised writes reached the disk, possibly in part
                b = bytearray(i.synced)
                if is_toc(p):   # TOC records are appended whole and in order (torn records: see torn_toc in checks/c06.py)
                    for off, d in i.pending[:rng.randint(0, len(i.pending))]:
                        b[off:off + len(d)] = d
                    out[p] = bytes(b)
                    continue
                for off, d in i.pending:
                    if d is None:
                        continue
                    c = rng.random()
                    if c < .4:
                        continue
                    if c < .7 and len(d) > 512:
                        d = d[:rng.randrange(0, len(d), 512)]
                    if off > len(b):
                        b.extend(b"\0" * (off - len(b)))
                    b[off:off + len(d)] = d
                out[p] = bytes(b)
        return out

    def materialise(self, root, model, rng=None):
        for x in os.listdir(root):
            p = os.path.join(root, x)
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        for d in sorted(self.dirs):
            os.makedirs(d, exist_ok=True)
        for p, b in self.image(model, rng).items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b)
