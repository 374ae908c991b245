"""Catalogue and store servers on loopback ports, and worlds whose handles talk to them."""
import socket
from .profiles import *


def listening(port):
    for f in ("/proc/net/tcp", "/proc/net/tcp6"):
        try:
            for l in open(f).read().splitlines()[1:]:
                t = l.split()
                if t[3] == "0A" and int(t[1].rsplit(":", 1)[1], 16) == port:
                    return True
        except OSError:
            pass
    return False


class Cluster:
    """layout: split (catalogue + store), stores2, stores3, localcat (local catalogue, n remote stores); single: one connection
    instead of two; threaded: handler threads instead of forked handlers"""

    def __init__(self, wd, layout="split", single=False, threaded=True, variant="plain", env=None, schema=SCHEMA_A, roots=1, extra="", faulty=None, variants=None):
        self.wd, self.variant, self.layout = wd, variant, layout
        self.env = dict(env or {}, FDB_WIPE_SECRET="s3cret")
        self.faulty, self.variants = dict(faulty or {}), dict(variants or {})
        self.procs, self.hold, self.ports = {}, [], {}
        self.extra = f"serverThreaded: {'true' if threaded else 'false'}\n" + ("supportedConnections: [1]\n" if single else "") + extra
        self.schema = write(os.path.join(wd, "srv.schema"), schema)
        ns = int(layout[-1]) if layout[-1].isdigit() else 1
        self.stores = [f"store{i}" for i in range(ns)]
        names = self.stores + ([] if layout.startswith("localcat") else ["cat"])
        for nm in names:
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
            s.bind(("", 0))
            self.hold.append(s)         # kept, not listening: nobody else is given this port
            self.ports[nm] = s.getsockname()[1]
        eps = [f"localhost:{self.ports[s]}" for s in self.stores]

        def roots_text(name, k):
            t = "spaces:\n- handler: Default\n  roots:\n"
            for i in range(k):
                p = os.path.join(wd, f"{name}-root{i}")
                os.makedirs(p, exist_ok=True)
                t += f"  - path: {p}\n"
            return t
        self.cfg = {}
        for s in self.stores:
            self.cfg[s] = f"---\ntype: store\nserverPort: {self.ports[s]}\nschema: {self.schema}\n{self.extra}" + roots_text(s, roots)
        if "cat" in names:
            self.cfg["cat"] = (f"---\ntype: catalogue\nserverPort: {self.ports['cat']}\nschema: {self.schema}\n{self.extra}stores:\n" +
                               "".join(f"- default: \"{e}\"\n" for e in eps) + roots_text("cat", roots))
            self.client = f"---\ntype: remote\nengine: remote\nstore: remote\nhost: localhost\nport: {self.ports['cat']}\n" + \
                ("supportedConnections: [1]\n" if single else "")
        else:
            q = ", ".join(f'"{e}"' for e in eps)
            self.client = f"---\ntype: local\nengine: toc\nstore: remote\nschema: {self.schema}\nstores: [{q}]\nfieldLocationEndpoints: [{q}]\n" + \
                ("supportedConnections: [1]\n" if single else "") + roots_text("cat", roots)
        for nm in names:
            write(os.path.join(wd, nm + ".yaml"), self.cfg[nm])
        for nm in names:
            self.start(nm)
        for nm in names:
            self.wait(nm)

    def start(self, nm, env=None, preload=None):
        variant = self.variants.get(nm, self.variant)
        if nm in self.faulty:       # the first start only
            env, preload = dict(env or {}, **self.faulty.pop(nm)), os.path.join(BUILD, "plain", "lib", "libnetfault.so")
        e = base_env(variant, os.path.join(self.wd, "home-" + nm), dict(self.env, FDB5_CONFIG_FILE=os.path.join(self.wd, nm + ".yaml"), **(env or {})))
        os.makedirs(os.path.join(self.wd, "home-" + nm), exist_ok=True)
        if preload:
            e["LD_PRELOAD"] = preload
        out = open(os.path.join(self.wd, nm + ".out"), "ab")
        p = subprocess.Popen([os.path.join(BUILD, variant, "bin", "fdb-server")], stdin=subprocess.DEVNULL, stdout=out, stderr=out,
                             env=e, cwd=self.wd, start_new_session=True)
        out.close()
        self.procs[nm] = p

    def wait(self, nm, timeout=60):
        end = time.monotonic() + timeout
        while not listening(self.ports[nm]):
            if self.procs[nm].poll() is not None:
                raise Inconclusive(f"{nm} did not start: {self.out(nm)[-1500:]}")
            if time.monotonic() > end:
                raise Inconclusive(f"{nm} does not listen")
            time.sleep(.02)

    def out(self, nm):
        try:
            with open(os.path.join(self.wd, nm + ".out"), "rb") as f:
                return f.read().decode("utf-8", "replace")
        except OSError:
            return ""

    def dead(self):
        return [nm for nm, p in self.procs.items() if p.poll() is not None]

    def kill_one(self, nm, sig=signal.SIGKILL):
        p = self.procs[nm]
        if p.returncode is None:
            killgroup(p, sig)
        else:       # what it forked may live on
            for q in os.listdir("/proc"):
                try:
                    if q.isdigit() and os.getpgid(int(q)) == p.pid and os.readlink(f"/proc/{q}/cwd").startswith(self.wd):
                        os.kill(int(q), sig)
                except OSError:
                    pass
        if sig == signal.SIGKILL:
            p.wait(timeout=30)

    def kill(self):
        for nm in self.procs:
            try:
                self.kill_one(nm)
            except Exception:
                pass
        for s in self.hold:
            s.close()
        self.hold = []


LAYOUTS = [("split", False, True), ("split", True, True), ("split", False, False), ("stores2", False, True), ("localcat1", False, True),
           ("stores3", True, False), ("localcat2", True, True)]


def remote_world(c, wd, res, seed, layouts=LAYOUTS, schema=None, senv=None, env=None, cls=None, ksargs=None, variant="plain", svariant=None, **kw):
    rng = rng_for("rworld", seed, c)
    lay, single, thr = layouts[c % len(layouts)]
    b = schema == "b" or (schema is None and c % 3 == 2)
    cl = track(Cluster(wd, lay, single, thr, svariant or variant, env=senv, schema=SCHEMA_B if b else SCHEMA_A, roots=rng.choice([1, 1, 2])))
    ks = KeySpaceB(rng, **(ksargs or {})) if b else KeySpace(rng, **(ksargs or {}))
    tag = lay + ("/1" if single else "") + ("" if thr else "/fork") + ("/B" if b else "")
    e = dict(env or {})
    if lay.startswith("localcat"):
        e["FDB_WIPE_SECRET"] = "s3cret"
    w = (cls or World)(rng, wd, res, env=e, tag=tag, config=cl.client, ks=ks, rule_of=rule_b if b else rule_a, variant=variant, **kw)
    w.cl = cl
    return w
