"""The command line tools of the plain build, run against a world's configuration."""
import subprocess
from .hist import *


def tool(w, name, *args, env=None, preload=None, timeout=120):
    """-> (return code, output)"""
    cfg = write(os.path.join(w.wd, "tool.yaml"), w.config)
    e = base_env("plain", os.path.join(w.wd, "home-tool"), {**w.env, "FDB5_CONFIG_FILE": cfg, **(env or {})})
    os.makedirs(os.path.join(w.wd, "home-tool"), exist_ok=True)
    if preload:
        e["LD_PRELOAD"] = preload
    w.trace.append({"tool": name, "args": args, "env": env})
    try:
        p = subprocess.run([os.path.join(BUILD, "plain", "bin", name), *map(str, args)], env=e, cwd=w.wd, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise Inconclusive(f"{name}: no end within {timeout}s: {(x.stdout or b'')[-500:]}")
    out = p.stdout.decode("utf-8", "replace")
    if p.returncode < 0:
        w.fail(f"crash:{name}", f"{name} {args}: signal {-p.returncode}: {out[-2000:]}")
    return p.returncode, out


def reqarg(d):
    return ",".join(f"{n}={'/'.join([v] if isinstance(v, str) else v)}" for n, v in d.items())


def snap(wd):
    """every file of the store: {path: contents}"""
    out = {}
    for top in sorted(os.listdir(wd)):
        if "-root" not in top and top != "outside":
            continue
        for d, ds, fs in os.walk(os.path.join(wd, top)):
            for f in ds:
                out[os.path.join(d, f)] = ("dir",)
            for f in fs:
                with open(os.path.join(d, f), "rb") as fh:
                    b = fh.read()
                out[os.path.join(d, f)] = ("file", len(b), hashlib.md5(b).hexdigest())
    return out


def tdiff(a, b):
    return {"gone": sorted(set(a) - set(b))[:5], "new": sorted(set(b) - set(a))[:5], "changed": sorted(p for p in set(a) & set(b) if a[p] != b[p])[:5]}
