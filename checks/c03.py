import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.profiles import *

c = Check("C03", "exploration", "random contents over two schemas (several rules, optional keys at every level, values that are prefixes of each other) x random partial "
          "requests, listed in all modes and depths; every element's identifiers, location, length and bytes compared with the model")
W = dict(archive=45, flush=12, close=5, restart=2, retrieve=0, inspect=0, list=40, depth=14, axes=0, compact=10, immut=0, stats=0)


def hist(i, wd, res):
    w = make_world(i, wd, res, c.seed, lens=[16, 40, 1000], ksargs={"ndb": [1, 3, 6][i % 3]})
    history(w, 90, W)


def text(i, wd, res):
    """Values with unusual characters, and values that differ in their last byte only"""
    rng = rng_for("c03text", c.seed, i)
    schema = "[ class, expver [ type [ name, sub? ]]]"
    rule = (("class", "expver"), ("type",), ("name", "sub"))
    w = World(rng, wd, res, config=local_config(wd, schema=schema), rule_of=lambda k: rule, tag="text")
    pools = dict(name=["a", "ab", "abc", "a.b", "a-b", "a_b", "0", "00", "z" * 20, "\xe9t\xe9", "\xff", "a b", "a+b", "(x)", "[y]", "a$", "^a", "~", "~~", "{q}", "a\\b", "#1", "a@b"],
                 sub=["1", "10", "100", "x.y", "\xe9"], type=["an", "a.n", "a+n", "ann"])
    pools["class"] = ["od", "o.", "od.", "odd", "o", "ood", "o+d"]
    pools["expver"] = ["1", "11", "111", "1.1", "x$"]

    class KS:
        dbs = [{"class": rng.choice(pools["class"]), "expver": rng.choice(pools["expver"])} for _ in range(8)]

        def key(self, db=None):
            k = dict(db or rng.choice(self.dbs))
            k["type"] = rng.choice(pools["type"])
            k["name"] = rng.choice(pools["name"])
            if rng.random() < .5:
                k["sub"] = rng.choice(pools["sub"])
            return k
    w.ks = KS()
    for n in ("name", "sub", "type"):
        setattr(w.ks, n, pools[n])
    w.max_handles = 1
    history(w, 90, dict(W, compact=0, retrieve=10), final=False)


ensure("plain")
c.run(hist, range(c.n(360, 14000)))
c.run(text, range(c.n(48, 1500)))
c.finish(1000)
