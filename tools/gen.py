#!/usr/bin/env python3
"""Generates scripts (operation sequences) for the harness.

Two sources: histories printed by TLC from BanyanMC (from_hist), and seeded random walks
with a profile per property (walk)."""
import json, os, random

U64 = 2**64 - 1
BIG = 1 << 20


class Ctx:
    """values and keys are handed out here so that they are unique per episode"""

    def __init__(self, r, size=lambda r: 0, links=False, keyspan=8):
        self.r, self.size, self.links, self.keyspan = r, size, links, keyspan
        self.v = 0
        self.n = 0
        self.snaps = 0

    def el(self):
        self.v += 1
        e = {"k": self.r.randrange(self.keyspan), "v": self.v}
        s = self.size(self.r)
        if s:
            e["s"] = s
        if self.links and self.r.random() < 0.5:
            # ordinary links, or one of the other kinds
            e["l"] = [self.r.randrange(1, 20) if self.r.random() < 0.5 else self.r.randrange(64, 120) for _ in range(self.r.randrange(1, 4))]
        if self.links and self.r.random() < 0.3:
            e["kl"] = self.r.randrange(20, 40) if self.r.random() < 0.6 else self.r.randrange(64, 96)
        return e

    def els(self, k):
        self.n += k
        return [self.el() for _ in range(k)]


# ---------------------------------------------------------------- configurations
def cfg_small(r):
    return dict(lc=r.choice([1, 2, 2, 3, 4]), kb=r.choice([1, 2, 2, 3, 4]), sb=r.choice([2, 2, 3]), exact=True)


def cfg_deep(r):
    return dict(lc=1, kb=r.choice([1, 2]), sb=2, exact=True)


def cfg_mus(r):
    return dict(lc=r.choice([3, 5, 100]), kb=r.choice([2, 3]), sb=2, mus=r.choice([30, 50, 64]), exact=True)


def cfg_tls(r):
    return dict(lc=r.choice([6, 100]), kb=r.choice([2, 3]), sb=2, tls=r.choice([30, 60, 120]))


def cfg_wide(r):
    return dict(lc=r.choice([70, 130]), kb=r.choice([3, 70]), sb=r.choice([2, 3]), exact=True)


def cfg_bush(r):
    return dict(lc=1, kb=r.choice([66, 70]), sb=2, exact=True)


def cfg_fan(r):
    return dict(lc=1, kb=r.choice([1, 1, 2]), sb=r.choice([18, 20, 33, 40]), exact=True)


def cfg_mid(r):
    return dict(lc=r.choice([1, 2, 6]), kb=r.choice([5, 9]), sb=r.choice([4, 6]), exact=True)


def cfg_cached(r):
    c = cfg_small(r)
    c["cache"] = r.choice([0, 0, 1, 500, 2000, BIG])
    return c


SIZES = {
    "mus": lambda r: r.choice([0, 0, 3, 8, 8, 15, 20]),
    "tls": lambda r: r.choice([0, 5, 20, 40, 40, 90]),
}
CFGS = {"small": cfg_small, "deep": cfg_deep, "mus": cfg_mus, "tls": cfg_tls, "wide": cfg_wide, "bush": cfg_bush,
        "cached": cfg_cached, "fan": cfg_fan, "mid": cfg_mid}


# ---------------------------------------------------------------- queries
def query(r, n, depth=2, ks=8, plain=False):
    c = r.random()
    if depth > 0 and c < 0.35 and not plain:
        return {"q": r.choice(["and", "or"]), "a": query(r, n, depth - 1, ks), "b": query(r, n, depth - 1, ks)}
    if c < 0.42:
        return {"q": "all"}
    if c < 0.46:
        return {"q": "empty"}
    if c < 0.72:
        a = r.randrange(ks)
        rs = [[a, min(ks, a + r.choice([0, 0, 1, 3]))]]
        if r.random() < 0.2:
            rs.append([r.randrange(ks), ks])
        return {"q": "keys", "rs": rs}
    lo = r.randrange(n + 2)
    hi = lo + r.choice([0, 1, 1, 2, 3, 5, n])
    form = r.choice(["ex", "in", "from", "to", "toin", "full", "ex", "in"])
    if form == "toin" and hi == 0:
        form = "to"
    if r.random() < 0.08:
        hi = U64
        form = "ex"
    return {"q": "range", "form": form, "lo": lo, "hi": hi}


def read(r, kind, n, t):
    if kind == "get":
        return {"op": "get", "off": r.choice([r.randrange(n + 3), r.randrange(n + 3), n, n - 1 if n else 0, U64]), "t": t}
    if kind == "collect":
        return r.choice([{"op": "collect", "t": t}, {"op": "collect", "off": r.randrange(n + 3), "t": t}])
    if kind == "from":
        return {"op": "iter", "api": "from", "t": t}
    if kind == "iter":
        return {"op": "iter", "api": r.choice(["fwd", "rev", "stream"]), "q": query(r, n), "t": t}
    if kind == "chunk":
        return {"op": "chunk", "api": r.choice(["fwd", "rev", "stream", "stream_rev"]), "q": query(r, n), "t": t, "xload": r.random() < 0.15}
    if kind == "index":
        return {"op": "index", "api": r.choice(["fwd", "rev"]), "q": r.choice([{"q": "all"}, query(r, n)]), "t": t}
    return {"op": kind, "t": t}


# ---------------------------------------------------------------- random walks
MUT0 = dict(extend=6, extend_unpacked=4, push=1, pack=2)
MUTR = dict(MUT0, retain=2)
PROFILES = {
    # muts: weights; reads: kinds after each step; nr: reads per step; extra: probabilities
    "C01": dict(muts=dict(MUT0, reload=1, txn=1), reads=["get", "get", "collect", "from", "count"], nr=2,
                cfgs=["small", "small", "deep", "mus", "tls", "wide", "bush", "fan"]),
    "C02": dict(muts=dict(extend=4, extend_unpacked=6, pack=4, push=1, reload=1, retain=0.5), reads=["is_packed", "collect"], nr=1,
                cfgs=["small", "small", "deep", "mus", "tls", "bush", "fan"]),
    "C03": dict(muts=MUTR, reads=["iter", "iter", "chunk"], nr=6, cfgs=["small", "small", "deep", "mus", "wide", "bush", "fan"]),
    "C04": dict(muts=MUTR, reads=["chunk"], nr=6, cfgs=["small", "small", "deep", "mus", "wide", "fan"]),
    "C05": dict(muts=dict(MUTR, reload=1, txn=2, snap=5, load_tree=1), reads=["collect", "iter", "chunk", "count", "get", "index"], nr=2, old=0.9,
                pf=0.15, cfgs=["small", "mus", "cached"]),
    "C06": dict(muts=dict(MUTR, reload=6, load_tree=2, snap=1), reads=["collect", "iter", "chunk", "get"], nr=1, cfgs=["small", "deep", "mus", "tls"]),
    "C07": dict(muts=dict(MUTR, reload=2, txn=3, rlrepair=0.7), reads=[], nr=0, pf=0.25, gf=0.1, pn=0.1, cfgs=["small", "deep", "mus", "tls"]),
    "C08": dict(muts=dict(MUTR, txn=4, toobig=0.6, rlrepair=0.3), reads=["collect", "iter"], nr=1, pf=0.3, gf=0.25, pn=0.1, cfgs=["small", "deep", "mus", "tls"]),
    "C09": dict(muts=dict(extend=6, extend_unpacked=3, retain=5, pack=0.7, reload=1, push=1), reads=["collect", "iter", "chunk", "get"], nr=2,
                cfgs=["small", "small", "deep", "mus", "tls", "fan"], pf=0.05),
    "C10": dict(muts=dict(extend=5, extend_unpacked=4, pack=1, retain=0.5, rlrepair=4), reads=["collect", "iter", "chunk", "get", "from"], nr=2,
                cfgs=["small", "small", "deep", "mus", "tls", "fan"]),
    "C11": dict(muts=dict(MUTR, reload=1, rlrepair=0.5, txn=1), reads=["check", "is_packed"], nr=1, cfgs=["small", "small", "deep", "mus", "tls", "bush", "fan"]),
    "C13": dict(muts=dict(MUTR, lose=5, reload=0.5), reads=["get", "collect", "from", "iter", "chunk", "index", "roots", "left_roots", "is_packed", "check", "graph", "iter", "chunk"],
                nr=5, gf=0.35, cfgs=["small", "small", "deep", "mus", "fan"], nocache=True),
    "C14": dict(muts=dict(MUTR, reload=1, rlrepair=0.5), reads=[], nr=0, links=True, cfgs=["small", "mus", "tls", "wide"]),
    "C15": dict(muts=dict(MUTR, reload=1, rlrepair=0.5, wrongkey=3), reads=[], nr=0, cfgs=["small", "mus", "tls"]),
    "C17": dict(muts=MUTR, reads=["index"], nr=6, cfgs=["small", "small", "deep", "mus", "bush", "fan"]),
    "C18": dict(muts=dict(extend=6, extend_unpacked=3, push=2, pack=2, reload=1, toobig=0.7), reads=[], nr=0,
                cfgs=["small", "mus", "mus", "tls", "tls", "wide", "deep", "bush"]),
    "C21": dict(muts=MUTR, reads=["roots", "left_roots"], nr=2, cfgs=["small", "small", "deep", "mus", "bush", "fan"]),
    "C23": dict(muts=MUTR, reads=["iter", "chunk", "get"], nr=6, cfgs=["small", "small", "deep", "mus", "fan"], nocache=True),
    "C24": dict(muts=dict(MUTR, reload=1, txn=1), reads=[], nr=0, cfgs=["small", "small", "deep", "mus", "mid", "fan"]),
    "C25": dict(muts=dict(extend=4, extend_unpacked=3, pack=1, snap=4, retain=0.7, threads=4), reads=[], nr=0, cfgs=["cached"]),
    "C26": dict(muts=dict(MUTR, reload=1), reads=[], nr=0, links=True, cfgs=["small", "mus", "tls", "wide"]),
    "C27": dict(muts=dict(MUTR, rlrepair=0.3), reads=["graph"], nr=1, cfgs=["small", "small", "deep", "mus", "bush"]),
}
PROFILES["C33"] = dict(muts=dict(MUTR, reload=1.5, txn=0.7, snap=1, load_tree=0.5, cache_reset=0.3), reads=["collect", "iter", "chunk", "get", "index", "from"], nr=1,
                       cfgs=["small", "small", "deep", "mus", "tls"])
PROFILES["C16"] = dict(muts=dict(MUTR, reload=1, txn=2, snap=2, cache_reset=1, drop=0.3),
                       reads=["collect", "iter", "chunk", "get", "index", "roots", "check"], nr=2, old=0.5, cfgs=["small", "small", "deep", "mus"])


def bsize(r, cfg):
    if cfg["lc"] >= 70:
        return r.choice([1, 3, 63, 64, 65, 70, 140])
    if cfg["kb"] >= 66:
        return r.choice([1, 2, 64, 65, 70, 75])
    if cfg["sb"] >= 18:
        return r.choice([1, 2, 5, 17, 20, 25, 40])
    u = cfg["lc"] if cfg["lc"] < 10 else 3
    return r.choice([1, 1, 2, 3, u, u + 1, 2 * u, 3 * u + 1, r.randrange(1, 10)])


def walk(r, id, prop, steps, maxn=None):
    P = PROFILES[prop]
    cname = r.choice(P["cfgs"])
    cfg = CFGS[cname](r)
    if r.random() < 0.3:
        cfg["zl"] = r.choice([0, 2, 3, 5, 9, 15])
    if P.get("nocache"):
        cfg["cache"] = 0
    elif "cache" not in cfg and r.random() < 0.3:
        cfg["cache"] = r.choice([0, 300, 2000])
    if r.random() < (0.7 if prop == "C15" else 0.1):
        cfg["ik"], cfg["vk"] = r.randrange(10, 250), r.randrange(10, 250)
    if cname == "fan":
        steps, maxn = min(steps, 6), 130
    if cname in ("wide", "bush"):
        steps = min(steps, 4)
        maxn = 290
    maxn = maxn or (40 if cname == "deep" else 34)
    x = Ctx(r, SIZES.get(cname, lambda r: 0), P.get("links", False), keyspan=8)
    ops = []
    lost = False

    def reads(k):
        return [read(r, r.choice(P["reads"]), x.n, (r.randrange(1, 30) if x.snaps and r.random() < P.get("old", 0.15) else 0))
                for _ in range(k)] if P["reads"] else []

    def mut(depth):
        w = dict(P["muts"])
        if depth > 0:
            for k in ("txn", "reload", "lose", "rlrepair", "threads", "snap", "load_tree", "wrongkey", "drop"):
                w.pop(k, None)
        if x.n >= maxn:
            for k in ("extend", "extend_unpacked", "push", "txn"):
                w.pop(k, None)
            w["pack"] = 1
        k = r.choices(list(w), list(w.values()))[0]
        o = []
        armed = False
        if k in ("extend", "extend_unpacked", "push", "pack", "retain", "reload") and not lost:
            if r.random() < P.get("pf", 0) and k != "reload":
                o.append({"op": "fail_put", "n": r.choice([1, 1, 2, 3, 4, 6]), "c": r.choice([1, 1, 1, 100])})
                armed = True
            elif r.random() < P.get("gf", 0):
                o.append({"op": "fail_get", "n": r.choice([1, 1, 2, 3]), "c": r.choice([1, 100])})
                if r.random() < 0.7:
                    o.insert(0, {"op": "drop_cache", "cache": 0})
                armed = True
        if k in ("extend", "extend_unpacked", "push"):
            b = bsize(r, cfg)
            if k == "push":
                b = min(b, 4)
            o.append({"op": k, "els": x.els(b)})
            if k != "push" and r.random() < P.get("pn", 0) and not armed:
                o[-1]["panic"] = r.randrange(b + 1)
                x.n -= b
            if k != "push" and r.random() < 0.1:
                # items which are made of what is read from the stream itself
                o[-1]["lazy"] = True
        elif k == "pack":
            o.append({"op": "pack"})
            if r.random() < 0.3:
                o.append({"op": "pack"})
        elif k == "retain":
            q = r.choice([{"q": "range", "form": "from", "lo": r.randrange(x.n + 1), "hi": 0}, query(r, x.n), query(r, x.n)])
            if q["q"] == "range" and q["form"] == "from":
                q["hi"] = q["lo"]
            o.append({"op": "retain", "q": q})
        elif k == "reload":
            o.append({"op": "reload"})
            if r.random() < 0.3:
                o.insert(len(o) - 1, {"op": "drop_cache", "cache": r.choice([0, BIG])})
        elif k == "toobig":
            es = x.els(bsize(r, cfg))
            es[r.randrange(len(es))]["s"] = 200
            cfg.setdefault("mus", 150)
            x.n -= len(es)
            o.append({"op": r.choice(["extend", "extend_unpacked", "push"]), "els": es})
        elif k == "snap":
            o.append({"op": "snap"})
            x.snaps += 1
        elif k == "load_tree":
            o.append({"op": "load_tree", "t": r.randrange(5)})
            x.snaps += 1
        elif k == "txn":
            sub = []
            for _ in range(r.randrange(1, 4)):
                sub += mut(depth + 1)
                sub += reads(1) if r.random() < 0.3 else []
            o.append({"op": "txn", "ops": sub, "commit": r.random() < 0.5})
            if not o[-1]["commit"] and r.random() < 0.3:
                o[-1]["unwind"] = True
        elif k == "rlrepair":
            o.append({"op": "lose", "pick": [r.randrange(30) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))],
                      "of": r.choice(["all", "nonroot", "nonroot", "leaf", "branch", "sealed"])})
            if r.random() < 0.3:
                o[-1]["garble"] = r.randrange(13)
            # with a cold cache, or with everything in the cache
            warm = r.random() < 0.4
            o.insert(0, {"op": "drop_cache", "cache": BIG if warm else 0})
            if warm:
                o.insert(1, {"op": "collect", "t": 0})
            if r.random() < 0.3 and P.get("pf"):
                o.append({"op": "fail_put", "n": r.choice([1, 2]), "c": 1})
                armed = True
            o.append({"op": "repair"})
            if r.random() < 0.3:
                o += [{"op": "disarm"}, {"op": "repair"}]
            if warm:
                o.append({"op": "drop_cache", "cache": 0})
            o += reads(P["nr"])
            if prop != "C10" or r.random() < 0.5:
                o.append({"op": "heal"})
        elif k == "lose":
            o.append({"op": "lose", "pick": [r.randrange(30) for _ in range(r.choice([1, 1, 2]))],
                      "of": r.choice(["all", "nonroot", "leaf", "branch"])})
            if r.random() < 0.4:
                o[-1]["garble"] = r.randrange(13)
            o += reads(P["nr"])
            if r.random() < 0.3:
                o.append({"op": r.choice(["extend", "extend_unpacked"]), "els": x.els(r.choice([1, 2, 4]))})
            if r.random() < 0.3:
                o.append({"op": "pack"})
            o.append({"op": "heal"})
            o += reads(1)
        elif k == "wrongkey":
            o.append({"op": "wrongkey", "which": r.choice(["index", "value"]), "warm": r.random() < 0.4})
            if r.random() < 0.6:
                o[-1]["bit"] = r.randrange(256)
            if o[-1]["warm"] and r.random() < 0.8:
                o.insert(0, {"op": "drop_cache", "cache": BIG})
        elif k == "cache_reset":
            o.append({"op": "cache_reset", "n": r.choice([1, 100, 1000, BIG])})
        elif k == "drop":
            o.append({"op": "drop_cache", "cache": r.choice([0, 1, 1000, BIG])})
        elif k == "threads":
            sub = []
            for _ in range(r.randrange(1, 4)):
                sub.append({"op": r.choice(["extend", "extend_unpacked"]), "els": x.els(r.randrange(1, 5))})
                if r.random() < 0.4:
                    sub.append(r.choice([{"op": "pack"}, {"op": "cache_reset", "n": 100},
                                         {"op": "retain", "q": {"q": "range", "form": "from", "lo": x.n // 2, "hi": x.n // 2}}]))
            o.append({"op": "threads", "n": r.choice([2, 4, 8]), "rounds": r.choice([2, 4]), "q": query(r, x.n), "ops": sub})
        if armed:
            o.append({"op": "disarm"})
        return o

    def bounds(q):
        # excluded lower bounds, where only the elements matter
        if q["q"] == "range" and q["form"] == "ex" and q["lo"] > 0 and r.random() < 0.3:
            q["form"] = "bounds"
        for k in ("a", "b"):
            if k in q:
                bounds(q[k])
        return q

    for _ in range(steps):
        ops += mut(0)
        if P.get("gf") and P["reads"] and r.random() < P["gf"] and not lost:
            ops += [{"op": "fail_get", "n": r.choice([1, 2, 3, 4]), "c": r.choice([1, 100])}] + reads(1) + [{"op": "disarm"}]
        rs = reads(P["nr"])
        if prop == "C03":
            for o in rs:
                if "q" in o:
                    bounds(o["q"])
        ops += rs
    return {"id": id, "cfg": cfg, "ops": ops}


def faultsweep(r, id, kind, op, n, c=1):
    """the n-th access of one operation on a fixed tree fails"""
    cfg = dict(lc=2, kb=2, sb=2, exact=True, cache=0)
    x = Ctx(r)
    ops = [{"op": "extend", "els": x.els(5)}, {"op": "extend_unpacked", "els": x.els(3)}, {"op": "extend_unpacked", "els": x.els(6)}]
    if op in ("extend", "retain", "retain2"):
        ops.append({"op": "pack"})
    ops += [{"op": "snap"}, {"op": kind, "n": n, "c": c}]
    ops.append({"extend": {"op": "extend", "els": x.els(7)}, "extend_unpacked": {"op": "extend_unpacked", "els": x.els(5)},
                "pack": {"op": "pack"}, "retain": {"op": "retain", "q": {"q": "range", "form": "from", "lo": 5, "hi": 5}},
                "retain2": {"op": "retain", "q": {"q": "keys", "rs": [[3, 3]]}},
                "repair": {"op": "repair"}}[op] if op in ("extend", "extend_unpacked", "pack", "retain", "retain2", "repair") else dict(op))
    ops += [{"op": "disarm"}, {"op": "collect"}, {"op": "iter", "api": "fwd", "q": {"q": "all"}}, {"op": "extend", "els": x.els(3)}, {"op": "pack"}, {"op": "collect"}]
    return {"id": id, "cfg": cfg, "ops": ops}


# ---------------------------------------------------------------- histories from the model
def from_hist(r, id, hist, consts, prop):
    """a history printed by BanyanMC as a script"""
    P = PROFILES[prop]
    # sizes as in the model: 1 + v % SZM. the encoded length of a value is 4 + ..., so mus is not used here
    cfg = dict(lc=consts["LC"], kb=consts["KB"], sb=consts["SB"], exact=True)
    if P.get("nocache"):
        cfg["cache"] = 0
    ops, v, n = [], 0, 0
    stack = [ops]
    snaps = 0

    def reads(k):
        return [read(r, r.choice(P["reads"]), n, (1 if snaps and r.random() < 0.3 else 0)) for _ in range(k)] if P["reads"] else []

    lost = False
    for h in hist:
        o = stack[-1]
        puts = h.get("puts", -1)
        if puts >= 0:
            o.append({"op": "fail_put", "n": puts + 1, "c": 1})
        if h["op"] in ("extend", "extend_unpacked"):
            els = []
            for _ in range(h["k"]):
                v += 1
                els.append({"k": (v * 5) % 7, "v": v})
            if puts < 0:
                n += h["k"]
            o.append({"op": h["op"], "els": els})
        elif h["op"] == "pack":
            o.append({"op": "pack"})
        elif h["op"] == "retain":
            o.append({"op": "retain", "q": h["q"]})
        elif h["op"] == "lose":
            o += [{"op": "drop_cache", "cache": 0}, {"op": "lose", "pick": [h["n"] - 1]}]
            lost = True
        elif h["op"] == "repair":
            o.append({"op": "repair"})
            lost = False
        elif h["op"] == "snap":
            o.append({"op": "snap"})
            snaps += 1
        elif h["op"] == "reload":
            o.append({"op": "reload"})
        elif h["op"] == "begin":
            stack.append([])
            continue
        elif h["op"] == "end":
            sub = stack.pop()
            stack[-1].append({"op": "txn", "ops": sub, "commit": h["commit"]})
            o = stack[-1]
        if puts >= 0:
            o.append({"op": "disarm"})
        o += reads(P["nr"])
    while len(stack) > 1:
        sub = stack.pop()
        stack[-1].append({"op": "txn", "ops": sub, "commit": r.random() < 0.5})
    if lost:
        ops.append({"op": "heal"})
    ops += reads(max(2, P["nr"]) if P["reads"] else 0)
    return {"id": id, "cfg": cfg, "ops": ops}


# ---------------------------------------------------------------- several streams
def other_new(r, cfg, j, same=None):
    """another stream: with the secrets of the main one, with one of them, or with its own"""
    ik, vk = cfg.get("ik", 1), cfg.get("vk", 2)
    c = same if same is not None else r.choice(["both", "index", "value", "own", "own"])
    a = ik if c in ("both", "index") else r.randrange(10, 250)
    b = vk if c in ("both", "value") else r.randrange(10, 250)
    oc = dict(cfg) if r.random() < 0.8 else CFGS["small"](r)
    return {"op": "other", "s": j, "do": "new", "ik": a, "vk": b, "cfg": oc, "q": {"q": "all"}}


def multi_ep(r, id):
    """a walk on the main stream, with steps of other streams in between"""
    base = walk(r, id, "C33", r.randrange(4, 9))
    cfg = base["cfg"]
    cfg["cache"] = r.choice([BIG, BIG, BIG, 2000, 500, 0])
    if r.random() < 0.3:
        cfg.update(memcache=r.choice([300, 5000, 100000]), mcblk=r.choice([200, 1000, 100000]))
    x = Ctx(r, SIZES["mus"] if "mus" in cfg else (lambda r: 0))
    x.v = 10000
    k = r.choice([1, 2, 3])
    ops = [other_new(r, cfg, j + 1) for j in range(k)]
    twin = r.random() < 0.5     # the first one gets what the main one gets, or values of the same shape
    sames = r.random() < 0.6
    x.n = 0

    def q():
        return query(r, 12)

    def echo(o, out):
        if o["op"] in ("extend", "extend_unpacked", "push"):
            els = json.loads(json.dumps(o["els"])) if sames else [dict(e, v=e["v"] + 5000) for e in o["els"]]
            out.append({"op": "other", "s": 1, "do": "extend" if o["op"] == "push" else o["op"], "els": els, "q": q()})
        elif o["op"] in ("pack", "reload"):
            out.append({"op": "other", "s": 1, "do": o["op"], "q": q()})

    for o in base["ops"]:
        mine = []
        if twin and o["op"] in ("extend", "extend_unpacked", "push", "pack", "reload"):
            echo(o, mine)
        if r.random() < 0.35:
            j = r.randrange(1, k + 1)
            what = r.choice(["extend", "extend", "extend_unpacked", "pack", "reload", "read", "read", "fork"])
            if twin and j == 1:
                what = "read"
            m = {"op": "other", "s": j, "do": what, "q": q()}
            if what in ("extend", "extend_unpacked"):
                m["els"] = x.els(r.choice([1, 2, 3, 5]))
            mine.append(m)
        if r.random() < 0.5:
            ops += mine + [o]
        else:
            ops += [o] + mine
    for j in range(k):
        ops.append({"op": "other", "s": j + 1, "do": "read", "q": q()})
    ops += [{"op": "collect", "t": 0}, {"op": "iter", "api": "rev", "q": q(), "t": 0}]
    return {"id": id, "cfg": cfg, "ops": ops}


def from_multi_hist(r, id, h, consts):
    """a history printed by MultiMC as a script"""
    sec, v = h["sec"], [0, 0]
    cfg = dict(lc=consts["LC"], kb=consts["KB"], sb=consts["SB"], ik=sec[0], vk=sec[0] + 10)
    cfg["cache"] = r.choice([BIG, BIG, 600])
    same = r.random() < 0.4
    ops = [{"op": "other", "s": 1, "do": "new", "ik": sec[1], "vk": sec[1] + 10, "cfg": cfg, "q": {"q": "all"}}]
    for o in h["ops"]:
        els = []
        for _ in range(o["k"]):
            v[o["s"] - 1] += 1
            n = v[o["s"] - 1]
            els.append({"k": (n * 5) % 7, "v": n if same else 100 * o["s"] + n})
        if o["s"] == 1:
            if o["op"] == "read":
                ops += [{"op": "collect", "t": 0}, {"op": "index", "api": "fwd", "q": {"q": "all"}, "t": 0}]
            else:
                ops.append({"op": o["op"], "els": els} if els else {"op": o["op"]})
        else:
            m = {"op": "other", "s": 1, "do": o["op"], "q": query(r, 8)}
            if els:
                m["els"] = els
            if o["op"] == "fork":
                v[1] = v[0]
            ops.append(m)
    ops += [{"op": "other", "s": 1, "do": "read", "q": {"q": "all"}}, {"op": "collect", "t": 0}, {"op": "iter", "api": "fwd", "q": query(r, 8), "t": 0}]
    return {"id": id, "cfg": cfg, "ops": ops}


# ---------------------------------------------------------------- streaming
def stream_ep(r, id):
    cfg = r.choice([cfg_small, cfg_small, cfg_deep, cfg_mus])(r)
    x = Ctx(r, SIZES["mus"] if "mus" in cfg else (lambda r: 0))
    ops = []
    k = r.randrange(2, 6)
    sizes = []
    if r.random() < 0.2:
        ops.append({"op": "snap"})
        sizes.append(0)
    while len(sizes) < k:
        for _ in range(r.choice([1, 1, 2])):
            ops.append({"op": r.choice(["extend", "extend", "extend_unpacked"]), "els": x.els(r.choice([1, 2, 3, 5, 8]))})
        if r.random() < 0.3:
            ops.append({"op": "pack"})
        ops.append({"op": "snap"})
        sizes.append(x.n)
    if r.random() < 0.2:
        # forgotten parts in the last version only matter if they match nothing
        pass
    for _ in range(6):
        first = r.randrange(1, k + 1)
        ts = [t for t in range(first, k + 1) if r.random() < 0.7] or [k]
        if r.random() < 0.2:
            ts = sorted(ts + [r.choice(ts)])
        n = sizes[ts[-1] - 1]
        lo = r.choice([0, 0, r.randrange(n + 2)])
        hi = r.choice([U64, max(lo, n - 1), max(lo, r.randrange(n + 2)), lo])
        kind = r.choice(["fwd", "fwd", "fwd", "rev", "rev", "plain", "threaded"])
        faults = [{"n": r.choice([0, 0, 1, 2, 3, 4, 6, 9])} for _ in ts] if r.random() < 0.6 else []
        if faults and r.random() < 0.7:
            faults[-1] = {"n": 0}
        ops.append({"op": "stream", "kind": kind, "q": query(r, n), "lo": lo, "hi": hi, "trees": ts, "faults": faults})
    return {"id": id, "cfg": cfg, "ops": ops}


def from_stream_hist(r, id, h, consts):
    """a history printed by StreamMC as a script"""
    ops, v, snaps, faults = [], 0, 0, []
    for o in h["ops"]:
        if o["op"] == "poll":
            ops.append({"op": "snap"})
            snaps += 1
            faults.append({"n": o["f"]})
        else:
            els = []
            for _ in range(o["k"]):
                v += 1
                els.append({"k": (v * 5) % 7, "v": v})
            ops.append({"op": o["op"], "els": els})
    lo, hi = h["par"]["r"]
    hi = U64 if hi >= 2000000000 else hi
    kinds = ["rev"] if h["par"]["rev"] else ["fwd", "threaded"] + (["plain"] if lo == 0 and hi == U64 else [])
    for k in kinds:
        ops.append({"op": "stream", "kind": k, "q": h["par"]["q"], "lo": lo, "hi": hi, "trees": list(range(1, snaps + 1)), "faults": faults})
    return {"id": id, "cfg": dict(lc=consts["LC"], kb=consts["KB"], sb=consts["SB"], cache=0), "ops": ops}


def with_cache(script, st):
    """the same script with other caches"""
    s = json.loads(json.dumps(script))
    s["cfg"].update(st)

    def fix(ops):
        for o in ops:
            if o["op"] == "drop_cache":
                o["cache"] = st["cache"]
            if o["op"] == "txn":
                fix(o["ops"])
    fix(s["ops"])
    return s


def big_ep(r, id, prop):
    """leaves of many megabytes"""
    x = Ctx(r)
    ops = []
    for sizes in ([5000000, 100, 7000000, 6000000], [200], [4500000, 30]):
        els = x.els(len(sizes))
        for e, s in zip(els, sizes):
            e["s"] = s
        ops.append({"op": r.choice(["extend", "extend_unpacked"]), "els": els})
    ops += [{"op": "get", "t": 0, "off": 0}, {"op": "pack"}, {"op": "collect", "t": 0, "off": 0}]
    ops.append({"op": "iter", "t": 0, "api": "fwd", "q": {"q": "all"}})
    return {"id": id, "cfg": dict(lc=10, kb=2, sb=2, tls=100 << 20), "ops": ops}


def huge_ep(r, id, prop):
    """a limit for the size of leaves that is larger than what can be read"""
    x = Ctx(r)
    ops = []
    for sizes in ([9000000, 9000000], [200], [5000000, 5000000, 5000000, 1777000, r.randrange(100, 400)], [17000000, 3], [1, 2]):
        els = x.els(len(sizes))
        if max(sizes) > 1 << 24:
            x.n -= len(sizes)
        for e, s in zip(els, sizes):
            e["s"] = s
            e["v"] += e["v"] + 1
        ops.append({"op": "extend", "els": els})
    ops += [{"op": "pack"}, {"op": "collect", "t": 0, "off": 0}, {"op": "iter", "t": 0, "api": "fwd", "q": {"q": "all"}}]
    return {"id": id, "cfg": dict(lc=10, kb=2, sb=2, tls=100 << 20, mus=64 << 20), "ops": ops}


def fixture_ep(r, id, path):
    """read and go on with a stream written by an earlier build"""
    f = json.load(open(path))
    n = f["root"]["count"]
    P = dict(PROFILES["C26"], muts=dict(MUTR, reload=1))
    x = Ctx(r, lambda r: r.choice([0, 0, 5, 10]), True)
    x.v, x.n = 100000, n
    kinds = ["get", "get", "collect", "from", "iter", "chunk", "iter", "chunk"]
    ops = [{"op": "load_fixture", "file": path}] + [{"op": "collect", "t": 0}, {"op": "iter", "api": "from", "t": 0}]
    ops += [read(r, r.choice(kinds), n, 0) for _ in range(6)]
    for _ in range(r.randrange(2, 6)):
        k = r.choices(list(P["muts"]), list(P["muts"].values()))[0]
        if k in ("extend", "extend_unpacked", "push"):
            ops.append({"op": k, "els": x.els(r.choice([1, 2, 5]))})
        elif k == "retain":
            ops.append({"op": "retain", "q": query(r, x.n)})
        else:
            ops.append({"op": k})
        ops += [read(r, r.choice(kinds), x.n, 0) for _ in range(2)]
    return {"id": id, "cfg": dict(f["cfg"], exact=False), "ops": ops}


# ---------------------------------------------------------------- entry
def scripts(prop, seed, count, steps, hists=(), consts=None):
    r = random.Random("%s/%s" % (prop, seed))
    out = []
    hists = sorted(hists, key=json.dumps)
    for j, h in enumerate(hists):
        if prop == "C12":
            out.append(from_stream_hist(r, "h%d" % j, h, consts))
        elif prop == "C33":
            out.append(from_multi_hist(r, "h%d" % j, h, consts))
        else:
            out.append(from_hist(r, "h%d" % j, h, consts, prop))
    if prop == "C12":
        for j in range(count):
            out.append(stream_ep(r, "s%d" % j))
        return out
    if prop == "C33":
        for j in range(count):
            out.append(multi_ep(r, "m%d" % j))
        return out
    for j in range(count):
        out.append(walk(r, "w%d" % j, prop, r.randrange(max(2, steps // 2), steps + 1)))
    if prop in ("C01", "C02", "C13", "C18", "C26"):
        out.append(big_ep(r, "big", prop))
        out.append(huge_ep(r, "huge", prop))
    if prop == "C26":
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "fixtures")
        for f in sorted(os.listdir(d)):
            for j in range(3 if count < 1000 else 40):
                out.append(fixture_ep(r, "x%d-%s" % (j, f), os.path.join(d, f)))
    if prop in ("C07", "C08"):
        for op in ("extend", "extend_unpacked", "pack", "retain", "retain2"):
            for kind in ("fail_put", "fail_get"):
                for n in range(1, 9):
                    out.append(faultsweep(r, "f-%s-%s-%d" % (op, kind, n), kind, op, n))
    return out


if __name__ == "__main__":
    import sys
    for s in scripts(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])):
        print(json.dumps(s))
