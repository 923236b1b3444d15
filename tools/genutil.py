"""Scripts for the parts outside of the tree."""
import random

POOL = ["a", "b", "c", "d", "e", "f", "g", "h"]
ODD = ["", "it's", "x y", "ä", "aa", "ab", "A", "a'b''", " a", "a ", " ", "\ta\n", "a" * 22, "a" * 23, "a" * 24, "\u0000", "a\u0000"]


def expr(r, depth, lits):
    if depth == 0 or r.random() < 0.3:
        return {"t": "l", "x": r.choice(lits), "c": []}
    k = r.choice([1, 2, 2, 2, 3, 3, 4])
    return {"t": r.choice(["and", "or"]), "x": "", "c": [expr(r, depth - 1, lits) for _ in range(k)]}


def dnf(seed, hists, count):
    r = random.Random("dnf/%s" % seed)
    out = []
    hists = list(hists)
    r.shuffle(hists)
    for j in range(0, len(hists), 10):
        out.append({"id": "m%d" % j, "es": hists[j:j + 10]})
    for j in range(count):
        lits = r.sample(POOL, r.choice([2, 3, 4, 5])) if r.random() < 0.85 else r.sample(POOL[:3] + ODD, 4)
        out.append({"id": "r%d" % j, "es": [expr(r, r.choice([1, 2, 2, 3]), lits) for _ in range(6)]})
    return out


def tagset(r, lits, m):
    return sorted(set(r.choice(lits) for _ in range(r.randrange(m + 1))))


def index(seed, count):
    r = random.Random("index/%s" % seed)
    out = []
    for j in range(count):
        lits = r.sample(POOL + ODD, r.choice([1, 2, 4, 8, 12]))
        m = r.choice([1, 2, 3, 6])
        els = [tagset(r, lits, m) for _ in range(r.choice([0, 1, 2, 5, 9, 40]))]
        known = sorted(set(t for e in els for t in e)) or lits
        qs = []
        for _ in range(8):
            q = []
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                pool = r.choice([known, known, lits + ["zz", "0"]])
                q.append(tagset(r, pool, r.choice([1, 2, 3])))
            qs.append(q)
        if els:
            qs.append([r.choice(els)])
        out.append({"id": "x%d" % j, "els": els, "qs": qs})
    return out


def query(seed, count):
    r = random.Random("query/%s" % seed)
    out = []
    for j in range(count):
        lits = r.sample(POOL + ODD, r.choice([2, 3, 5, 8]))
        tmax = r.choice([3, 10, 30])
        wild = r.random() < 0.5     # times in no particular order
        cfg = dict(lc=r.choice([1, 2, 3, 5, 70]), kb=r.choice([2, 3, 4]), sb=r.choice([2, 3]), cache=r.choice([0, 1 << 20]))
        ops, n = [], 0
        # rare tags only appear in parts of the stream
        for step in range(r.randrange(2, 6)):
            ls = r.sample(lits, r.randrange(1, len(lits) + 1))
            els = []
            for _ in range(r.choice([1, 2, 3, 5, 9])):
                els.append({"l": n, "t": r.randrange(tmax + 1) if wild else n * tmax // 40, "tags": tagset(r, ls, r.choice([1, 2, 4]))})
                n += 1
            ops.append({"op": r.choice(["extend", "extend", "extend_unpacked"]), "els": els})
            if r.random() < 0.3:
                ops.append({"op": "pack"})
            for _ in range(5):
                q = []
                for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
                    lo = r.randrange(tmax + 2)
                    hi = r.choice([lo, lo, lo + 1, lo + r.randrange(tmax + 1), max(0, lo - 1)])
                    q.append({"form": r.choice(["tags", "range", "range"]), "lo": lo, "hi": hi,
                              "tags": tagset(r, lits if r.random() < 0.9 else lits + ["zz", "00"], r.choice([1, 1, 2, 3]))})
                ops.append({"op": "query", "q": q, "how": r.choice(["fwd", "fwd", "rev", "chunk", "stream"]), "load": r.random() < 0.3})
        out.append({"id": "q%d" % j, "cfg": cfg, "store": "sqlite" if r.random() < 0.15 else "mem", "ops": ops})
    return out


def store(seed, kinds, hists, count, sizes=(0, 1, 2, 3), limits=None):
    r = random.Random("store/%s/%s" % (seed, kinds))
    out = []

    def reads(k, n):
        return [{"op": "get", "d": r.randrange(1, n + 1)} for _ in range(k)]

    def end(kind, n):
        o = [{"op": "get", "d": d} for d in range(1, n + 1)] + [{"op": "all"}]
        return o + ([{"op": "dump"}] if kind == "mem" else [])

    for j, h in enumerate(hists):
        kind = r.choice(kinds)
        ops = []
        for o in h:
            ops.append(o)
            ops += reads(1, len(sizes))
        out.append(dict({"id": "h%d" % j, "kind": kind, "sizes": list(sizes), "ops": ops + end(kind, len(sizes))}, **(limits or {})))
    for j in range(count):
        kind = r.choice(kinds)
        n = r.choice([2, 4, 8, 12])
        sz = [r.choice([0, 1, 5, 10, 10, 20, 40, 100, 300]) for _ in range(n)]
        ops = []
        for _ in range(r.randrange(5, 30)):
            x = r.random()
            d = r.randrange(1, n + 1)
            if x < 0.45:
                ops.append({"op": "put", "d": d})
            elif x < 0.55 and kind == "cache":
                ops.append({"op": "putfail", "d": d})
            elif x < 0.62 and kind == "cache":
                ops.append({"op": "offer", "d": d, "as": r.choice([d, d, d, r.randrange(1, n + 1)])})
            elif x < 0.7 and kind == "cache":
                ops.append({"op": "lose", "d": d})
            elif x < 0.65 and kind == "sqlitefile":
                ops.append({"op": "reopen"})
            else:
                ops.append({"op": "get", "d": d})
        tot = sum(sz)
        out.append({"id": "r%d" % j, "kind": kind, "limit": r.choice([0, 1, 10, 40, tot, max(0, tot - 1), tot // 2, 10 * tot]),
                    "maxblk": r.choice([0, 1, 10, 20, 1000]), "cap": r.choice([0, 1, 20, 50, 200, 10000]), "sizes": sz, "ops": ops + end(kind, n)})
    return out


def lin(seed, kinds, count):
    """several threads on the same store: {id, kind, limit, maxblk, cap, slow, sizes, threads}"""
    r = random.Random("lin/%s/%s" % (seed, kinds))
    out = []
    for j in range(count):
        kind = r.choice(kinds)
        n = r.choice([1, 2, 4, 6])
        big = r.random() < 0.15
        sz = [r.choice([1500000, 3000000] if big else [1, 10, 20, 100, 3000]) for _ in range(n)]
        t = r.choice([2, 3, 4, 8])
        k = r.choice([1, 2, 4, 6]) if t < 8 else r.choice([1, 2, 4])
        pput = r.choice([0.2, 0.5, 0.9])
        own = r.random() < 0.3  # same operations in all threads
        mk = lambda: [{"op": "put" if r.random() < pput else "get", "d": r.randrange(1, n + 1)} for _ in range(k)]
        first = mk()
        tot = sum(sz)
        out.append({"id": "l%d" % j, "kind": kind, "sizes": sz, "limit": r.choice([tot, tot, max(0, tot - 1), tot // 2, max(sz), 10 * tot]),
                    "maxblk": r.choice([10, 20, 5000, 10 ** 7]), "cap": r.choice([1, 20, 200, 10 ** 7]), "slow": r.choice([0, 0, 50]),
                    "threads": [first if own else mk() for _ in range(t)]})
    return out


ODDVAL = ["", "x\ny", "ä\"'", "\u0000", "€" * 30, "zstd" * 40, "null", "{}"]


def keys(seed, count, focus, hists=(), lim=None):
    """streams with tag keys: {id, cfg, onekey, ops}"""
    r = random.Random("keys/%s/%s" % (seed, focus))
    out = []
    for j in range(count):
        lits = r.sample(POOL + ODD, r.choice([1, 2, 3, 5, 8, 12]))
        cfg = dict(lc=r.choice([1, 2, 3, 5, 70]), kb=r.choice([2, 3, 4]), sb=r.choice([2, 3]), cache=r.choice([0, 0, 1 << 20]), tls=r.choice([30, 200, 1 << 20]))
        wild = r.random() < 0.6     # lamports and times in no particular order, up to the largest number
        odd = r.random() < 0.3
        ops, n = [], 0

        def num():
            return r.choice([r.randrange(20), r.randrange(3), r.randrange(1000), 1060 - r.randrange(4)])

        for step in range(r.randrange(3, 9)):
            x = r.random()
            if n == 0 or x < 0.6:
                ls = r.sample(lits, r.randrange(1, len(lits) + 1))
                els = []
                for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9])):
                    els.append({"l": num() if wild else n, "t": num() if wild else n // 2,
                                "tags": [] if r.random() < 0.1 else tagset(r, ls, r.choice([1, 2, 4])),
                                "v": r.choice(ODDVAL) if odd and r.random() < 0.5 else "v%d" % n})
                    n += 1
                ops.append({"op": r.choice(["extend", "extend", "extend_unpacked"]), "els": els})
            elif x < 0.72:
                ops.append({"op": "pack"})
            elif x < 0.8:
                ops.append({"op": "forget", "from": r.randrange(n + 2)})
            elif x < 0.9:
                lo = num()
                ops.append({"op": "retain", "q": [{"form": r.choice(["tags", "range"]), "lo": lo, "hi": r.choice([lo, num(), 1060]), "tags": tagset(r, lits, 1)}]})
            else:
                ops.append({"op": "reload"})
            if focus == "C28":
                if r.random() < 0.5:
                    ops.append({"op": "read"})
            elif r.random() < 0.7:
                ops.append({"op": "graph" if focus == "C27" else "dump"})
        ops.append({"op": {"C27": "graph", "C28": "read", "C29": "dump"}[focus]})
        out.append({"id": "k%d" % j, "cfg": cfg, "onekey": r.random() < 0.2, "ops": ops})
    look = {"C27": "graph", "C28": "read", "C29": "dump"}[focus]
    for j, h in enumerate(hists):
        # histories of the model KeyMC
        ops, n = [], 0
        for o in h:
            o = dict(o)
            if o["op"] == "retain":
                o["q"] = [dict(k, tags=["t%d" % x for x in k["tags"]]) for k in o["q"]]
            if "els" in o:
                o["els"] = [dict(e, tags=["t%d" % x for x in e["tags"]], v="v%d" % (n + k)) for k, e in enumerate(o["els"])]
                n += len(o["els"])
            ops.append(o)
            if r.random() < 0.3:
                ops.append({"op": "reload"})
            ops.append({"op": look})
        out.append({"id": "m%d" % j, "cfg": dict(lim, cache=r.choice([0, 1 << 20])), "onekey": j % 5 == 0, "ops": ops})
    if focus == "C28":
        # tags so long that branches do not fit into a block
        for j in range(3 if count < 1000 else 12):
            lits = ["~" + x for x in "abcdefghijkl"] + ["m"]
            ops, n = [], 0
            for _ in range(r.choice([4, 6])):
                els = []
                for _ in range(r.choice([1, 2, 4])):
                    els.append({"l": n, "t": n, "tags": r.sample(lits, r.choice([1, 2, 5, 12])), "v": "v%d" % n})
                    n += 1
                ops.append({"op": r.choice(["extend", "extend", "extend_unpacked"]), "els": els})
                ops.append({"op": r.choice(["read", "pack", "reload", "read"])})
            out.append({"id": "l%d" % j, "big": True, "cfg": dict(lc=r.choice([1, 2, 3]), kb=r.choice([2, 4]), sb=r.choice([2, 3])), "onekey": False, "ops": ops + [{"op": "read"}]})
    return out


def seqs(seed, hists, count):
    """sequences: {id, ops: [{op, ipld, base, held, cs, us, max, zl, vals, sel, offs, nonce}]}"""
    r = random.Random("seqs/%s" % seed)
    out = []
    nid = [0]

    def val(sz=None, links=True):
        nid[0] += 1
        if sz is None:
            sz = r.choice([0, 0, 1, 3, 10, 17, 18, 19, 40, 200, 250, 300, r.choice([1000, 5000])])
        ls = sorted(set(r.randrange(120) for _ in range(r.choice([0, 0, 0, 1, 2, 4])))) if links else []
        if ls and r.random() < 0.3:
            ls.append(ls[0])        # the same link twice
        return {"id": nid[0] * 2 + r.randrange(2), "sz": sz, "links": ls}

    def obs(n):
        # see harness/src/seq.rs for the offsets beyond 1000000
        sel = [[r.choice([0, 1]) for _ in range(r.choice([0, 1, n, n, n + 2, max(0, n - 1)]))] for _ in range(3)]
        sel.append([0] * n)
        sel.append([0] * max(0, n - 1) + [1])
        offs = [0, r.choice([1, 63, 64, 65, 1000, 99999]), 1000000 + r.randrange(1600), r.choice([0, 1, 1000000 + r.randrange(3000), 2000000 + r.randrange(400)])]
        return {"sel": sel, "offs": offs, "nonce": r.choice([0, 0, 5])}

    for j, h in enumerate(hists):
        # batches from the model, lengths in units of 5 bytes
        ops, n = [], 0
        nid[0] = 0
        for b in h:
            n += len(b)
            ops.append(dict({"op": "fill", "ipld": r.random() < 0.3, "base": "cur", "held": n - len(b), "cs": 1 << 20, "us": 4 * 5, "max": 3, "zl": 1,
                             "vals": [val(5 * x - 4, False) for x in b]}, **obs(n)))
        out.append({"id": "m%d" % j, "ops": ops})
    for j in range(count):
        nid[0] = 0
        ops, n = [], 0
        for _ in range(r.randrange(2, 7)):
            k = r.choice([0, 1, 1, 2, 3, 6, 12])
            vs = [val() for _ in range(k)]
            lens = [v["sz"] + 8 for v in vs]
            if r.random() < 0.25:
                ops.append(dict({"op": "make", "ipld": r.random() < 0.5, "base": "empty", "zl": r.choice([1, 3, 10]), "vals": vs}, **obs(k)))
                n = k
            else:
                base = r.choice(["cur", "cur", "empty"])
                n = k + (n if base == "cur" else 0)
                us = r.choice([1 << 24, 1 << 24, 1000, sum(lens), sum(lens) // 2 + 1, max(lens or [1]), max(lens or [1]) + r.randrange(-3, 8), 20, 100])
                ops.append(dict({"op": "fill", "ipld": r.random() < 0.4, "base": base, "held": r.choice([0, 0, 1, 2, 3, n]), "us": max(0, us),
                                 "cs": r.choice([1 << 24, 1 << 24, 1 << 24, 0, 1, 20, 60, 300, 1000]), "max": r.choice([0, 1, 2, 3, 5, 8, 100, 100]),
                                 "zl": r.choice([1, 1, 3, 10]), "vals": vs}, **obs(n)))
                if vs and r.random() < 0.4:
                    # exactly the first k of them fit, or almost
                    ops[-1].update(usk=r.randrange(1, k + 1), usd=r.choice([-1, 0, 0, 1]), cs=1 << 24, max=r.choice([100, 100, 5]))
        out.append({"id": "r%d" % j, "ops": ops})
    for j in range(count // 60 + 1):
        # items with which the compressed form is written out while filling
        vs = [val(r.choice([20000, 60000, 100000, 150000])) for _ in range(r.randrange(3, 8))]
        for v in vs:
            v["id"] -= v["id"] % 2      # incompressible
        ops = [dict({"op": "fill", "ipld": r.random() < 0.4, "base": "cur", "held": 0, "us": r.choice([1 << 24, 400000]), "cs": r.choice([100000, 200000, 1 << 24]),
                     "max": 100, "zl": 1, "vals": vs}, **obs(len(vs)))] * 2
        out.append({"id": "b%d" % j, "ops": ops})
    for j in range(2 if count < 1000 else 12):
        # around the largest size that can be read
        ops = []
        for _ in range(4):
            vs = [val(r.choice([3000000, 5000000, 6000000]), False) for _ in range(r.randrange(2, 5))]
            if r.random() < 0.5:
                tot = sum(v["sz"] for v in vs[:-1])
                vs[-1]["sz"] = max(70000, (1 << 24) - tot - len(vs) * 13 + r.randrange(-12, 20))
            for v in vs:
                v["id"] += 1 - v["id"] % 2      # compressible
            ops.append(dict({"op": r.choice(["make", "fill"]), "ipld": r.random() < 0.5, "base": r.choice(["cur", "empty"]), "held": 0, "us": r.choice([1 << 26, 1 << 24, (1 << 24) + 1]),
                             "cs": 1 << 27, "max": 100, "zl": 1, "vals": vs}, sel=[[0, 1]], offs=[0], nonce=0))
        out.append({"id": "c%d" % j, "ops": ops})
    return out


def ipfs(seed, count, hists=()):
    """a client and its node: {id, sizes, ops}; see harness-utils/src/ipfs.rs for the modes"""
    r = random.Random("ipfs/%s" % seed)
    out = []
    topics = ["a", "b c", "ä/ö?x=1&y", "100%", "+"]
    refuse = ["404", "500", "drop", "key500"]
    for j, h in enumerate(hists):
        # histories of the model IpfsMC
        ops, subs = [], []
        for o in h:
            o = dict(o, cut=1 if o["mode"] == "split" else 1 << 30)
            ops.append(o)
            if o["op"] == "sub":
                subs.append(dict(t=o["topic"], got=0, held=0))
            if o["op"] == "close":
                subs[o["sub"] - 1]["t"] = None
            if o["op"] == "pub":
                for k, s in enumerate(subs):
                    if s["t"] == o["topic"] and o["mode"] != "404":
                        s["held"] += 1
                        if o["mode"] != "merge":
                            s["got"] += s["held"]
                            s["held"] = 0
                    if s["t"] is not None:
                        ops.append({"op": "recv", "sub": k + 1, "n": s["got"]})
        ops += [{"op": "close", "sub": k + 1, "mode": "ok"} for k, s in enumerate(subs) if s["t"] is not None]
        out.append({"id": "m%d" % j, "sizes": [r.choice([1, 2, 30]), r.choice([0, 3, 100])], "ops": ops})
    for j in range(count):
        n = r.choice([2, 4, 8])
        sizes = [1 + k + r.choice([0, 1, 10, 100, 300, 5000 if k % 4 == 0 else 40]) for k in range(n)]
        if r.random() < 0.3:
            sizes[r.randrange(n)] = 0
        if r.random() < 0.2:
            sizes[r.randrange(n)] = r.choice([40000, 300000, 2000000])
        small = [k + 1 for k in range(n) if sizes[k] <= 5400]
        some = [k + 1 for k in range(n) if sizes[k] > 0]
        ops, subs = [], []
        ps = r.choice([0, 0, 0.6])
        for _ in range(r.randrange(4, 16)):
            bad = r.random() < 0.25
            x = r.random()
            if x < ps:
                y = r.random()
                if not subs or y < 0.15:
                    t = r.choice(topics)
                    mode = r.choice(refuse) if bad else "ok"
                    ops.append({"op": "sub", "topic": t, "mode": mode})
                    if not bad:
                        subs.append(dict(t=t, got=0, held=0))
                elif y < 0.7:
                    t = r.choice([r.choice(subs)["t"] or "a", r.choice(topics)])
                    mode = r.choice(refuse) if bad else r.choice(["ok", "ok", "chunks", "split", "merge", "merge"])
                    ops.append({"op": "pub", "topic": t, "mode": mode, "d": r.choice(small), "cut": r.choice([1, 2, 7, 20, 60, 400]) if mode == "split" else 1 << 30})
                    if mode == "split" and ops[-1]["cut"] < 20 and sizes[ops[-1]["d"] - 1] > 500:
                        ops[-1]["cut"] = 700
                    for s in subs:
                        if s["t"] == t and not bad:
                            s["held"] += 1
                            if mode != "merge":
                                s["got"] += s["held"]
                                s["held"] = 0
                elif y < 0.9:
                    k = r.randrange(len(subs))
                    if subs[k]["t"] is not None:
                        ops.append({"op": "recv", "sub": k + 1, "n": subs[k]["got"]})
                else:
                    k = r.randrange(len(subs))
                    if subs[k]["t"] is not None:
                        ops.append({"op": "close", "sub": k + 1, "mode": r.choice(["ok", "ok", "abort"])})
                        subs[k]["t"] = None
                continue
            put = r.random() < 0.5
            mode = r.choice(refuse + ["cut", "cutchunks"] + (["badkey", "nokey"] if put else [])) if bad else r.choice(["ok", "ok", "chunks"])
            d = r.choice(some if mode == "cutchunks" else range(1, n + 1))
            e = {"op": r.choice(["put", "put", "bput"]) if put else "get", "mode": mode, "d": d, "cut": r.choice([0, 1, 5, 1 << 30])}
            if e["op"] == "bput":
                e.update(codec=r.choice([0x71, 0x70, 0x55, 0x55, 0x12, 0]), pin=r.random() < 0.5)
            ops.append(e)
            if r.random() < 0.15:
                ops.append({"op": "link", "d": r.randrange(1, n + 1)})
        for k, s in enumerate(subs):
            if s["t"] is not None:
                ops.append({"op": r.choice(["recv", "close"]), "sub": k + 1, "n": s["got"]})
        out.append({"id": "i%d" % j, "sizes": sizes, "ops": ops})
    return out


def cli(seed, count, hists=()):
    """runs of the command line tool: {id, ops}; `from` is the operation whose result is used"""
    r = random.Random("cli/%s" % seed)
    out = []
    for j in range(count):
        ip, vp = r.choice([("", ""), ("", ""), ("a", "b"), ("x" * 40, "y" * 31), ("same", "same"), ("ä", ""), ("p w ", "Value")])
        wrong = r.choice(["", "a", "c", "x" * 31])
        near = lambda p: r.choice([p + " ", " " + p, p.strip(), p.swapcase(), p[:-1], p + "a", p[::-1]])
        ops, roots, lost = [], [], False

        def add(op, **k):
            o = dict({"op": op, "ip": ip, "vp": vp}, **k)
            ops.append(o)
            return len(ops)

        def build(f=0, big=False):
            n = r.choice([1, 2, 3, 5, 7, 10, 11, 25, 60])
            b = r.choice([1, 1, 2, 3, 5])
            if big:
                n, b = r.choice([1001, 1500, 2300]), 1
            roots.append(add("build", count=n, batches=b, unb=r.random() < 0.5 and n > 3 and b < 5, **{"from": f}))

        def view(f):
            x = r.choice(["dump", "dump-values", "graph", "stream", "filter", "dump-block", "dump-values"])
            k = {"from": f}
            if x == "filter":
                k["tags"] = r.sample(["fizz", "buzz", "fizzbuzz", "we.like.long.identifiers.because.they.seem.professional", "other"], r.choice([0, 1, 1, 2, 3]))
            if x == "dump-block":
                k.update(pick=r.randrange(1000), kind=r.choice(["L", "B", "any"]))
                k["vp"] = vp if k["kind"] == "L" else ip
            if r.random() < 0.15 and (ip or vp):
                w = r.choice(["ip", "vp"])
                p = dict(ip=ip, vp=vp)[w]
                n = r.choice([wrong, near(p)])
                if n.encode()[:32] != p.encode()[:32]:  # the rest is not used
                    k[w] = n
            add(x, **k)

        build(big=r.random() < 0.06)
        for _ in range(r.randrange(3, 10)):
            x = r.random()
            f = r.choice(roots[-2:])
            if x < 0.2:
                build(r.choice([0, f, f, f]))
            elif x < 0.3:
                roots.append(add("pack", **{"from": f}))
            elif x < 0.42:
                roots.append(add("forget", before=r.choice([0, 1, 5, 9, 10, 11, 19, 20, 25, 39, 40, 41, 60, 300, r.randrange(70)]), **{"from": f}))
            elif x < 0.52:
                roots.append(add("repair", **{"from": f}))
            elif x < 0.62:
                add("lose", pick=r.randrange(1000), **{"from": f})
                if r.random() < 0.5:
                    view(f)
                roots.append(add("repair", **{"from": f}))
            else:
                view(f)
            if r.random() < 0.03:
                add("bench", count=r.choice([1, 2, 16, 151, 1500]), **{"from": 0})
        view(roots[-1])
        add("dump-values", **{"from": roots[-1]})
        out.append({"id": "c%d" % j, "ops": ops})
    # histories of the model CliMC, with the limits of the tool (five times as large)
    for j, h in enumerate(hists):
        ip, vp, wrong = r.choice([("", "", "x"), ("a", "b", ""), ("k" * 32, "k" * 32, "k" * 31)])
        ops, roots = [], [0]
        for o in h:
            o = dict(o, ip=ip, vp=vp)
            if "from" in o:
                o["from"] = roots[min(o["from"], len(roots) - 1)]
            for k in ("count", "before"):
                if k in o:
                    o[k] *= 5
            if o.pop("pw", "a") == "b":
                o["vp"] = wrong
            ops.append(o)
            if o["op"] in ("build", "pack", "forget", "repair"):
                roots.append(len(ops))
                ops.append({"op": r.choice(["dump", "dump-values", "stream", "graph", "filter"]), "from": len(ops), "ip": ip, "vp": vp, "tags": ["fizz", "buzz"]})
                if ops[-1]["op"] != "filter":
                    del ops[-1]["tags"]
        for x in roots[1:]:
            ops.append({"op": "dump-values", "from": x, "ip": ip, "vp": vp})
        out.append({"id": "m%d" % j, "ops": ops})
    return out
