"""What is explored for each property."""
import random
import gen
import genutil

ASSUMPTIONS = [
    "the independent decoder, the recording store and the test key type of the harness",
    "TLC and the JSON reader of the TLA+ community modules",
    "bounds of the models and the sampled walks as given in coverage",
]

ALLF = '{"retain", "lose", "txn", "snap", "reload", "fault"}'


def mc(lc=2, kb=2, sb=2, maxn=8, maxv=10, ops=3, batches="{1, 2, 3, 5}", szm=1, mus=100, feat=ALLF, gen=False):
    return {"LC": lc, "KB": kb, "SB": sb, "MUS": mus, "MAXN": maxn, "MAXV": maxv, "MAXOPS": ops, "BATCHES": batches, "SZM": szm,
            "FEATURES": feat, "GENPRINT": "TRUE" if gen else "FALSE"}


# property -> invariant of the model; others use C01
TREE = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14", "C15", "C17", "C18",
        "C21", "C23", "C24", "C25", "C26", "C27"]
INV = {"C25": ["C05"], "C26": ["C11"], "C27": ["C27"]}

# (episodes, steps) of the walks
SIZE = {"quick": (450, 10), "thorough": (3000, 16)}

PLANS = {p: {} for p in TREE + ["C12", "C16", "C19", "C20", "C22", "C28", "C29", "C30", "C31", "C32", "C33"]}


def tree(run, build, replay, no_model):
    p, quick = run.prop, run.tier == "quick"
    if replay and "onekey" in replay[0]:
        keys(run, build, replay, no_model)
        return
    if replay and "threads" in replay[0]:
        stores(run, build, replay, no_model)
        return
    build("harness")
    if replay:
        run.validate("BanyanTrace", run.execute("bh", "run", replay, "replay"), "replay")
        return
    invs = INV.get(p, [p])
    hists = []
    if not no_model:
        m = mc(gen=True)
        h3 = run.model(dict(module="BanyanMC", consts=m, invs=invs + ["GenAll"], props=["Refines"], view="View"), "a")
        # limits on sizes of values
        run.model(dict(module="BanyanMC", consts=mc(lc=3, kb=2, sb=3, szm=3, mus=5, batches="{1, 4}", ops=3 if quick else 4), invs=invs, view="View"), "b")
        if not quick:
            run.model(dict(module="BanyanMC", consts=mc(ops=4), invs=invs, props=["Refines"], view="View", timeout=3000), "c")
            run.model(dict(module="BanyanMC", consts=mc(lc=1, kb=2, sb=2, maxn=9, ops=4), invs=invs, view="View", timeout=3000), "d")
            run.model(dict(module="BanyanMC", consts=mc(ops=6, feat='{"reload"}', maxn=11, maxv=11, batches="{1, 2, 3}"), invs=invs, view="View", timeout=3000), "e")
        if p == "C25":
            cc = dict(LC=2, KB=2, SB=2, MAXN=6, MAXOPS=2 if quick else 3, BATCHES="{3}" if quick else "{2, 3}", READERS="{1, 2}", CAP=1,
                      OWNSCRATCH="TRUE", PUBLISHLAST="TRUE")
            run.model(dict(module="ConcMC", consts=cc, invs=["C25"], props=["C25live"], timeout=3000), "conc")
        r = random.Random(run.seed)
        h3.sort(key=str)
        hists = r.sample(h3, min(len(h3), 300)) if quick else h3
        hists += run.simulate(dict(module="BanyanMC", consts=mc(ops=8, maxn=16, maxv=25, gen=True), view="View"), "s", 100 if quick else 1000, 9)
    n, steps = SIZE[run.tier]
    s = gen.scripts(p, run.seed, n, steps, hists, dict(LC=2, KB=2, SB=2))
    run.validate("BanyanTrace", run.execute("bh", "run", s, "tree"), "tree")
    if p == "C27":
        keys(run, build, replay, no_model)
    if p == "C25":
        build("harness-utils")
        threads(run, ["mem", "mem", "cache", "sqlite"], 400 if quick else 8000)


def streams(run, build, replay, no_model):
    quick = run.tier == "quick"
    build("harness")
    if replay:
        run.validate("BanyanTrace", run.execute("bh", "run", replay, "replay"), "replay")
        return
    hists = []
    if not no_model:
        def c(n, g, p, b, f):
            return {"LC": 2, "KB": 2, "SB": 2, "MAXN": n, "MAXGROW": g, "MAXPOLL": p, "BATCHES": b, "FAULTS": f, "GENPRINT": "TRUE"}
        m = c(7, 2, 2, "{2, 3, 4}", "{0, 1, 2, 3, 4}") if quick else c(9, 3, 3, "{1, 2, 4}", "{0, 1, 2, 3, 5}")
        h = run.model(dict(module="StreamMC", consts=m, invs=["C12", "GenAll"], view="View"), "a")
        h.sort(key=str)
        hists = random.Random(run.seed).sample(h, min(len(h), 600 if quick else 6000))
    s = gen.scripts("C12", run.seed, 900 if quick else 6000, 6, hists, dict(LC=2, KB=2, SB=2))
    run.validate("BanyanTrace", run.execute("bh", "run", s, "streams"), "streams")


def multi(run, build, replay, no_model):
    quick = run.tier == "quick"
    build("harness")
    if replay:
        run.validate("BanyanTrace", run.execute("bh", "run", replay, "replay"), "replay")
        return
    hists, lim = [], dict(LC=1, KB=2, SB=2)
    if not no_model:
        m = dict(lim, MAXN=4, MAXOPS=4, BATCHES="{1, 3}", SECRETS="{1, 2}", CAP=2, BYLINK="TRUE", OWN="TRUE", GENPRINT="TRUE")
        hists = run.model(dict(module="MultiMC", consts=m, invs=["C33", "GenAll"], props=["C33read"], view="View"), "a")
        run.model(dict(module="MultiMC", consts=dict(m, OWN="FALSE", GENPRINT="FALSE"), invs=["C33"], props=["C33read"], view="View"), "b")
        if not quick:
            run.model(dict(module="MultiMC", consts=dict(m, MAXN=6, MAXOPS=6, GENPRINT="FALSE"), invs=["C33"], props=["C33read"], view="View", timeout=3000), "c")
        hists += run.simulate(dict(module="MultiMC", consts=dict(m, MAXN=12, MAXOPS=12), view="View"), "s", 60 if quick else 1000, 13)
        hists.sort(key=str)
        hists = random.Random(run.seed).sample(hists, min(len(hists), 300 if quick else 5000))
    s = gen.scripts("C33", run.seed, 500 if quick else 4000, 8, hists, lim)
    run.validate("BanyanTrace", run.execute("bh", "run", s, "multi"), "multi")


def norm(run, build, replay, no_model):
    quick = run.tier == "quick"
    build("harness-utils")
    con = {"MODE": '"dnf"'}
    hists = []
    if replay:
        run.validate("TagTrace", run.execute("bu", "dnf", replay, "replay"), "replay", consts=con)
        return
    if not no_model:
        h = run.model(dict(module="TagMC", consts={"TAGS": '{"a", "b", "c"}', "MAXOPS": 6 if quick else 7, "GENPRINT": "TRUE"}, invs=["C19", "GenAll"]), "a")
        h.sort(key=str)
        hists = h if not quick or len(h) < 3000 else random.Random(run.seed).sample(h, 3000)
    s = genutil.dnf(run.seed, hists, 500 if quick else 4000)
    run.validate("TagTrace", run.execute("bu", "dnf", s, "dnf"), "dnf", consts=con)


def tagq(run, build, replay, no_model):
    quick = run.tier == "quick"
    build("harness-utils")
    if replay:
        mode = "query" if "ops" in replay[0] else "index"
        run.validate("TagTrace", run.execute("bu", mode, replay, "replay"), "replay", consts={"MODE": '"%s"' % mode})
        return
    if not no_model:
        run.model(dict(module="TagMC", consts={"TAGS": '{"a", "b"}' if quick else '{"a", "b", "c"}', "MAXOPS": 0, "GENPRINT": "FALSE"}, invs=["C20"]), "a")
    s = genutil.index(run.seed, 700 if quick else 5000)
    run.validate("TagTrace", run.execute("bu", "index", s, "index"), "index", consts={"MODE": '"index"'})
    s = genutil.query(run.seed, 600 if quick else 5000)
    run.validate("TagTrace", run.execute("bu", "query", s, "query"), "query", consts={"MODE": '"query"'})


def storemodel(run, inv, quick):
    c = {"SIZES": "<- SizesA", "LIMIT": 4, "MAXBLK": 2, "CAP": 3, "MAXOPS": 3 if quick else 4, "GENPRINT": "TRUE"}
    h = run.model(dict(module="StoreMC", consts=c, invs=[inv, "GenAll"], view="View"), "a")
    if not quick:
        run.model(dict(module="StoreMC", consts=dict(c, SIZES="<- SizesB", LIMIT=5, MAXBLK=4, CAP=5, GENPRINT="FALSE"), invs=[inv], view="View"), "b")
    h.sort(key=str)
    return random.Random(run.seed).sample(h, min(len(h), 300 if quick else 5000))


def threads(run, kinds, count):
    s = genutil.lin(run.seed, kinds, count)
    run.validate("LinTrace", run.execute("bu", "lin", s, "lin", shards=2), "lin")


def stores(run, build, replay, no_model):
    quick = run.tier == "quick"
    build("harness-utils")
    if replay and "threads" in replay[0]:
        many = [dict(x, id="%s.%d" % (x["id"], k)) for x in replay for k in range(50)]  # the schedule is not determined
        run.validate("LinTrace", run.execute("bu", "lin", many, "replay"), "replay")
        return
    if replay:
        run.validate("StoreTrace", run.execute("bu", "store", replay, "replay"), "replay")
        return
    h = [] if no_model else storemodel(run, "C22", quick)
    h = [[o for o in x if o["op"] == "put"] + [{"op": "put", "d": o["d"]} for o in x] for x in h]
    s = genutil.store(run.seed, ["mem"], h, 700 if quick else 5000, limits=dict(limit=4))
    run.validate("StoreTrace", run.execute("bu", "store", s, "mem"), "mem")
    s = genutil.store(run.seed, ["sqlite", "sqlitefile"], [], 80 if quick else 400)
    run.validate("StoreTrace", run.execute("bu", "store", s, "sqlite"), "sqlite")
    threads(run, ["mem", "mem", "mem", "sqlite"], 400 if quick else 8000)


def caches(run, build, replay, no_model):
    quick = run.tier == "quick"
    if replay and "threads" in replay[0]:
        stores(run, build, replay, no_model)
        return
    build("harness-utils") if replay and "kind" in replay[0] else build("harness")
    if replay and "kind" in replay[0]:
        run.validate("StoreTrace", run.execute("bu", "store", replay, "replay"), "replay")
        return
    if not replay:
        build("harness-utils")
        h = [] if no_model else storemodel(run, "C16", quick)
        s = genutil.store(run.seed, ["cache"], h, 700 if quick else 5000, limits=dict(maxblk=2, cap=3))
        run.validate("StoreTrace", run.execute("bu", "store", s, "kv"), "kv")
        threads(run, ["cache"], 300 if quick else 5000)
    # the same histories with different caches
    base = replay or gen.scripts("C16", run.seed, 180 if quick else 2000, 10 if quick else 16)
    settings = [dict(cache=0, memcache=0), dict(cache=1, memcache=0), dict(cache=700), dict(cache=3000, memcache=300, mcblk=200),
                dict(cache=1 << 26), dict(cache=0, memcache=2000, mcblk=150), dict(cache=1 << 20, memcache=1 << 20, mcblk=1 << 20)]
    scripts = []
    for b in base:
        for k, st in enumerate(settings):
            x = gen.with_cache(b, st)
            x["id"] = "%s/%d" % (b["id"], k)
            scripts.append(x)
    done = {t["id"]: t for _, t in run.execute("bh", "run", scripts, "pair")}
    pairs = []
    for b in base:
        runs = [done.get("%s/%d" % (b["id"], k)) for k in range(len(settings))]
        if all_there(runs):
            pairs.append((b, {"id": b["id"], "runs": [{"ev": t["ev"], "blocks": t["blocks"]} for t in runs]}))
    run.validate("CachePair", pairs, "pair", size=lambda t: len(t["runs"][0]["ev"]) + 1, chunk=200)


def keys(run, build, replay, no_model):
    quick = run.tier == "quick"
    build("harness-utils")
    hists, lim = [], dict(lc=1, kb=2, sb=2)
    if not replay and not no_model:
        c = {"LC": 1, "KB": 2, "SB": 2, "MAXN": 6, "MAXK": 2, "MAXOPS": 3, "ONEKEY": "FALSE", "GENPRINT": "TRUE",
             "Summary": "<- KSummary", "Sat": "<- KSat", "May": "<- KMay", "Gone": "<- KGone"}
        inv = [] if run.prop == "C27" else [run.prop]
        h = run.model(dict(module="KeyMC", consts=c, invs=inv + ["GenAll"], view="View"), "k")
        if not quick:
            run.model(dict(module="KeyMC", consts=dict(c, LC=2, MAXN=8, MAXK=3, ONEKEY="TRUE", GENPRINT="FALSE"), invs=inv, view="View"), "l")
        h.sort(key=str)
        hists = random.Random(run.seed).sample(h, min(len(h), 300 if quick else 4000))
    s = replay or genutil.keys(run.seed, (500 if run.prop == "C27" else 900) if quick else 8000, run.prop, hists, lim)
    run.validate("KeyTrace", run.execute("bu", "keys", s, "keys"), "keys")


def seqs(run, build, replay, no_model):
    quick = run.tier == "quick"
    build("harness")
    if replay:
        run.validate("SeqTrace", run.execute("bh", "seq", replay, "replay"), "replay")
        return
    hists = []
    if not no_model:
        c = {"LENS": "{1, 2, 3}", "US": 4, "MAXK": 3, "MAXITEMS": 5 if quick else 6, "COMPRESS": "{FALSE}", "GENPRINT": "TRUE"}
        h = run.model(dict(module="SeqMC", consts=c, invs=["C30", "GenAll"], props=["C30live"]), "a")
        run.model(dict(module="SeqMC", consts=dict(c, COMPRESS="{TRUE, FALSE}", GENPRINT="FALSE"), invs=["C30"], view="View"), "b")
        h.sort(key=str)
        hists = random.Random(run.seed).sample(h, min(len(h), 150 if quick else 3000))
    s = genutil.seqs(run.seed, hists, 900 if quick else 6000)
    run.validate("SeqTrace", run.execute("bh", "seq", s, "seqs"), "seqs")


def ipfs(run, build, replay, no_model):
    quick = run.tier == "quick"
    build("harness-utils")
    hists = []
    if not replay and not no_model:
        c = {"D": "{1, 2}", "TOPICS": '{"a", "b"}', "MAXOPS": 4 if quick else 5, "FREE": "FALSE", "GENPRINT": "TRUE"}
        h = run.model(dict(module="IpfsMC", consts=c, invs=["C31", "GenAll"], view="View"), "a")
        run.model(dict(module="IpfsMC", consts=dict(c, FREE="TRUE", MAXOPS=3 if quick else 4, GENPRINT="FALSE"), invs=["C31"], props=["C31live"]), "b")
        h.sort(key=str)
        hists = random.Random(run.seed).sample(h, min(len(h), 200 if quick else 4000))
    s = replay or genutil.ipfs(run.seed, 500 if quick else 6000, hists)
    run.validate("IpfsTrace", run.execute("bu", "ipfs", s, "ipfs", shards=1), "ipfs")


def cli(run, build, replay, no_model):
    quick = run.tier == "quick"
    build("cli")
    build("harness-utils")
    if replay:
        run.validate("CliTrace", run.execute("bu", "cli", replay, "replay", shards=1), "replay")
        return
    hists = []
    if not no_model:
        c = {"LC": 2, "KB": 2, "SB": 2, "COUNTS": "{1, 3}", "BEFORES": "{0, 2, 3, 9}", "MAXN": 12, "MAXOPS": 3 if quick else 4, "GENPRINT": "TRUE"}
        h = run.model(dict(module="CliMC", consts=c, invs=["C32", "GenAll"], view="View"), "a")
        h.sort(key=str)
        hists = random.Random(run.seed).sample(h, min(len(h), 60 if quick else 3000))
    s = genutil.cli(run.seed, 200 if quick else 4000, hists)
    run.validate("CliTrace", run.execute("bu", "cli", s, "cli"), "cli")
    s = [{"id": "g%d" % k, "ops": [{"op": "gossip", "n": 6 if quick else 20, "flaky": f}]} for k, f in enumerate([0, 3] if quick else [0, 3, 2, 5])]
    run.validate("CliTrace", run.execute("bu", "cli", s, "gossip", shards=1), "gossip")


def all_there(runs):
    return all(r is not None for r in runs)


def decide(run, build, replay=None, no_model=False):
    p = run.prop
    if p in TREE:
        tree(run, build, replay, no_model)
    else:
        {"C12": streams, "C16": caches, "C19": norm, "C20": tagq, "C22": stores, "C28": keys, "C29": keys, "C30": seqs, "C31": ipfs, "C32": cli, "C33": multi}[p](run, build, replay, no_model)
