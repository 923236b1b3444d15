#!/usr/bin/env python3
"""Decide one property: check.py C01 [--tier quick|thorough] [--replay SCRIPTS.ndjson]

1. model checking: TLC explores the specification with the property as invariant
2. conformance: histories generated by TLC from the specification, and random walks over the
   operations of the specification, are executed by the real code (harness, built from /repo),
   and TLC checks the recorded traces against the specification
Exit 0: held. Exit 1: VIOLATION line. Anything else: the check could not give an answer.
"""
import argparse, json, os, random, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
import plans  # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()


def say(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


class NoAnswer(Exception):
    pass


def build(pkg):
    r = subprocess.run(["bash", os.path.join(V, "tools/build.sh"), pkg], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        raise NoAnswer("harness does not build")


def write_cfg(path, consts, invs=(), props=(), view=None, spec="Spec"):
    L = ["SPECIFICATION " + spec]
    if view:
        L.append("VIEW " + view)
    if consts:
        L.append("CONSTANTS")
        L += ["  %s %s" % (k, v if v.startswith("<-") else "= " + v) for k, v in ((k, str(v)) for k, v in consts.items())]
    L += ["INVARIANT " + i for i in invs]
    L += ["PROPERTY " + p for p in props]
    L.append("CHECK_DEADLOCK FALSE")
    with open(path, "w") as f:
        f.write("\n".join(L) + "\n")


def tlc(work, module, cfg, env=None, args=(), timeout=800, workers=8, out=None):
    md = os.path.join(work, "md")
    shutil.rmtree(md, ignore_errors=True)
    cmd = ["java", "-Xss256m", "-Xmx12g", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
           "-config", cfg, "-metadir", md, *args, os.path.join(V, "spec", module + ".tla")]
    e = dict(os.environ, **(env or {}))
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        r = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoAnswer("TLC ran out of time on " + module)
    shutil.rmtree(md, ignore_errors=True)
    if out:
        with open(out, "w") as f:
            f.write(r.stdout)
    return r.returncode, r.stdout


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")
SIMSTATES = re.compile(r"The number of states generated: (\d+)")


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(V, ".work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.trans = self.traces = 0
        self.cov = {}
        self.samples = []
        self.viol = []

    # ------------------------------------------------------------ model checking
    def model(self, m, tag):
        """explore a model exhaustively; returns the histories it printed"""
        cfg = os.path.join(self.work, "mc_%s.cfg" % tag)
        write_cfg(cfg, m["consts"], m["invs"], m.get("props", ()), m.get("view"))
        rc, out = tlc(self.work, m["module"], cfg, out=os.path.join(self.work, "mc_%s.out" % tag), timeout=m.get("timeout", 800))
        g = STATES.search(out)
        if rc != 0 or not g or "No error has been found" not in out:
            print(out[-3000:])
            raise NoAnswer("the model itself breaks %s" % m["invs"])
        n, d = int(g.group(1)), int(g.group(2))
        self.states += d
        self.trans += n
        self.cov.setdefault("models", []).append({"module": m["module"], "constants": m["consts"], "checked": list(m["invs"]) + list(m.get("props", ())), "distinct_states": d, "states_generated": n})
        say("model", m["module"], tag, "distinct states", d)
        return [json.loads(json.loads(x)) for x in re.findall(r'<<"HIST", (".*")>>', out)]

    def simulate(self, m, tag, num, depth):
        cfg = os.path.join(self.work, "sim_%s.cfg" % tag)
        write_cfg(cfg, m["consts"], ["GenAll"], (), m.get("view"))
        rc, out = tlc(self.work, m["module"], cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)], workers=1,
                      out=os.path.join(self.work, "sim_%s.out" % tag))
        g = SIMSTATES.search(out)
        if rc != 0 or not g:
            print(out[-3000:])
            raise NoAnswer("simulation failed")
        h = [json.loads(json.loads(x)) for x in re.findall(r'<<"HIST", (".*")>>', out)]
        self.cov.setdefault("simulations", []).append({"module": m["module"], "states": int(g.group(1)), "histories": len(h)})
        say("simulated", m["module"], "histories", len(h))
        return h

    # ------------------------------------------------------------ the real code
    def execute(self, bin, mode, scripts, tag, shards=6):
        """run scripts, return the list of traces; crashes and hangs are violations"""
        shards = max(1, min(shards, len(scripts) // 20 + 1))
        parts = [scripts[i::shards] for i in range(shards)]
        procs = []
        for i, p in enumerate(parts):
            s = os.path.join(self.work, "s_%s_%d.nd" % (tag, i))
            o = os.path.join(self.work, "t_%s_%d.nd" % (tag, i))
            with open(s, "w") as f:
                for x in p:
                    f.write(json.dumps(x) + "\n")
            log = open(os.path.join(self.work, "r_%s_%d.log" % (tag, i)), "w")
            procs.append((p, o, log.name, subprocess.Popen([os.path.join(V, ".build/debug", bin), mode, s, o], stdout=log, stderr=log,
                                                           cwd=self.work)))
        out = []
        for p, o, log, pr in procs:
            try:
                rc = pr.wait(timeout=700)
            except subprocess.TimeoutExpired:
                for q in procs:
                    q[3].kill()
                raise NoAnswer("harness ran out of time")
            lines = open(o).read().split("\n")
            done = []
            for l in lines:
                try:
                    done.append(json.loads(l))
                except ValueError:
                    pass
            txt = open(log, errors="replace").read()
            if rc != 0 or "DONE" not in txt:
                if rc == -9 and "HANG" not in txt:
                    raise NoAnswer("harness was killed")
                if "NO PORT" in txt:
                    raise NoAnswer("port 5001 is in use")
                k = len(done)
                say("the code crashed or hung:", txt[-600:])
                if k < len(p):
                    self.violation(p[k], "crash or hang (exit %s)" % rc)
            out += list(zip(p, done))
        return out

    def violation(self, script, what, many=None):
        path = os.path.join(self.work, "replay-%d.nd" % len(self.viol))
        with open(path, "w") as f:
            for s in (many or [script]):
                f.write(json.dumps(s) + "\n")
        self.viol.append((path, what))

    # ------------------------------------------------------------ validation
    def validate(self, module, pairs, tag, size=lambda t: len(t["ev"]) + 1, consts=None, chunk=1500):
        """check recorded traces against the specification"""
        for c in range(0, len(pairs), chunk):
            part = pairs[c:c + chunk]
            tf = os.path.join(self.work, "trace_%s_%d.nd" % (tag, c))
            with open(tf, "w") as f:
                for s, t in part:
                    f.write(json.dumps(t) + "\n")
            cfg = os.path.join(self.work, "tr_%s.cfg" % tag)
            write_cfg(cfg, dict({"PROP": '"%s"' % self.prop}, **(consts or {})), ["Conforms"])
            rc, out = tlc(self.work, module, cfg, env={"TRACE": tf}, out=os.path.join(self.work, "tr_%s_%d.out" % (tag, c)))
            byid = {str(t["id"]): s for s, t in part}
            seen = set()
            for m in re.finditer(r'<<"BROKEN", "([^"]*)", (\d+), (.*)', out):
                if m.group(1) in seen:
                    continue
                seen.add(m.group(1))
                self.violation(byid[m.group(1)], "event %s of %s: %s" % (m.group(2), m.group(1), m.group(3)[:300]))
            g = STATES.search(out)
            want = sum(size(t) for _, t in part)
            if rc != 0 or not g:
                if seen:
                    continue
                if "OutOfMemory" in out or "StackOverflow" in out:
                    raise NoAnswer("TLC ran out of memory")
                print(out[-3000:])
                # the specification can not make sense of what was recorded
                self.violation(None, "recorded trace is outside of the specification", [s for s, _ in part])
                continue
            if int(g.group(2)) != want and not seen:
                print(out[-2000:])
                raise NoAnswer("validated %s states instead of %d" % (g.group(2), want))
            self.states += int(g.group(2))
            self.trans += int(g.group(1))
            self.traces += len(part)
            os.remove(tf)
        say("validated", tag, len(pairs), "traces")
        if pairs and len(self.samples) < 4:
            self.samples.append({"script": min((s for s, _ in pairs[:50]), key=lambda s: len(json.dumps(s)))})

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": dict({"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
                                "samples": self.samples}, **self.cov),
              "assumptions": plans.ASSUMPTIONS + plans.PLANS[self.prop].get("assumptions", []),
              "wall_s": round(time.time() - T0, 1), "violations": len(self.viol)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def known(prop):
    """findings which are listed (and not repaired): (prop, text)"""
    p = os.path.join(V, "KNOWN_FINDINGS")
    out = []
    for l in open(p):
        m = re.match(r"known: property=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            out.append(m.group(2).strip())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--no-model", action="store_true")
    a = ap.parse_args()
    run = Run(a.prop, a.tier, a.seed)
    try:
        plans.decide(run, build, replay=a.replay and [json.loads(l) for l in open(a.replay)], no_model=a.no_model)
    except NoAnswer as e:
        if not run.viol:
            print("NO ANSWER:", e)
            sys.exit(2)
    run.finish()
    for k in known(a.prop):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k))
    for p, w in run.viol[:5]:
        print("VIOLATION property=%s replay=%s" % (a.prop, p))
        print("   ", w)
    say("violations:", len(run.viol))
    sys.exit(1 if run.viol else 0)


main()
