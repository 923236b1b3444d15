#!/usr/bin/env python3
"""Made once, from the original commit: mkfixtures.py BH DIR, where BH is the harness built against it.

The files in /verif/fixtures are streams as that build wrote them. They are not regenerated."""
import json, os, random, subprocess, sys, tempfile
import gen


def main(bh, to):
    gen.PROFILES["FX"] = dict(muts=dict(extend=6, extend_unpacked=3, pack=2, retain=0.8), reads=[], nr=0, links=True,
                              cfgs=["small", "small", "mus", "mus", "tls"])
    r = random.Random("fixtures")
    out = []
    for i in range(14):
        s = gen.walk(r, "f%02d" % i, "FX", 8)
        s["cfg"].update(ik=10 + i, vk=40 + i if i % 4 else 10 + i, zl=r.choice([1, 3, 10]))
        out.append(s)
    # leaves and branches of realistic sizes
    x = gen.Ctx(r, gen.SIZES["tls"], True)
    out.append({"id": "wide", "cfg": dict(lc=60, kb=20, sb=4, ik=7, vk=8, zl=3), "ops": [{"op": "extend", "els": x.els(200)}, {"op": "extend", "els": x.els(45)}]})
    x = gen.Ctx(r)
    out.append({"id": "bush", "cfg": dict(lc=1, kb=66, sb=2), "ops": [{"op": "extend", "els": x.els(140)}]})
    with tempfile.NamedTemporaryFile("w", suffix=".nd") as f:
        f.write("".join(json.dumps(s) + "\n" for s in out))
        f.flush()
        os.makedirs(to, exist_ok=True)
        subprocess.run([bh, "dump", f.name, to], check=True)


main(*sys.argv[1:])
