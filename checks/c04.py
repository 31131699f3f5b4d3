"""C04: what is written as PBF reads back as the same objects."""
import os
import osm, readlib as rl, writelib as wl


def check(c):
    h = c.build("h_io.cpp")
    c.model("PbfWriter", consts={"MaxObjs": c.pick(4, 5)}, timeout=1500)
    c.model_must_fail("PbfWriter", consts={"MaxObjs": 4, "Reset": '{"strings"}'})
    cases = wl.pbf_cases(c)
    cases += [wl.many_strings(c, True), wl.big_block(c, True), wl.big_texts(c, c.rnd.random() < .5)]
    if c.thorough:
        cases += [wl.many_strings(c, False), wl.big_block(c, False)]

    def record():
        scripts = []
        for k, (objs, typ, o, f) in enumerate(cases):
            path = os.path.join(c.tmp, "w%d.pbf" % k)
            b = rl.begin(objs, how=wl.pbf_how(typ, f), mode="type", multi=typ != "osm", gen=f["gen"], bounds=f["bounds"], opts=o)
            scripts.append([rl.B(b)] + wl.write_cmds(path, objs, typ, "pbf", o) + rl.read_cmds(path, typ, "pbf", c.rnd.choice(["all", "mut"])))
        ev = rl.run_scenarios(c, h, scripts)
        for e in ev:
            if "o" in e:
                e["o"] = wl.shorten(e["o"])
        for k in range(len(cases)):
            p = os.path.join(c.tmp, "w%d.pbf" % k)
            if os.path.exists(p):
                os.unlink(p)
        return ev
    record = c.repeat(record)
    ev = record()
    c.validate("ReadTrace", ev, what="PBF round trip", recheck=record, heap="10g")
    c.cov["objects"] = sum(1 for e in ev if e["e"] == "obj")
    i = next(k for k, e in enumerate(ev) if e["e"] == "obj" and e["o"]["tags"])
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    b = next(k for k in range(i, len(ev)) if ev[k]["e"] == "begin")
    c.sample(ev[a:b][:8])

    def lost(t):
        k = next(k for k, e in enumerate(t) if e["e"] == "obj")
        t.pop(k)
    c.control("ReadTrace", ev[a:b], lost)

    def changed(t):
        e = next(e for e in t if e["e"] == "obj")
        e["o"]["cs"] = e["o"]["cs"] + "1"
    c.control("ReadTrace", ev[a:b], changed)
    c.assumptions += ["texts over 1500 bytes are compared by hash", "values are chosen representable in the granularities used"]
