"""C01: reading drives a handler through one well-formed callback sequence."""
import osm, readlib as rl


def check(c):
    h = c.build("h_io.cpp")
    c.model("MCReader", consts={"MaxLen": c.pick(4, 5)})
    gen = c.generate("MCReader", "GenReader.cfg", consts={"MaxLen": c.pick(4, 6), "Kinds": '{"all"}'})
    seqs = sorted({tuple(g["types"]) for g in gen if g["stop"] == 0})
    r = c.rnd
    scen = []

    def add(objs, types, enc, typ, kind, name):
        hist = typ != "osm"
        name += "_%d" % len(scen)
        if enc == "pbf":
            path = rl.put(c, name, rl.pbf_bytes(objs, r, hist=typ == "history", P={"vis": hist}))
            how = "pbfvis" if hist else "pbf"
        else:
            path = rl.put(c, name, osm.xml_file(objs, typ if typ != "change" else "osm", rnd=r, visattr=hist))
            how = "xmlvis" if hist else "xml"
        scen.append(rl.scenario(path, objs, typ, enc, kind, how=how))

    kinds = ["all", "mut", "br", "n", "w", "r", "obj"]
    for i, ts in enumerate(seqs):
        for enc in ("pbf", "xml"):
            for kind in (kinds if len(ts) <= 3 else ["all", r.choice(kinds)]):
                typ = r.choice(["osm", "history", "change"])
                add(rl.objs_for(ts, r, hist=typ != "osm"), ts, enc, typ, kind, "s%d_%s_%s" % (i, enc, kind))
    # long inputs: runs across many blocks, groups and read buffers
    for i in range(c.pick(6, 40)):
        ts = []
        for _ in range(r.randrange(1, 8)):
            ts += [r.choice("nwr")] * r.choice([1, 2, 50, 300])
        for enc in ("pbf", "xml"):
            typ = r.choice(["osm", "history", "change"])
            add(rl.objs_for(ts, r, hist=typ != "osm"), ts, enc, typ, r.choice(kinds), "l%d_%s" % (i, enc))
    r.shuffle(scen)
    run = lambda: rl.run_scenarios(c, h, scen)
    ev = run()
    c.validate("ReadTrace", ev, what="callback sequence of a read", recheck=run)
    c.sample([e for e in ev[:12]])

    # controls: the trace specification really rejects wrong sequences
    good = ev[:next(i for i, e in enumerate(ev) if i > 60 and e["e"] == "begin")]
    c.control("ReadTrace", good, lambda t: t.pop(next(i for i, e in enumerate(t) if e["e"] == "after")) and t)
    c.control("ReadTrace", good, lambda t: t.insert(next(i for i, e in enumerate(t) if e["e"] == "final"), {"e": "final"}) or t)
    c.assumptions += ["the input files are produced by independent Python encoders of the PBF and XML formats",
                      "PBF files with empty groups are not considered readable input"]
