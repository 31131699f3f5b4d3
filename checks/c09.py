"""C09: a file of the wrong kind is refused before any object is delivered."""
import gzip
import osm, pbf, readlib as rl


def check(c):
    h = c.build("h_io.cpp")
    c.model("FileKind", consts={"MaxLen": c.pick(4, 6)})
    c.model_must_fail("FileKind", consts={"Fault": '{"last"}'})
    r = c.rnd
    gen = c.generate("FileKind", "FileKindGen.cfg", consts={"MaxLen": c.pick(3, 4)})
    scen = []
    odd = ["Sort.Type_then_ID", "OsmSchema-V0.7", "densenodes", "DenseNodes2", "DenseNode", "HistoricalInformation ", "", "LocationsOnWays", "OsmSchema-V0.60", "Historical"]
    for g in sorted(gen, key=repr):
        fs = list(g["fs"])
        if "OsmSchema-V0.6" not in fs and g["out"] in ("ok", "osm", "history") and fs:
            continue
        if not fs:
            continue
        for k in range(2):
            feats = [f if f != "Sort.Type_then_ID" else r.choice(odd) for f in fs]
            hist = "HistoricalInformation" in feats
            objs = [osm.robj(r, hist=hist) for _ in range(r.choice([0, 1, 1, 3]))]
            hd = pbf.encode_header(feats, optional=r.choice([(), ("Has_Metadata",), ("Sort.Type_then_ID", "x"), ("HistoricalInformation",)]))
            data = rl.pbf_bytes(objs, r, hist=hist, P={"vis": hist}, header=hd)
            path = rl.put(c, "k%d.pbf" % len(scen), data)
            typ = g["typ"]
            out = g["out"]
            how = "same"
            if not hist:
                how = "pbf"
            scen.append(rl.scenario(path, objs, typ, "pbf", r.choice(["all", "mut", "obj"]), 0, how=how, out=out, feats=feats))
    # XML versions
    for ver, out in (("0.6", "ok"), ("0.5", "std"), ("0.7", "std"), ("1", "std"), ("", "std"), ("0.60", "std"), (" 0.6", "std"), ("0.6.1", "std"), ("6", "std"), ("0,6", "std"), ("00.6", "std"), ("0.6 ", "std")):
        for root in ("osm", "osmChange"):
            for typ in ("osm", "history", "change"):
                for place in ("before", "after", "alone"):
                    for n in (0, 2):
                        objs = [osm.robj(r) for _ in range(n)]
                        g = ' generator="g"'
                        data = "<%s%s version=\"%s\"%s>\n" % (root, g if place == "after" else "", ver, g if place == "before" else "")
                        data = ("<?xml version=\"1.0\"?>\n" + data + "".join(osm.xml_obj(o, rnd=r) for o in objs) + "</%s>" % root).encode()
                        z = len(scen) % 5 == 0
                        path = rl.put(c, "v%d" % len(scen), gzip.compress(data) if z else data)
                        scen.append(rl.scenario(path, objs, typ, "xmlgz" if z else "xml", r.choice(["all", "obj"]), 0, how="xml", out=out,
                                                gen="g" if place != "alone" else "", ver=ver.replace(" ", "_")))
    r.shuffle(scen)
    run = lambda: rl.run_scenarios(c, h, scen)
    ev = run()
    c.validate("ReadTrace", ev, what="file kinds", recheck=run)
    c.cov["refused"] = sum(1 for e in ev if e["e"] == "throw")
    i = next(k for k, e in enumerate(ev) if e["e"] == "throw" and e["x"] == "osm")
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    b = next(k for k in range(i, len(ev)) if ev[k]["e"] == "begin")
    c.sample(ev[a:b])

    def other(t):
        next(e for e in t if e["e"] == "throw")["x"] = "history"
    c.control("ReadTrace", ev[a:b], other)
    c.control("ReadTrace", ev[a:b], lambda t: [e.update(e="final") for e in t if e["e"] == "throw"] and t)
    c.assumptions += ["every accepted file announces OsmSchema-V0.6, as the format requires"]
