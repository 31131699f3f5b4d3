"""C02: a stop signal ends reading at once with exactly one final call."""
import gzip, bz2
import osm, readlib as rl


def check(c):
    h = c.build("h_io.cpp")
    c.model("MCReader", consts={"MaxLen": c.pick(4, 5)})
    gen = c.generate("MCReader", "GenReader.cfg", consts={"MaxLen": c.pick(4, 5), "Kinds": '{"all"}'})
    r = c.rnd
    by = {}
    for g in gen:
        if g["stop"]:
            by.setdefault(tuple(g["types"]), []).append(g["stop"])
    scen = []
    n = 0

    def add(objs, stops, enc, typ, kind="all", z=None):
        nonlocal n
        n += 1
        hist = typ != "osm"
        if enc == "pbf":
            path = rl.put(c, "f%d.pbf" % n, rl.pbf_bytes(objs, r, hist=typ == "history", P={"vis": hist}))
            how, e = ("pbfvis" if hist else "pbf"), "pbf"
        else:
            data = osm.xml_file(objs, typ if typ != "change" else "osm", rnd=r, visattr=hist)
            if z == "gz":
                data = gzip.compress(data)
            elif z == "bz2":
                data = bz2.compress(data)
            path = rl.put(c, "f%d.osm" % n, data)
            how, e = ("xmlvis" if hist else "xml"), "xml" + (z or "")
        lines = []
        for st in stops:
            lines += rl.scenario(path, objs, typ, e, kind, st, how=how, keeps=r.choice(["", "10", "1"]))
        # a later complete read of the same file is unaffected
        lines += rl.scenario(path, objs, typ, e, "all", 0, how=how)
        scen.append(lines)

    for ts, stops in sorted(by.items()):
        for enc in ("pbf", "xml"):
            typ = r.choice(["osm", "history", "change"])
            add(rl.objs_for(ts, r, hist=typ != "osm"), stops, enc, typ, r.choice(["all", "mut"]))
    for i in range(c.pick(10, 60)):  # long files, compressed files (the child must be reaped)
        ts = []
        for _ in range(r.randrange(1, 6)):
            ts += [r.choice("nwr")] * r.choice([1, 3, 40, 200])
        total = len(ts) + 2 * sum(1 for k, t in enumerate(ts) if k == 0 or ts[k - 1] != t) + 2
        stops = sorted({r.randrange(1, total) for _ in range(4)} | {total - 1, 1, 2})
        typ = r.choice(["osm", "history", "change"])
        for enc, z in (("pbf", None), ("xml", None), ("xml", "gz"), ("xml", "bz2")):
            add(rl.objs_for(ts, r, hist=typ != "osm"), stops, enc, typ, "all", z)
    # handlers that see only some callbacks: stop in each of those
    for kind in ("n", "w", "r", "br"):
        for ts in ("nnwwr", "rnw", "wnwn", "n", ""):
            ts = list(ts)
            runs = [k for k, t in enumerate(ts) if k == 0 or ts[k - 1] != t]
            total = 2 + 2 * len(runs) + sum(1 for t in ts if t == kind)
            for enc in ("pbf", "xml"):
                add(rl.objs_for(ts, r), range(1, total), enc, "osm", kind)
    r.shuffle(scen)
    run = lambda: rl.run_scenarios(c, h, scen)
    ev = run()
    c.validate("ReadTrace", ev, what="stop signal during a read", recheck=run)
    stopped = [i for i, e in enumerate(ev) if e["e"] == "stop"]
    c.cov["stops"] = len(stopped)
    i = stopped[3]
    c.sample(ev[max(0, i - 6):i + 4])
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    b = next((k for k in range(i, len(ev)) if ev[k]["e"] == "begin"), len(ev))
    sc = ev[a:b]
    j = next(k for k, e in enumerate(sc) if e["e"] == "stop")
    c.control("ReadTrace", sc, lambda t: t.pop(j + 1) and t)                      # no final
    c.control("ReadTrace", sc, lambda t: t.insert(j + 1, {"e": "after", "t": "n"}) or t)  # callback after stop
    c.assumptions += ["the stop signal is Osmium::Handler::StopReading thrown from the callback",
                      "input files come from independent Python encoders"]
