"""C03: kept objects never change, nothing leaks into later objects."""
import itertools
import osm, readlib as rl


def check(c):
    h = c.build("h_io.cpp")
    c.model("Recycle", consts={"MaxLen": c.pick(4, 5)})
    r = c.rnd
    scen = []

    def add(objs, enc, typ, keeps, kind="mut"):
        n = len(scen)
        hist = typ != "osm"
        if enc == "pbf":
            path = rl.put(c, "f%d" % n, rl.pbf_bytes(objs, r, hist=typ == "history", P={"vis": hist}))
            how = "pbfvis" if hist else "pbf"
        elif typ == "change":
            secs = [("delete" if not o["vis"] else r.choice(["create", "modify"]), 1) for o in objs]
            path = rl.put(c, "f%d" % n, osm.xml_file(objs, "change", rnd=r, visattr=False, sections=secs))
            how = "xmlvis"
        else:
            path = rl.put(c, "f%d" % n, osm.xml_file(objs, typ, rnd=r))
            how = "xmlvis" if hist else "xml"
        scen.append(rl.scenario(path, objs, typ, enc, kind, 0, keeps, how=how))

    def rich(t, k):
        kw = dict(v=5, ts=1300000000 + k, cs=77, uid=12, user="rich%d" % k, vis=False, tags=[("k%d" % i, "v%d" % k) for i in range(5)])
        if t == "n":
            kw.update(x=123 + k, y=456)
        elif t == "w":
            kw.update(nodes=[1, 2, 3, k])
        else:
            kw.update(mem=[("n", 1, "a"), ("w", k, "b")])
        return osm.obj(t, 10 + k, **kw)

    def bare(t, k):
        return osm.obj(t, k, v=0, ts=0, cs=0, uid=-1, user="", vis=True)
    # every keep pattern over every rich/bare alternation: 4 objects of one type
    for t in "nwr":
        for pat in itertools.product("rb", repeat=4):
            for keeps in ("".join(k) for k in itertools.product("01", repeat=4)):
                if (pat.count("r") in (0, 4)) and not c.thorough:
                    continue
                objs = [rich(t, k) if p == "r" else bare(t, k) for k, p in enumerate(pat)]
                enc = "pbf" if (len(scen) % 4 == 0) or c.thorough and len(scen) % 2 else "xml"
                add(objs, enc, r.choice(["history", "change"]), keeps, r.choice(["all", "mut"]))
    # mixed types and long histories
    for i in range(c.pick(40, 300)):
        n = r.choice([5, 10, 40])
        typ = r.choice(["osm", "history", "change"])
        objs = [osm.robj(r, hist=typ != "osm") for _ in range(n)]
        objs = [o if r.random() < .7 else bare(o["t"], r.randrange(100)) for o in objs]
        add(objs, r.choice(["pbf", "xml", "xml"]), typ, r.choice(["1", "10", "01", "0001", "1110", "".join(r.choice("01") for _ in range(9))]),
            r.choice(["all", "mut"]))
    r.shuffle(scen)
    run = lambda: rl.run_scenarios(c, h, scen)
    ev = run()
    c.validate("ReadTrace", ev, what="kept and recycled objects", recheck=run)
    c.cov["kept_objects_rechecked"] = sum(1 for e in ev if e["e"] == "recheck")
    i = next(k for k, e in enumerate(ev) if e["e"] == "recheck")
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    b = next((k for k in range(i, len(ev)) if ev[k]["e"] == "begin"), len(ev))
    c.sample(ev[a:b][:14])

    def leak(t):
        e = next(e for e in t if e["e"] == "recheck")
        e["o"]["tags"] = e["o"]["tags"] + [["x", "y"]]
    c.control("ReadTrace", ev[a:b], leak)

    def stale(t):
        e = next(e for e in t if e["e"] == "obj")
        e["o"]["user"] = "stale"
    c.control("ReadTrace", ev[a:b], stale)
    c.assumptions += ["handlers keep objects through the shared_ptr they are given"]
