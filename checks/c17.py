"""C17: merging a store into a stream yields one sorted stream with every object."""
import readlib as rl, osm, storelib as sl
BA = {"n": ("bn", "an"), "w": ("bw", "aw"), "r": ("br", "ar")}


def check(c):
    h = c.build("h_store.cpp")
    c.model("ObjStore", consts={"MaxOps": 3, "MaxStream": c.pick(1, 2), "Types": '{"n", "w", "r"}', "Vers": c.pick("{1}", "{1, 2}")}, timeout=3000)
    for f in ("abs", "absent"):
        c.model_must_fail("ObjStore", consts={"Fault": '{"%s"}' % f})
    r = c.rnd
    scen = []
    for n in range(c.pick(1500, 15000)):
        ids, vers = sl.pools(r)
        b = {"e": "begin"}
        ls = [None, "new"]
        types = r.choice(["nwr", "nwr", "n", "w", "r", "nw", "wr", "nr", ""])
        nst = 0
        for _ in range(r.choice([0, 1, 2, 5, 12]) if types else 0):
            ls.append(osm.line(sl.obj(r, ids, vers, r.choice(types))))
            nst += 1
        stream = [sl.obj(r, ids, vers, t) for t in [r.choice(r.choice(["nwr", "nwr", "n", "w", "r", "nw", "wr", "nr"])) for _ in range(r.choice([0, 1, 2, 4, 10]))]]
        stream.sort(key=lambda o: ("nwr".index(o["t"]), sl.key(o)))
        stop = r.randrange(1, nst + len(stream) + 10) if r.random() < .15 else 0
        ls.append("apply\t%d\t%s" % (stop, sl.meta(r)))
        how = r.random()
        if how < .2:   # by the real reader
            import xmllib  # noqa
            p = rl.put(c, "s%d.osh" % n, osm.xml_file(stream, "history"))
            ls.append("file\t%s\thistory\txml" % p)
        elif how < .4:
            p = rl.put(c, "s%d.pbf" % n, rl.pbf_bytes(stream, r, hist=True))
            ls.append("file\t%s\thistory\tpbf" % p)
        else:
            ls.append("init")
            for t in "nwr":
                q = [o for o in stream if o["t"] == t]
                if q or r.random() < .15:     # another store as source brackets empty types, too
                    ls += [BA[t][0]] + [osm.line(o) for o in q] + [BA[t][1]]
            ls.append("fin")
        ls.append("end")
        ls[0] = rl.B(b)
        scen.append(ls)
    run = lambda: sl.run(c, h, scen)
    ev = run()
    c.validate("ObjStoreTrace", ev, what="merging", recheck=run)
    c.cov["objects_merged"] = sum(1 for e in ev if e["e"] == "cb" and e["c"] in "nwr")
    c.cov["stopped"] = sum(1 for e in ev if e["e"] == "stop")
    i = next(k for k, e in enumerate(ev) if e["e"] == "cb" and e["c"] in "nwr" and ev[k + 1].get("c") == e["c"])
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    b = next(k for k in range(i, len(ev)) if ev[k]["e"] == "begin")
    c.sample(ev[i])

    def swap(t):
        t[i - a], t[i - a + 1] = t[i - a + 1], t[i - a]
    c.control("ObjStoreTrace", ev[a:b], swap)
    c.control("ObjStoreTrace", ev[a:b], lambda t: t.pop(i - a) and None)
    c.assumptions += ["the stream is sorted by type, then by the library's order", "the store is not changed while the handler is active"]
