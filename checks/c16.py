"""C16: the object store keeps every distinct object version, in order."""
import readlib as rl, osm, storelib as sl


def check(c):
    h = c.build("h_store.cpp")
    c.model("ObjStore", consts={"MaxOps": c.pick(3, 4), "MaxStream": 0, "Types": '{"n", "w", "r"}'}, timeout=1800)
    for f in ("abs", "replace", "noclear"):
        c.model_must_fail("ObjStore", consts={"Fault": '{"%s"}' % f, "MaxStream": 0})
    r = c.rnd
    scen = []
    for n in range(c.pick(1500, 15000)):
        ids, vers = sl.pools(r)
        ls = [rl.B({"e": "begin"}), "new"]
        types = r.choice(["nwr", "nwr", "n", "w", "r", "nw", "wr"])
        for _ in range(r.choice([1, 1, 2, 3])):
            for _ in range(r.choice([0, 1, 2, 5, 12, 40])):
                ls.append(osm.line(sl.obj(r, ids, vers, r.choice(types))))
                if r.random() < .03:
                    ls.append("clear\t" + r.choice(["n", "w", "r", "all"]))
            if r.random() < .2:
                ls.append("clear\t" + r.choice(["n", "w", "r", "all"]))
            ls.append("feed\t%s\t%s" % (r.choice("001d"), sl.meta(r)))
            if r.random() < .3:
                ls.append("feed\t0\t" + sl.meta(r))
        scen.append(ls)
    run = lambda: sl.run(c, h, scen)
    ev = run()
    c.validate("ObjStoreTrace", ev, what="object store", recheck=run)
    c.cov["objects_fed"] = sum(1 for e in ev if e["e"] == "cb" and e["c"] in "nwr")
    i = next(k for k, e in enumerate(ev) if e["e"] == "cb" and e["c"] in "nwr" and ev[k + 1].get("c") == e["c"])
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    b = next(k for k in range(i, len(ev)) if ev[k]["e"] == "begin")
    c.sample(ev[i])

    def swap(t):
        t[i - a], t[i - a + 1] = t[i - a + 1], t[i - a]
    c.control("ObjStoreTrace", ev[a:b], swap)
    c.control("ObjStoreTrace", ev[a:b], lambda t: t.pop(i - a) and None)
    c.assumptions += ["ids have a magnitude below 2^63", "between storing and feeding nobody changes a stored object"]
