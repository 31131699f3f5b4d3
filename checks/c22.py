"""C22: a bounding box is the tightest box around the defined positions seen."""
import osm, readlib as rl
U = 2147483647
BA = {"n": ("bn", "an"), "w": ("bw", "aw"), "r": ("br", "ar")}
X = [0, 1, -1, 5, -5, 1800000000, -1800000000, 1799999999, 2**31 - 2, -2**31, 123456789]


def check(c):
    h = c.build("h_bounds.cpp")
    c.model("Bounds", consts={"MaxLen": c.pick(5, 7), "Coords": c.pick("{1, 2, 3}", "{1, 2, 3, 4}")}, coverage=False, timeout=1800)
    for f in ("undef", "half", "elseif", "nostop"):
        c.model_must_fail("Bounds", consts={"Fault": '{"%s"}' % f})
    r = c.rnd
    scen = []
    co = lambda: r.choice(X) if r.random() < .5 else r.randrange(-1800000000, 1800000001) if r.random() < .7 else r.randrange(-3, 4)
    for n in range(c.pick(2500, 25000)):
        ls = [rl.B({"e": "begin"})]
        if n % 2:
            for _ in range(r.choice([0, 1, 2, 3, 5, 10, 30])):
                x, y = co(), co()
                if r.random() < .15:
                    x, y = r.choice([(U, U), (x, U), (U, y)])
                ls.append("ext\t%d\t%d\t%s" % (x, y, r.choice(["", "", "chain", "copy"])))
        else:
            types = "".join(r.choice(["n" * r.choice([1, 2, 5, 20]), "w", "r"]) for _ in range(r.choice([0, 1, 2, 3, 4])))
            objs = []
            for t in types:
                o = osm.robj(r, t, hist=True, maxn=2)
                if t == "n":
                    o["x"], o["y"] = min(co(), 1800000000), max(min(co(), 900000000), -900000000)
                    if r.random() < .15:
                        o["x"] = o["y"] = U
                objs.append(o)
            ls.append("read")
            how = r.random()
            if how < .3:
                ls.append("file\t%s\thistory\txml" % rl.put(c, "b%d.osm" % n, osm.xml_file(objs, "history")))
            elif how < .6:
                ls.append("file\t%s\thistory\tpbf" % rl.put(c, "b%d.pbf" % n, rl.pbf_bytes(objs, r, hist=True, P={"vis": True})))
            else:
                ls.append("init")
                for i, o in enumerate(objs):
                    if i == 0 or objs[i - 1]["t"] != o["t"]:
                        ls.append(BA[o["t"]][0])
                    ls.append(osm.line(o))
                    if i == len(objs) - 1 or objs[i + 1]["t"] != o["t"]:
                        ls.append(BA[o["t"]][1])
                ls.append("fin")
            ls.append("end")
        scen.append(ls)
    run = lambda: rl.run_scenarios(c, h, scen)
    ev = run()
    c.validate("BoundsTrace", ev, what="bounds", recheck=run)
    c.cov["positions"] = sum(1 for e in ev if e["e"] == "ext") + sum(1 for e in ev if e["e"] == "in" and e["c"] == "n")
    i = next(k for k, e in enumerate(ev) if e["e"] == "ext" and e["box"] and e["box"][0] < e["box"][2])
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    c.sample(ev[i])
    for k in range(4):
        c.control("BoundsTrace", ev[a:i + 1], lambda t: t[i - a]["box"].__setitem__(k, t[i - a]["box"][k] + 1))
    j = next(k for k, e in enumerate(ev) if e["e"] == "in" and e["c"] == "an")
    a = max(k for k in range(j) if ev[k]["e"] == "begin")
    c.control("BoundsTrace", ev[a:j + 4], lambda t: t.insert(j - a + 1, {"e": "in", "c": "bw"}))
    c.assumptions += ["coordinates are any 32 bit numbers; 2147483647 means undefined"]
