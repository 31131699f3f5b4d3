"""C33: the debug dump shows every callback and every object completely."""
import osm, readlib as rl
BA = {"n": ("bn", "an"), "w": ("bw", "aw"), "r": ("br", "ar")}
ALL = ["init", "bn", "n", "an", "bw", "w", "aw", "br", "r", "ar", "fin"]


def callbacks(r, objs, order):
    """Script lines for a stream of callbacks as a reader makes them (order) or any others."""
    ls = ["init"]
    for i, o in enumerate(objs):
        if order and (i == 0 or objs[i - 1]["t"] != o["t"]):
            ls.append(BA[o["t"]][0])
        if r.random() < .4:
            ls.append("et\t%d" % r.choice(osm.TSS + [1300000001]))
        ls.append(osm.line(o))
        if order and (i == len(objs) - 1 or objs[i + 1]["t"] != o["t"]):
            ls.append(BA[o["t"]][1])
    ls.append("fin")
    if not order:
        for _ in range(r.randrange(6)):
            ls.insert(r.randrange(len(ls)), r.choice(["init", "bn", "an", "bw", "aw", "br", "ar", "fin"]))
        ls = [x for i, x in enumerate(ls) if not (x.startswith("et") and ls[i + 1][0] not in "nwr")]
    return ls


def check(c):
    h = c.build("h_show.cpp")
    c.model("Show", consts={"MaxObjs": c.pick(5, 7)})
    c.model_must_fail("Show", consts={"Fault": '{"overwrite"}'})
    r = c.rnd
    scen = []
    for k in range(c.pick(900, 9000)):
        objs = [osm.robj(r, hist=True) for _ in range(r.choice([0, 1, 2, 3, 6, 12]))]
        for o in objs:
            if r.random() < .2:
                o["ts"] = str(r.choice([0, 1, 59, 60, 3599, 86399, 86400, 951782399, 951868800, 4107542399, 253402300799]))
        flag, gen, multi = r.random() < .4, r.choice(["", "x", "my%20gen", "a%0Ab", "(%29bounds=(1)"]), r.random() < .4
        b = ""
        if r.random() < .6:
            co = lambda: r.choice([r.randrange(-1800000000, 1800000001), r.choice(osm.COORDS), r.randrange(-20000000, 20000001)])
            xs, ys = sorted([co(), co()]), sorted([co(), co()])
            b = "%d,%d,%d,%d" % (xs[0], ys[0], xs[1], ys[1])
        ls = [rl.B({"e": "begin", "multi": flag}), "debug\t%s\t%d\t%s\t%s\t%d" % (r.choice(["stream", "stdout"]), flag, gen, b, multi)]
        if r.random() < .15:
            p = rl.put(c, "d%d.pbf" % k, rl.pbf_bytes(objs, r, hist=multi, P={"vis": multi}))
            ls.append("file\t%s\t%s\tpbf" % (p, "history" if multi else "osm"))
        else:
            ls += callbacks(r, objs, r.random() < .7)
        scen.append(ls + ["end"])
    run = lambda: rl.run_scenarios(c, h, scen)
    ev = run()
    c.validate("DebugTrace", ev, what="debug dump", recheck=run)
    c.cov["texts"] = sum(1 for e in ev if e["e"] == "txt")
    i = next(k for k, e in enumerate(ev) if e["e"] == "txt" and e["c"] == "r" and "visible" in e["s"] and "role=" in e["s"])
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    c.sample(ev[i])
    for w in ("role=", "visible", "user=", "version", "count="):
        c.control("DebugTrace", ev[a:i + 1], lambda t: t[i - a].__setitem__("s", t[i - a]["s"].replace(w, "x", 1)))
    c.control("DebugTrace", ev[a:i + 1], lambda t: t.insert(i - a + 1, {"e": "txt", "c": "ar", "s": "after_relations%0A"}))
    c.assumptions += ["the layout of the text is the one in the header; bounds may be shown with six significant digits"]
