"""C15: ways get the coordinates of exactly their nodes."""
import osm, readlib as rl
INC = 10 * 1024 * 1024
KINDS = ["fixed", "anon", "file", "sparse", "map", "vec"]


def mags(kind):
    if kind == "fixed":
        return [0, 1, 2, 3, 7, 99999]
    p = [0, 1, 2, 3, 7, 9999, 10000, INC - 1, INC, INC + 1, 3 * INC]
    return p + ([2**31, 2**32 + 1, 2**32 + 2, 2**62, 2**63 - 1] if kind in ("map", "vec") else [2**26] if kind == "sparse" else [2**28])


def check(c):
    h = c.build("h_coords.cpp")
    c.model("Coords", consts={"MaxOps": c.pick(4, 5)}, timeout=1800)
    for f in ("onestore", "zeroneg"):
        c.model_must_fail("Coords", consts={"Fault": '{"%s"}' % f})
    r = c.rnd
    scen = []
    for n in range(c.pick(1200, 12000)):
        kp, kn = KINDS[n % 6], KINDS[n // 6 % 6]
        pools = {1: mags(kp), -1: mags(kn)}
        full = {s: k in ("vec", "sparse") for s, k in ((1, kp), (-1, kn))}    # may be asked for unknown ids
        ls = [rl.B({"e": "begin", "pos": kp, "neg": kn}), "new\t%s\t%s" % (kp, kn)]
        known = []
        want = []
        for _ in range(r.choice([1, 2, 3, 10, 25])):
            s = r.choice([1, 1, -1])
            m = r.choice(pools[s]) if r.random() < .6 else r.randrange(1, 30)
            if s < 0 and m == 0:
                continue
            want.append(s * m)
            if r.random() < .4 and m:       # equal magnitude, opposite sign
                if m in pools[-s] or m < 30:
                    want.append(-s * m)
        if "vec" in (kp, kn):
            want.sort(key=abs)
        for k, i in enumerate(want):
            for _ in range(r.choice([1, 1, 1, 2])):
                o = osm.robj(r, "n")
                o["id"] = str(i)
                ls.append(osm.line(o))
            known.append(i)
            if r.random() < .2 or k == len(want) - 1:
                for _ in range(r.choice([1, 2])):
                    w = osm.robj(r, "w")
                    refs = []
                    for _ in range(r.choice([0, 1, 2, 5, 12])):
                        if r.random() < .25:
                            u = r.choice([1, -1]) * r.choice(pools[1] + [5, 6, 29])
                            if full[1 if u >= 0 else -1]:
                                refs.append(u)
                                continue
                        refs.append(r.choice(known))
                    w["nodes"] = [str(x) for x in refs]
                    ls.append(osm.line(w) + ("\told" if r.random() < .3 else ""))
            if r.random() < .2:
                ls.append("get\t%d" % r.choice(known))
            if r.random() < .05:
                ls.append(osm.line(osm.robj(r, "r")))
        ls += ["get\t%d" % i for i in r.sample(known, min(4, len(known)))]
        for s in (1, -1):
            if full[s]:
                ls += ["get\t%d" % (s * m) for m in r.sample(pools[s] + [4, 5], 2) if s > 0 or m]
        scen.append(ls)
    run = lambda: rl.run_scenarios(c, h, scen)
    ev = run()
    c.validate("CoordsTrace", ev, what="way coordinates", recheck=run)
    c.cov["references"] = sum(len(e["pos"]) for e in ev if e["e"] == "way")
    i = next(k for k, e in enumerate(ev) if e["e"] == "way" and len(e["pos"]) > 1)
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    b = next(k for k in range(i, len(ev)) if ev[k]["e"] == "begin")
    c.sample(ev[i])

    def shift(t):
        e = next(e for e in t if e["e"] == "way" and len(e["pos"]) > 1)
        e["pos"][0] = [e["pos"][0][0] - 1, e["pos"][0][1]]
    c.control("CoordsTrace", ev[a:b], shift)
    c.control("CoordsTrace", ev[a:b], lambda t: next(e for e in t if e["e"] == "way")["after"].update(v="4242"))
    c.assumptions += ["ids have a magnitude below 2^63; stores that do not report unset ids are not asked for them (C14, C37 do that)", "the vector store gets ids in ascending order of magnitude"]
