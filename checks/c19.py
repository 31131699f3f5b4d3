"""C19: a relation is handed over complete exactly once, with its own members."""
import readlib as rl, osm
BA = {"n": ("bn", "an"), "w": ("bw", "aw"), "r": ("br", "ar")}
COMBOS = ["n", "w", "r", "nw", "nr", "wr", "nwr"]


def scenario(c, r, n, big=False):
    want = COMBOS[n % 7]
    pool = r.choice([[1, 2, 3], [1, 2, 3, 4, 5, 6, 7, 8], [0, 1, -1, 2**31, 2**32 + 1, 2 + 2**32, -2**32, 2**63 - 1]])
    if big:
        pool = list(range(300))
    types = r.choice(["nwr", want, want, want[:1]])
    kw = .9 if r.random() < .7 else .5
    rels = []
    ids = list(pool)
    r.shuffle(ids)
    for k in range(min(len(ids), r.choice([0, 1, 2, 3, 6]) if not big else 200)):
        o = osm.robj(r, "r", hist=True, maxn=1)
        o["id"], o["vis"] = str(ids[k]), r.random() < .85
        mem = []
        for _ in range(r.choice([0, 1, 2, 3, 5, 9])):
            mem.append([r.choice(types), str(r.choice(pool)), ("y" if r.random() < kw else "n") + r.choice(["", "outer"])])
            if r.random() < .2:
                mem.append([mem[-1][0], mem[-1][1], r.choice(["y", "yy", "n"])])
        if want != "nwr" and r.random() < .7:      # mostly what can come
            for m in mem:
                if m[0] not in want:
                    m[2] = "n"
        o["mem"] = mem
        rels.append(o)
    rels.sort(key=lambda o: (abs(int(o["id"])), int(o["id"])))
    # the objects: everything that is referenced with high probability, and others
    full = r.choice([1, 1, .9, .6, 0])
    stream = []
    have = set()
    for o in rels:
        for t, i, _ in o["mem"]:
            if t != "r" and (t, i) not in have and r.random() < full:
                have.add((t, i))
    for t in "nw":
        for i in pool:
            if r.random() < .2:
                have.add((t, str(i)))
    skip = r.choice(["", "", "", "n", "w", "r"])
    for t, i in sorted(have):
        if t not in skip:
            o = osm.robj(r, t, hist=True, maxn=1)
            o["id"] = i
            stream.append(o)
    if skip != "r" or r.random() < .7:
        stream += rels
    stream.sort(key=lambda o: ("nwr".index(o["t"]), abs(int(o["id"])), int(o["id"])))
    if r.random() < .1 and stream:      # several versions of an object
        for o in r.sample([o for o in stream if o["t"] != "r"] or [None], 1) * r.choice([1, 2]):
            if o:
                stream.insert(stream.index(o), dict(o, v=str(r.randrange(10**6))))
    stop = r.randrange(1, len(stream) + 9) if r.random() < .08 else 0
    clean = r.random() < .5
    ls = [rl.B({"e": "begin", "want": list(want), "clean": clean}), "asm\t%s\t%d\t%d" % (want, stop, clean)]
    how = r.random()
    if how < .15 and not any(int(o["id"]) < 0 for o in stream):
        p = rl.put(c, "s%d.osh" % n, osm.xml_file(stream, "history"))
        ls += ["file\t%s\thistory\txml" % p, "end"] + ["file\t%s\thistory\txml" % p, "end"]
        if not any(o["t"] == "r" for o in stream):
            pass
        return ls
    if how < .3:
        p = rl.put(c, "s%d.pbf" % n, rl.pbf_bytes(stream, r, hist=True))
        return ls + ["file\t%s\thistory\tpbf" % p, "end"] * 2
    p1 = ["init"]
    if rels:
        p1 += ["br"] + [osm.line(o) for o in rels] + ["ar"]
    p2 = ["init"]
    for t in "nwr":
        q = [o for o in stream if o["t"] == t]
        if q:
            p2 += [BA[t][0]] + [osm.line(o) for o in q] + [BA[t][1]]
    return ls + p1 + ["fin", "end"] + p2 + ["fin", "end"]


def check(c):
    h = c.build("h_asm.cpp")
    if c.thorough:
        c.model("Assembler", timeout=3000)
        c.model("Assembler", consts={"NRel": 1, "MaxMem": 3}, timeout=3000)
    else:
        c.model("Assembler", consts={"NRel": 1})
        c.model("Assembler", consts={"MaxMem": 1})
    for f in ("firstonly", "early", "noavail"):
        c.model_must_fail("Assembler", consts={"Fault": '{"%s"}' % f, "NRel": 1})
    r = c.rnd
    scen = [scenario(c, r, n) for n in range(c.pick(1400, 14000))] + [scenario(c, r, n, True) for n in range(c.pick(3, 30))]
    run = lambda: rl.run_scenarios(c, h, scen)
    ev = run()
    c.validate("AssemblerTrace", ev, what="relation assembly", recheck=run)
    n = lambda k: sum(1 for e in ev if e["e"] == k)
    c.cov["relations"] = {k: n(k) for k in ("rel", "complete", "notin", "avail", "stop")}
    i = next(k for k, e in enumerate(ev) if e["e"] == "complete")
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    b = next(k for k in range(i, len(ev)) if ev[k]["e"] == "begin")
    c.sample(ev[i])
    c.control("AssemblerTrace", ev[a:b], lambda t: t.pop(i - a) and None)
    c.control("AssemblerTrace", ev[a:b], lambda t: t.insert(i - a, t[i - a]))

    def wrong(t):
        m = t[i - a]["members"]
        k = next(k for k, x in enumerate(m) if x)
        m[k] = dict(m[k], v="424242")
    c.control("AssemblerTrace", ev[a:b], wrong)
    c.assumptions += ["both passes see the same relations, every object occurs once in the second pass, objects of one type are adjacent (as in OSM files)"]
