"""C23: handler stacks deliver every callback to every handler exactly once, in order."""
import os, re
import vf, osm, readlib as rl
BA = {"n": ("bn", "an"), "w": ("bw", "aw"), "r": ("br", "ar")}
SEES = {"M": ["all"], "C": ["all"], "Q": [], "N": ["n", "aw", "r", "fin"]}


def trees():
    return re.findall(r'TREE\("([^"]+)"', open(os.path.join(vf.VERIF, "harness", "trees.inc")).read())


def parse(s, cnt, mut):
    """tree text -> tree for the specification; returns (tree, rest)"""
    k = s[0]
    if k in "FS":
        s = s[2:]
        a, s = parse(s, cnt, mut)
        sub = [a]
        if k == "S":
            b, s = parse(s[1:], cnt, mut)
            sub.append(b)
        return {"k": k, "sub": sub}, s[1:]
    if k == "P":   # a forward with callbacks of its own: a leaf of its own before the next one
        cnt[0] += 2
        mut.append(None)
        mut.append(True)
        return {"k": "S", "sub": [leaf(cnt[0] - 1, ["w", "br"]), leaf(cnt[0], ["all"])]}, s[1:]
    cnt[0] += 1
    mut.append(k == "M" or None)
    return leaf(cnt[0], SEES[k]), s[1:]


def leaf(n, sees):
    return {"k": "L", "h": n, "sees": sees, "mut": False, "sub": []}


def setmut(t, bits):
    if t["k"] == "L":
        t["mut"] = bits[t["h"] - 1] == "1"
    for x in t["sub"]:
        setmut(x, bits)


def check(c):
    h = c.build("h_tree.cpp")
    c.model("MCTree", consts={"Depth": 3}, timeout=1800)
    for f in ("swap", "drop", "twice", "copy", "both"):
        c.model_must_fail("MCTree", consts={"Fault": '{"%s"}' % f, "Depth": 2})
    r = c.rnd
    ts = trees()
    scen = []
    for n in range(c.pick(2700, 27000)):
        name = ts[n % len(ts)]
        cnt, mut = [0], []
        tree, rest = parse(name, cnt, mut)
        assert rest == ""
        bits = "".join("1" if m and r.random() < .6 else "0" for m in mut)
        setmut(tree, bits)
        meta = "%s\t%s\t%d" % (r.choice(["", "gen"]), r.choice(["", "-10,-20,30,40"]), r.random() < .5)
        objs = [osm.robj(r, t, hist=True, maxn=2) for t in r.choice(["", "n", "nw", "nnwwrr", "wr", "nwr", "rwn", "nrn", "nnn"])]
        st = (r.randrange(1, cnt[0] + 1), r.randrange(1, len(objs) * 2 + 6)) if r.random() < .35 else (0, 0)
        ls = [rl.B({"e": "begin", "tree": tree, "name": name}), "\t".join([name, bits, str(st[0]), str(st[1]), meta])]
        how = r.random()
        if how >= .3 and r.random() < .3:     # driven directly: a leaf asks to stop in final
            ls[-1] += "\t%d" % r.randrange(1, cnt[0] + 1)
        if how < .15:
            ls.append("file\t%s\thistory\txml" % rl.put(c, "t%d.osh" % n, osm.xml_file(objs, "history")))
        elif how < .3:
            ls.append("file\t%s\thistory\tpbf" % rl.put(c, "t%d.pbf" % n, rl.pbf_bytes(objs, r, hist=True)))
        else:
            ls.append("init")
            for i, o in enumerate(objs):
                if i == 0 or objs[i - 1]["t"] != o["t"]:
                    ls.append(BA[o["t"]][0])
                if r.random() < .2:
                    ls.append("et\t%d" % r.randrange(1, 99))
                ls.append(osm.line(o))
                if r.random() < .15:
                    ls.append("area\t%d" % r.randrange(1, 99))
                if r.random() < .1:
                    ls.append("dbg\t%d" % r.randrange(0, 9))
                if i == len(objs) - 1 or objs[i + 1]["t"] != o["t"]:
                    ls.append(BA[o["t"]][1])
            if r.random() < .2:
                ls.append("dbg\t%d" % r.randrange(0, 9))
            if r.random() < .2:
                ls.append("area\t%d" % r.randrange(1, 99))
            ls.append("fin")
        ls.append("end")
        scen.append(ls)
    run = lambda: rl.run_scenarios(c, h, scen)
    ev = run()
    c.validate("TreeTrace", ev, what="handler stack", recheck=run)
    c.cov["stack_shapes"] = len(ts)
    c.cov["callbacks"] = sum(1 for e in ev if e["e"] == "cb")
    c.cov["stops"] = sum(1 for e in ev if e["e"] == "stop")
    i = next(k for k, e in enumerate(ev) if e["e"] == "cb" and e["c"] in "nwr" and ["h", "1"] in e["o"]["tags"] and ev[k + 1]["e"] == "cb")
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    b = next(k for k in range(i, len(ev)) if ev[k]["e"] == "begin")
    c.sample(ev[i])

    def swap(t):
        t[i - a], t[i - a + 1] = t[i - a + 1], t[i - a]
    c.control("TreeTrace", ev[a:b], swap)
    c.control("TreeTrace", ev[a:b], lambda t: t.pop(i - a) and None)
    c.control("TreeTrace", ev[a:b], lambda t: t[i - a]["o"]["tags"].remove(["h", "1"]))
    c.assumptions += ["the stack shapes are those of harness/trees.inc (all shapes of depth 3 in the model)"]
