"""C14: by-id stores behave as one map from id to latest value."""
import os
import readlib as rl
INC = 10 * 1024 * 1024
KINDS = ["fixed", "anon", "file", "sparse", "map", "vec"]


def ids(r, kind, n):
    """Ids a store of this kind can hold here, with the growth steps in their neighbourhood."""
    if kind == "fixed":
        return [r.choice([0, 1, 2, 999999, r.randrange(10**6)]) for _ in range(n)]
    pool = [0, 1, 2, 9999, 10000, 10001, 20000, INC - 1, INC, INC + 1, 2 * INC - 1, 2 * INC, 2 * INC + 1, 3 * INC]
    if kind in ("map", "vec"):
        pool += [2**31 - 1, 2**31, 2**32, 2**32 + 1, 2**40, 2**62, 2**63 - 1]
    elif kind == "sparse":
        pool += [2**26, 2**26 + 1]
    else:
        pool += [2**27, 2**29]
    out = [r.choice(pool) if r.random() < .6 else r.randrange(0, 3 * INC) if r.random() < .5 else r.randrange(0, 50) for _ in range(n)]
    if kind == "vec":
        out.sort()
    return out


def check(c):
    h = c.build("h_byid.cpp")
    c.model("ById", consts={"MaxOps": c.pick(6, 7), "MaxId": c.pick(4, 5)}, timeout=1800)
    for f in ("lose", "append", "reopen1"):
        c.model_must_fail("ById", consts={"Fault": '{"%s"}' % f})
    r = c.rnd
    scen = []

    def new(s, kind, size, again=False, name=None, keep=None):
        arg = {"fixed": "1000000", "file": name or "-", "sparse": str(r.choice(["-", 0, 1, 7, 10000]))}.get(kind, "-")
        if again:
            return "new\t%d\t%s\t%s\t%s\tkeep\tagain" % (s, kind, size, arg)
        return "new\t%d\t%s\t%s\t%s" % (s, kind, size, arg) + ("\t%s" % keep if kind == "file" else "")

    for n in range(c.pick(700, 8000)):
        kind = KINDS[n % 6]
        size = r.choice([4, 8, 12])
        name, keep = None, "rm"
        if kind == "file" and r.random() < .7:
            name = os.path.join(c.tmp, "s%d" % n)
            keep = r.choice(["rm", "def", "keep", "keep"])
        ls = [rl.B({"e": "begin"}), new(1, kind, size, name=name, keep=keep)]
        seen, unseen = [], kind in ("sparse", "vec")
        last = 0
        two = r.random() < .3
        if two:
            k2 = r.choice(KINDS)
            ls.append(new(2, k2, r.choice([4, 8, 12]), keep="rm"))
            i2 = sorted(ids(r, k2, 3))
            ls += ["set\t2\t%d\t%d" % (i, 5000 + j) for j, i in enumerate(i2)]
        for rnd in range(r.choice([1, 2, 3])):
            new_ids = ids(r, kind, r.choice([1, 3, 8]))
            if kind == "vec":
                new_ids = [i for i in new_ids if i >= last] or [last]
                last = max(new_ids)
            for i in new_ids:
                if r.random() < .1 and seen:
                    if i not in seen:      # not set, or set as usual
                        ls += ["nomem", "set\t1\t%d\t-9" % i] + ["get\t1\t%d" % j for j in r.sample(seen, min(6, len(seen)))]
                    else:
                        ls += ["nomem"]
                ls.append("set\t1\t%d\t%d" % (i, r.randrange(1000)))
                seen.append(i)
                if r.random() < .3 and kind == "vec":
                    ls.append("set\t1\t%d\t%d" % (i, r.randrange(1000)))
                if r.random() < .3:
                    ls.append("get\t1\t%d" % r.choice(seen))
            for i in r.sample(seen, min(6, len(seen))):
                ls.append("get\t1\t%d" % i)
            if unseen:
                for i in ids(r, kind, 3):
                    ls.append("get\t1\t%d" % i)
            if kind in ("anon", "file") and r.random() < .5:     # beyond the mapping, perhaps just beyond
                ls += ["get\t1\t%d" % r.choice([i + INC + d for i in seen[-2:] for d in (-1, 0, 1)] + [2**31, 2**40, 2**60, 2**63, 2**64 - 1]) for _ in range(3)]
            if kind in ("anon", "file") and r.random() < .15:
                ls.append("toobig\t1\t%d\t5" % r.choice([2**60, 2**61, 2**62, 2**63, 2**64 - 1]))
                ls += ["get\t1\t%d" % i for i in r.sample(seen, min(3, len(seen)))]
            if keep == "keep" and r.random() < .6:
                ls += (["clear\t1"] if r.random() < .3 else []) + ["destroy\t1", new(1, kind, size, True, name)]
                ls += ["get\t1\t%d" % i for i in r.sample(seen, min(6, len(seen)))]
        late = []
        if two:
            late = ["get\t2\t%d" % i for i in i2]
        if r.random() < .5:
            ls += ["clear\t1"] * r.choice([1, 1, 2, 3])
            if two and r.random() < .7:
                ls += late
                # a new store may get the memory that was given back
                ls += ["destroy\t2", new(2, k2, r.choice([4, 8, 12]), keep="rm"), "set\t2\t%d\t77" % i2[0], "clear\t1", "get\t2\t%d" % i2[0]]
                late = ["get\t2\t%d" % i2[0]]
        ls.append("destroy\t1")
        ls += late + (["destroy\t2"] if two else [])
        scen.append(ls)
    for kind in KINDS:
        for size in (4, 8, 12):
            scen.append([rl.B({"e": "begin"}), "failnew\t%s\t%d" % (kind, size)])
    for size in (4, 8, 12):
        scen.append([rl.B({"e": "begin"}), "failnew\tfixed\t%d\t%d" % (size, 2**r.randrange(46, 58))])
    # many ids: internal growth steps by number of elements
    for kind in KINDS:
        for first, step, count in ((0, 1, 5000), (0, 1, 100000), (3, 17, 40000), (1, 1, 1), (0, 2, 300000)) + (((0, 1, 3000000),) if c.thorough else ()):
            ls = [rl.B({"e": "begin"}), new(1, kind, 8, keep="rm"), "fill\t1\t%d\t%d\t%d\t1" % (first, step, count), "sweep\t1"]
            picks = [r.randrange(count) * step + first for _ in range(8)] + [first, first + step * (count - 1)]
            ls += ["get\t1\t%d" % i for i in picks]
            if kind != "vec":
                ls += ["set\t1\t%d\t-7" % picks[0], "get\t1\t%d" % picks[0]]
            elif step > 1:
                ls += ["get\t1\t%d" % (first + 1), "get\t1\t%d" % (first + step * count)]
            if r.random() < .7:
                ls += ["clear\t1", "clear\t1"]
            scen.append(ls + ["destroy\t1"])
    r.shuffle(scen)
    scen = [x[:1] + ["Z"] + x[1:] if r.random() < .02 else x for x in scen]    # from then on the process has no standard input
    run = lambda: rl.run_scenarios(c, h, scen)
    ev = run()
    c.validate("ByIdTrace", ev, what="by-id stores", recheck=run)
    c.cov["lookups"] = sum(1 for e in ev if e["e"] == "get")
    i = next(k for k, e in enumerate(ev) if e["e"] == "get" and e["n"] > 0)
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    b = next(k for k in range(i, len(ev)) if ev[k]["e"] == "begin")
    c.sample(ev[a:b][:8])
    tr = ev[a:b]

    def mut(name, **kw):
        def f(t):
            next(e for e in t if e["e"] == name).update(kw)
        return f
    c.control("ByIdTrace", tr, mut("get", v=4711))
    c.control("ByIdTrace", tr, mut("destroy", foreign=1))
    c.control("ByIdTrace", tr, mut("destroy", fds=1))
    c.control("ByIdTrace", tr, mut("destroy", freed=False))
    c.assumptions += ["ids a fixed array is not made for, and unset ids of fixed arrays and maps, are not looked up; what a mapped store holds for unset ids within its mapping is left open",
                      "a cleared store is only cleared again or destroyed", "files are in a scratch directory; sparse files are used for the file-backed store"]
