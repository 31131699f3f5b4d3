"""C29: every distinct string gets its own resolvable index in a string table."""
import readlib as rl
from vf import pct
POOL = ["", "a", "b", "name", "highway", "\u6f22", "a ", "A", "x" * 200, "0", "%", "\"", "residential", "oneway"]


def check(c):
    h = c.build("h_strtab.cpp")
    c.model("Strings", consts={"MaxRec": c.pick(6, 8)}, timeout=1800)
    for f in ("first", "noempty", "keep"):
        c.model_must_fail("Strings", consts={"Fault": '{"%s"}' % f})
    c.model_must_fail("Strings", consts={"Fault": '{"narrow"}'})
    r = c.rnd
    scen = []
    for n in range(c.pick(300, 6000)):
        ln = [rl.B({"e": "begin", "n": n})]
        for _ in range(r.choice([1, 1, 2, 3])):
            pool = r.sample(POOL, r.randrange(1, len(POOL) + 1)) + ["s%d" % i for i in range(r.choice([0, 0, 5, 300]))]
            w = [r.choice([1, 1, 2, 10]) for _ in pool]
            ln += ["r\t" + pct(s) for s in r.choices(pool, w, k=r.choice([0, 1, 5, 40, 120]))]
            if r.random() < .9:
                ln.append("store")
            ln.append("c")
        scen.append(ln)
    for i, (n, mx) in enumerate([(3, 2), (255, 3), (256, 2), (32767, 1), (65535, 1), (65536, 2), (70000, 2)] + c.pick([], [(140000, 3), (300000, 2)])):
        many = [rl.B({"e": "begin", "n": n}), "many\tp\t%d\t%d" % (n, mx), "storemany", "c", "r\ta", "r\tp0", "r\ta", "store", "c"]
        scen.insert(i * len(scen) // 9, many)
    for i in range(c.pick(12, 60)):  # numbers of uses around the limits of 8, 16 (and 24) bit counters
        ln = [rl.B({"e": "begin"})]
        for _ in range(2):
            for s_ in r.sample(POOL, r.randrange(2, 6)):
                ln.append("rep\t%s\t%d" % (pct(s_), r.choice([1, 3, 127, 128, 255, 256, 257, 258, 300, 32767, 32768, 65535, 65536, 65537, 65540, 70000] + c.pick([], [1 << 24, (1 << 24) + 5, 131073]))))
            ln += ["r\t%s" % pct(s_) for s_ in r.choices(POOL, k=6)] + ["store", "c"]
        scen.append(ln)
    run = lambda: rl.run_scenarios(c, h, scen)
    ev = run()
    c.validate("StringsTrace", ev, what="string table", recheck=run, heap="12g", timeout=1800)
    c.cov["largest_table"] = max(len(e["table"]) for e in ev if e["e"] == "storemany") - 1
    c.cov["maps"] = sum(1 for e in ev if e["e"] == "map")
    i = next(i for i, e in enumerate(ev) if e["e"] == "store" and len(e["table"]) > 9)
    b = max(k for k in range(i) if ev[k]["e"] in ("begin", "clear"))
    if ev[b]["e"] == "clear":
        tr = [{"e": "begin"}] + ev[b + 1:i + 5]
    else:
        tr = ev[b:i + 5]
    s = next(k for k, e in enumerate(tr) if e["e"] == "store")
    c.sample(tr[s])

    def swap(t):
        t[s]["table"][1], t[s]["table"][-1] = t[s]["table"][-1], t[s]["table"][1]
    c.control("StringsTrace", tr, swap)
    c.control("StringsTrace", tr, lambda t: t[s]["table"].pop() and None)
    c.control("StringsTrace", tr, lambda t: t[s]["table"].__setitem__(0, "x"))
    c.control("StringsTrace", tr, lambda t: t[s + 1].__setitem__("final", t[s + 1]["final"] % (len(t[s]["table"]) - 1) + 1))
    k = next(k for k, e in enumerate(ev) if e["e"] == "storemany" and len(e["table"]) > 200)
    c.control("StringsTrace", ev[k - 2:k + 1], lambda t: t[2]["finals"].__setitem__(7, t[2]["finals"][8]))
    c.assumptions += ["strings without NUL bytes", "a table is stored once between clearings, as the writer does"]
