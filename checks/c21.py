"""C21: a history range passes exactly the versions alive in the range."""
import histlib as hl


def check(c):
    h = c.build("h_hist.cpp")
    for f, t in ((3, 3), (2, 3), (3, 2)):
        c.model("History", consts={"From": f, "To": t, "MaxObj": c.pick(4, 5), "Times": c.pick("{1, 2, 3, 4}", "{1, 2, 3, 4, 5}")}, timeout=1800)
    for f in ("tostrict", "fromstrict", "etzero", "anyid", "nolast"):
        c.model_must_fail("History", consts={"Fault": '{"%s"}' % f})
    scen = [hl.scenario(c, c.rnd, n, ["r", "er"][n % 2]) for n in range(c.pick(2000, 20000))]
    run = lambda: hl.run(c, h, scen)
    ev = run()
    c.validate("HistoryTrace", ev, what="history range", recheck=run)
    c.cov["objects_in"] = sum(1 for e in ev if e["e"] == "in" and e["c"] in "nwr")
    c.cov["objects_passed"] = sum(1 for e in ev if e["e"] == "cb" and e["c"] in "nwr")
    i = next(k for k, e in enumerate(ev) if e["e"] == "cb" and e["c"] in "nwr")
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    b = next(k for k in range(i, len(ev)) if ev[k]["e"] == "begin")
    c.sample(ev[i])
    c.control("HistoryTrace", ev[a:b], lambda t: t.pop(i - a) and None)
    # an object that was rightly dropped must not come out

    def extra(t):
        outs = [e["o"] for e in t if e["e"] == "cb" and e["c"] in "nwr"]
        k = next((e for e in t if e["e"] == "in" and e["c"] in "nwr" and e["o"] not in outs), None)
        return [x for e in t for x in ([e, dict(e="cb", h=1, c="n", o=(k or t[1]).get("o"), et="0")] if e["e"] == "cb" and e["c"] == "bn" else [e])]
    c.control("HistoryTrace", ev[a:b], extra)
    c.assumptions += ["times are not negative"]
