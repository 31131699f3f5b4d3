"""C20: end times come from the next version and nothing else changes."""
import histlib as hl


def check(c):
    h = c.build("h_hist.cpp")
    wide = {"From": 0, "To": 9, "Times": "{1, 2}"}
    c.model("History", consts=dict(wide, MaxObj=c.pick(5, 6)), timeout=1800)
    for f in ("anyid", "ownts", "nolast", "lateflush", "keep"):
        c.model_must_fail("History", consts=dict(wide, Fault='{"%s"}' % f))
    scen = [hl.scenario(c, c.rnd, n, "e") for n in range(c.pick(1500, 20000))]
    run = lambda: hl.run(c, h, scen)
    ev = run()
    c.validate("HistoryTrace", ev, what="end times", recheck=run)
    c.cov["objects_with_end_time"] = sum(1 for e in ev if e["e"] == "cb" and e.get("et", "0") != "0")
    i = next(k for k, e in enumerate(ev) if e["e"] == "cb" and e.get("et", "0") != "0")
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    b = next(k for k in range(i, len(ev)) if ev[k]["e"] == "begin")
    c.sample(ev[i])
    c.control("HistoryTrace", ev[a:b], lambda t: t[i - a].update(et="0"))
    c.control("HistoryTrace", ev[a:b], lambda t: t.pop(i - a) and None)
    c.control("HistoryTrace", ev[a:b], lambda t: t[i - a]["o"].update(v="77"))
    c.assumptions += ["each type's objects come inside its bracket, as a reader delivers them"]
