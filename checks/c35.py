"""C35: the progress display counts every object and stays off non-terminals."""
import re
import osm, readlib as rl, c33
from vf import unpct
LINE = r"\[(\d+)\](?: \[(\d+)\])?(?: \[(\d+)\])?(?: \((-?\d+) (\w+) per second\)   | {35}|)\r"


def parts(e):
    """What a text on the terminal consists of."""
    s = unpct(e["s"]).decode("latin1") if isinstance(unpct(e["s"]), bytes) else unpct(e["s"])
    o = {"e": "shown", "c": e["c"], "hide": s.count("\x1b[?25l"), "show": s.count("\x1b[?25h")}
    s = s.replace("\x1b[?25l", "").replace("\x1b[?25h", "")
    o["lines"] = [{"counts": [int(x) if x else -1 for x in m.groups()[:3]], "rate": int(m.group(4) or 0), "unit": m.group(5) or ""} for m in re.finditer(LINE, s)]
    s = re.sub(LINE, "", s)
    m = re.search(r"\n  Average: ((?:-?\d+ \w+ )*)per second\n", s)
    o["average"] = m is not None
    o["avg"] = []
    if m:
        o["avg"] = [[int(x), y] for x, y in re.findall(r"(-?\d+) (\w+) ", m.group(1))]
        s = s.replace(m.group(0), "", 1)
    o["rest"] = s
    return o


def check(c):
    h = c.build("h_show.cpp")
    c.model("Show", consts={"MaxObjs": c.pick(5, 7)})
    for f in ("late", "total", "hidden"):
        c.model_must_fail("Show", consts={"Fault": '{"%s"}' % f})
    r = c.rnd
    scen = []
    for k in range(c.pick(700, 7000)):
        step = r.choice([1, 1, 2, 3, 5, 10, 1000, 0 if k % 50 else 1])
        tty = r.random() < .85
        n = r.choice([0, 1, 2, 5, 20, 60]) if step else r.choice([999, 1000, 1001, 2500])
        order = r.random() < .8
        types = r.sample("nwr", r.choice([1, 2, 3, 3, 3]))
        if order:
            types.sort(key="nwr".index)
        objs = [osm.obj(t, i) for t in types for i in range(r.choice([n, r.randrange(n + 1)]))]
        if r.random() < .1:
            r.shuffle(objs)
        ls = [rl.B({"e": "begin", "step": step or 1000, "tty": tty}), "prog\t%s\t%d" % (step or "", tty)]
        ms = 0
        slow = r.choice([0, 1, 5, 1000, 70000])
        for x in c33.callbacks(r, objs, True):
            if x.startswith("et"):
                continue
            if r.random() < .5:
                ms += r.randrange(slow + 1)
                ls.append("clock\t%d" % ms)
            ls.append(x)
        scen.append(ls + ["end"])

    def run():
        return [parts(e) if e["e"] == "shown" else e for e in rl.run_scenarios(c, h, scen)]
    ev = run()
    c.validate("ProgressTrace", ev, what="progress display", recheck=run)
    c.cov["lines_shown"] = sum(len(e["lines"]) for e in ev if e["e"] == "shown")
    i = next(k for k, e in enumerate(ev) if e["e"] == "shown" and len(e["avg"]) > 1)
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    c.sample(ev[i])
    c.control("ProgressTrace", ev[a:i + 1], lambda t: t[i - a]["avg"][0].__setitem__(0, t[i - a]["avg"][0][0] + 3))
    c.control("ProgressTrace", ev[a:i + 1], lambda t: t[i - a]["lines"][0]["counts"].__setitem__(0, t[i - a]["lines"][0]["counts"][0] + 1))
    c.control("ProgressTrace", ev[a:i + 1], lambda t: t[i - a].__setitem__("show", 0))
    c.assumptions += ["the clock does not go back", "isatty, gettimeofday, clock_gettime and time are stand-ins driven by the script"]
