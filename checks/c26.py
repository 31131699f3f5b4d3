"""C26: timestamps convert to ISO text and back without loss."""
import datetime
import vf
from writelib import big
MAX = 253402300799
ZONES = ["UTC", "Europe/Berlin", "America/St_Johns", "Pacific/Auckland", ":nonsense", "XXX+11:30", "CET-1CEST,M3.5.0,M10.5.0/3", "Asia/Kathmandu"]


def iso(t):
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)).strftime("%Y-%m-%dT%H:%M:%SZ") if t < 250000000000 else "9999-12-31T23:59:59Z"


def moments(r, n):
    day = lambda y, m, d: (datetime.date(y, m, d) - datetime.date(1970, 1, 1)).days * 86400
    fixed = [0, 1, 59, 60, 3599, 3600, 86399, 86400, 2**31 - 1, 2**31, 2**32 - 1, 2**32, MAX, MAX - 1]
    for y in (1970, 1972, 1999, 2000, 2001, 2004, 2012, 2038, 2099, 2100, 2101, 2200, 2400, 4000, 9996, 9999):
        for m, d in ((1, 1), (2, 28), (3, 1), (3, 31), (6, 30), (12, 31)):
            fixed += [day(y, m, d) - 1, day(y, m, d), day(y, m, d) + 86399]
    fixed = [x for x in fixed if 0 <= x <= MAX]
    return fixed + [r.randrange(1, 2**31) if r.random() < .5 else r.randrange(1, MAX) for _ in range(n)]


def texts(r):
    t = iso(r.choice([r.randrange(1, 2**31), r.randrange(1, MAX)]))
    q = r.random()
    if q < .25:
        return t
    if q < .4:
        return t[:r.randrange(0, 20)]
    if q < .55:
        i = r.randrange(0, 20)
        return t[:i] + r.choice("0123456789-:TZ xz+.") + t[i + 1:]
    if q < .65:
        i = r.randrange(0, 21)
        return t[:i] + r.choice(["0", "1", "-", " ", "T", "Z", "\u00e4", "00", "x"]) + t[i:]
    if q < .75:
        i = r.randrange(0, 20)
        return t[:i] + t[i + 1:]
    if q < .95:
        f = [r.choice([0, 1969, 1970, 2012, 2013, 9999]), r.choice([0, 1, 2, 4, 12, 13, 99]), r.choice([0, 1, 28, 29, 30, 31, 32, 99]),
             r.choice([0, 23, 24, 25]), r.choice([0, 59, 60, 61]), r.choice([0, 59, 60, 61, 62])]
        return "%04d-%02d-%02dT%02d:%02d:%02dZ" % tuple(f)
    return r.choice(["", "Z", "now", "2012", "2012-01-01", "2012-01-01 00:00:00", "2012-01-01T00:00:00", "2012-01-01T00:00:00+01:00",
                     "2012-01-01T00:00:00ZZ", "2012-01-01T00:00:00Z ", "12-01-01T00:00:00Z", "2012-1-1T0:0:0Z", "-2012-01-01T00:00:00Z", "20120101T000000Z",
                     "2012-01-01T00:00:00.5Z", "12012-01-01T00:00:00Z", "2012-01-01T00:00:00Z2012-01-01T00:00:00Z", "1347000000"])


def check(c):
    h = c.build("h_time.cpp")
    c.model("Calendar", consts={"LastYear": c.pick(2401, 9999)}, coverage=False, timeout=2400)
    for f in ("century", "four"):
        c.model_must_fail("Calendar", consts={"Fault": '{"%s"}' % f})
    r = c.rnd
    early = [-1, -2, -5, -59, -60, -61, -3600, -86399, -86400, -86401, -2**31, -2**31 - 1, -11676096000]
    early += [-r.choice([r.randrange(1, 200000), r.randrange(1, 2**31), r.randrange(1, 11676096001)]) for _ in range(c.pick(100, 1000))]

    def script(seed):
        ls = ["iso\t%d" % x for x in moments(r, c.pick(700, 8000))]
        for x in early:
            ls.insert(r.randrange(len(ls) + 1), "old\t%d" % x)
        for _ in range(c.pick(900, 9000)):
            s = vf.pct(texts(r))
            if r.random() < .5:
                ls.append("parse\t" + s)
            else:
                ls.append("set\t%d\t%s\t%s" % (r.choice([0, 1, 1300000000]), r.choice(["attr", "direct"]), s))
        return "\n".join(ls) + "\n"
    scripts = [script(i) for i in range(len(ZONES))]

    def run():
        evs = []
        for z, s in zip(ZONES, scripts):
            for e in c.harness(h, s, env={"TZ": z}):
                if e["e"] == "old":
                    e["day"], e["sec"] = divmod(-int(e["t"]), 86400)
                elif e["e"] == "iso":
                    e["day"], e["sec"] = divmod(int(e["t"]), 86400)
                    e["back"] = big(e["back"])
                if "t" in e:
                    e["t"] = big(e["t"])
                if "old" in e:
                    e["old"] = big(e["old"])
                evs.append(e)
        return evs
    ev = run()
    c.validate("CalendarTrace", ev, what="timestamps", recheck=run, traces=len(ZONES))
    c.cov["times_converted"] = sum(1 for e in ev if e["e"] == "iso")
    c.cov["texts_read"] = sum(1 for e in ev if e["e"] in ("parse", "set") and e["ok"])
    c.cov["texts_refused"] = sum(1 for e in ev if e["e"] in ("parse", "set") and not e["ok"])
    c.cov["times_before_1970"] = sum(1 for e in ev if e["e"] == "old")
    c.sample(ev[5])
    e = next(e for e in ev if e["e"] == "iso" and e["s"])
    c.control("CalendarTrace", [e], lambda t: t[0]["s"].__setitem__(18, 48 + (t[0]["s"][18] - 47) % 10))
    c.control("CalendarTrace", [e], lambda t: t[0]["back"].__setitem__(4, (t[0]["back"][4] + 1) % 10000))
    e = next(e for e in ev if e["e"] == "set" and not e["ok"])
    c.control("CalendarTrace", [e], lambda t: t[0].update(ok=True))
    c.control("CalendarTrace", [e], lambda t: t[0].update(t=[0, 0, 0, 0, 77]))
    c.assumptions += ["C locale", "text in the documented structure but loosely written (single digits, blanks) or naming a day its month does not have may be read or refused"]
