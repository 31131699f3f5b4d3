"""C05: what is written as XML reads back as the same objects."""
import osm, xmllib


def check(c):
    h = c.build("h_io.cpp")
    c.model("XmlDoc", consts={"MaxObjs": c.pick(2, 3), "MaxToks": c.pick(9, 11), "Kinds": '{"n", "w", "r"}'})
    r = c.rnd
    cases = []
    for k in range(c.pick(220, 1500)):
        typ = ("osm", "history")[k % 2]
        enc = ("xml", "xml", "xml", "xmlgz", "xmlbz2")[k // 2 % 5]
        n = r.choice([0, 1, 2, 3, 8, 20])
        cases.append(([osm.robj(r, hist=typ == "history", strs=xmllib.TEXTS) for _ in range(n)], typ, enc) + xmllib.opts(r))
    # every text at every place where text can occur
    for t in xmllib.TEXTS:
        k = t if len(t) < 250 else t[:250]
        objs = [osm.obj("n", 1, user=k, tags=[(t, "v"), ("k", t)], x=1, y=2), osm.obj("w", 2, user=k, tags=[(t, t)]), osm.obj("r", 3, mem=[("n", 1, k), ("w", 2, "")], tags=[(t, t)])]
        cases.append((objs, r.choice(["osm", "history"]), r.choice(["xml", "xmlgz"])) + xmllib.opts(r))
    # long files: many read buffers and pipe chunks
    for enc in ("xml", "xmlgz", "xmlbz2"):
        objs = [osm.robj(r, hist=True, strs=xmllib.TEXTS) for _ in range(c.pick(400, 6000))]
        cases.append((objs, "history", enc) + xmllib.opts(r))
    # every coordinate digit: roundings at seven decimals
    objs = [osm.obj("n", i, x=r.randrange(-1800000000, 1800000001), y=r.randrange(-900000000, 900000001)) for i in range(1, c.pick(1500, 20000))]
    cases.append((objs, "osm", "xml") + xmllib.opts(r))
    rec = c.repeat(lambda: xmllib.record(c, h, cases))
    rd, fl = rec()
    c.validate("ReadTrace", rd, what="XML round trip", recheck=lambda: rec()[0], heap="8g")
    c.validate("XmlFileTrace", fl, what="text of written XML files", recheck=lambda: rec()[1], heap="8g")
    i = next(k for k, e in enumerate(rd) if e["e"] == "obj" and e["o"]["tags"])
    a = max(k for k in range(i) if rd[k]["e"] == "begin")
    b = next(k for k in range(i, len(rd)) if rd[k]["e"] == "begin")
    c.sample(rd[a:b][:8])

    def worse(t):
        e = next(e for e in t if e["e"] == "obj")
        e["o"]["tags"] = [["x", "y"]] + e["o"]["tags"]
    c.control("ReadTrace", rd[a:b], worse)
    i = next(k for k, e in enumerate(fl) if e["e"] == "xobj")
    a = max(k for k in range(i) if fl[k]["e"] == "begin")
    b = next(k for k in range(i, len(fl)) if fl[k]["e"] == "begin")
    c.control("XmlFileTrace", fl[a:b], lambda t: t.pop(next(k for k, e in enumerate(t) if e["e"] == "xobj")) and t)
    c.assumptions += ["texts are valid XML 1.0 characters", "the text is parsed by Python's expat binding"]
