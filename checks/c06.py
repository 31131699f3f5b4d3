"""C06: change files keep the operation of every object."""
import itertools
import osm, readlib as rl, xmllib


def document(toks, objs):
    """XML text for a token sequence of XmlDoc; objects are filled in in order."""
    full = {"n": "node", "w": "way", "r": "relation", "root": "osmChange", "tag": "tag", "x": "unknown"}
    s, k, cur, left = '<?xml version="1.0"?>\n', 0, None, None
    out = []
    sec = None
    for t in toks:
        n, o = t["n"], t["k"] == "o"
        if n == "root":
            s += '<osmChange version="0.6">\n' if o else "</osmChange>\n"
        elif n in ("n", "w", "r"):
            if o:
                cur = dict(objs[k], t=n)
                k += 1
                s += "<%s id=\"%s\" version=\"%s\" changeset=\"%s\">" % (full[n], cur["id"], cur["v"], cur["cs"])
                cur = osm.obj(n, int(cur["id"]), int(cur["v"]), 0, int(cur["cs"]), -1, "", sec != "delete")
            else:
                out.append(cur)
                s += "</%s>\n" % full[n]
        elif n == "tag":
            s += '<tag k="a" v="b%d"/>' % k if o else ""
            if o:
                cur["tags"].append(["a", "b%d" % k])
        elif n == "x":
            s += "<unknown a=\"1\">" if o else "</unknown>"
        else:
            s += "<%s>" % n if o else "</%s>\n" % n
            sec = n if o else None
    return s.encode(), out


def check(c):
    h = c.build("h_io.cpp")
    c.model("XmlDoc", consts={"MaxObjs": c.pick(3, 4), "MaxToks": c.pick(11, 12)}, timeout=1500)
    c.model_must_fail("XmlDoc", consts={"Fault": '{"noclose"}'})
    c.model_must_fail("XmlDoc", consts={"Fault": '{"sticky"}'})
    r = c.rnd
    # reading: every document of the grammar up to the bound, from the specification
    gen = [g for g in c.generate("XmlDoc", "XmlDocGen.cfg", consts={"MaxToks": c.pick(10, 12)}) if g["typ"] == "change"]
    uniq = {repr(g["toks"]): g for g in gen}
    gen = [uniq[k] for k in sorted(uniq)]
    c.cov["documents_generated"] = len(gen)
    if len(gen) > c.pick(1500, 12000):
        gen = r.sample(gen, c.pick(1500, 12000))
    scen = []
    for k, g in enumerate(gen):
        data, objs = document(g["toks"], [osm.obj("n", r.randrange(1, 99), v=r.randrange(1, 4), cs=5) for _ in range(9)])
        path = rl.put(c, "d%d.osc" % k, data)
        scen.append(rl.scenario(path, objs, "change", "xml", r.choice(["all", "mut"]), keeps=r.choice(["", "1", "01"]), how="same"))
    # longer ones with complete objects
    for k in range(c.pick(60, 500)):
        objs, secs = [], []
        for _ in range(r.randrange(0, 12)):
            op, n = r.choice(["create", "modify", "delete", "delete", ""]), r.choice([0, 1, 1, 2, 5])
            secs.append((op, n))
            for _ in range(n):
                o = osm.robj(r)
                o["vis"] = op != "delete"
                objs.append(o)
        path = rl.put(c, "e%d.osc" % k, osm.xml_file(objs, "change", rnd=r, visattr=False, sections=secs))
        scen.append(rl.scenario(path, objs, "change", "xml", r.choice(["all", "mut"]), keeps=r.choice(["", "1", "01"]), how="xmlvis"))
    run = lambda: rl.run_scenarios(c, h, scen)
    ev = run()
    c.validate("ReadTrace", ev, what="reading change files", recheck=run)

    # writing: all operation sequences up to length n over types, and random objects
    cases = []
    ops = {"c": (1, True), "m": (2, True), "M": (0, True), "d": (1, False), "D": (3, False)}
    n = c.pick(4, 5)
    seqs = [q for k in range(n + 1) for q in itertools.product("cmMdD", repeat=k)]
    r.shuffle(seqs)
    for q in seqs:
        objs = []
        for k, x in enumerate(q):
            v, vis = ops[x]
            objs.append(osm.obj(r.choice("nwr"), k + 1, v=v, vis=vis, tags=[("a", "b")] if r.random() < .3 else []))
        cases.append((objs, "change", "xml") + xmllib.opts(r))
    for k in range(c.pick(60, 500)):
        objs = [osm.robj(r, hist=True, strs=xmllib.TEXTS) for _ in range(r.choice([3, 10, 30]))]
        cases.append((objs, "change", r.choice(["xml", "xml", "xmlgz", "xmlbz2"])) + xmllib.opts(r))
    rec = c.repeat(lambda: xmllib.record(c, h, cases))
    rd, fl = rec()
    c.validate("ReadTrace", rd, what="change file round trip", recheck=lambda: rec()[0], heap="8g")
    c.validate("XmlFileTrace", fl, what="sections of written change files", recheck=lambda: rec()[1], heap="8g")
    i = next(k for k, e in enumerate(fl) if e["e"] == "secend")
    a = max(k for k in range(i) if fl[k]["e"] == "begin")
    b = next(k for k in range(i, len(fl)) if fl[k]["e"] == "begin")
    c.sample(fl[a:b][:10])

    def split(t):  # a section in two parts
        k = next(k for k, e in enumerate(t) if e["e"] == "secend")
        op = next(e["op"] for e in t if e["e"] == "sec")
        return t[:k] + [{"e": "secend"}, {"e": "sec", "op": op}] + t[k:]
    c.control("XmlFileTrace", fl[a:b], split)

    def swap(t):
        e = next(e for e in t if e["e"] == "sec")
        e["op"] = "modify" if e["op"] != "modify" else "create"
    c.control("XmlFileTrace", fl[a:b], swap)
    c.assumptions += ["object elements carry no visible attribute of their own inside change files"]
