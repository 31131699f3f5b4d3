"""C34: converting a file keeps every object."""
import bz2, gzip, os
import osm, pbf, readlib as rl, writelib as wl, xmllib
from vf import pct, unpct


def foreign(r, objs, typ, enc, bounds):
    """The first file of a chain, written by another program."""
    if enc == "pbf":
        req = ["OsmSchema-V0.6", "DenseNodes"] + (["HistoricalInformation"] if typ != "osm" else [])
        hdr = pbf.encode_header(req, bbox=bounds or None)
        return rl.pbf_bytes(objs, r, hist=typ != "osm", P={"vis": typ != "osm"}, header=hdr)
    kw = {}
    if typ == "change":
        secs = []
        for o in objs:
            op = r.choice(["create", "modify", "modify", ""]) if o["vis"] else "delete"
            if secs and secs[-1][0] == op and r.random() < .7:
                secs[-1][1] += 1
            else:
                secs.append([op, 1])
        kw = dict(visattr=False, sections=secs)
    data = osm.xml_file(objs, typ, rnd=r, bounds=bounds or None, gen=r.choice([None, "other"]), **kw)
    return gzip.compress(data) if enc == "xmlgz" else bz2.compress(data) if enc == "xmlbz2" else data


def check(c):
    h = c.build("h_io.cpp")
    c.model("Convert", consts={"MaxSteps": c.pick(2, 3)})
    c.model_must_fail("Convert", consts={"Fault": '{"recycle"}'})
    r = c.rnd
    chains = c.generate("Convert", "ConvertGen.cfg")
    chains.sort(key=repr)
    two = c.generate("Convert", "ConvertGen.cfg", consts={"MaxSteps": 2})
    two.sort(key=repr)
    c.cov["chains"] = len(chains) + len(two)
    chains = chains * c.pick(2, 6) + (r.sample(two, 150) if not c.thorough else two)
    cases = []
    for ch in chains:
        n = r.choice([0, 1, 2, 3, 8, 20])
        objs = [osm.robj(r, hist=True, strs=xmllib.TEXTS) for _ in range(n)]
        if r.random() < .4:
            objs.sort(key=lambda o: "nwr".index(o["t"]))
        cases.append((objs, ch, r.random() < .5))
    # long ones: more objects than a block of the writer and a buffer of the reader hold
    for k, ch in enumerate(r.sample(chains, c.pick(4, 12)) + [x for x in chains if x["steps"][-1][1] == "pbf"][-c.pick(2, 6):]):
        mix = r.choice(["n", "nwr", "wr", "nw"])
        objs = []
        n = r.choice([8001, 9000, 12003])
        for i in range(n):
            t = mix[min(i * len(mix) // n, len(mix) - 1)] if r.random() < .9 else r.choice(mix)
            kw = dict(x=r.randrange(-10**9, 10**9), y=i) if t == "n" else dict(nodes=[i] * (i % 4)) if t == "w" else dict(mem=[("w", i, "r%d" % (i % 3))] * (i % 3))
            objs.append(osm.obj(t, i * 3 - 5000, v=1 + i % 3, ts=1300000000 + 60 * (i % 7), cs=i, uid=i % 5 - 1, user="u%d" % (i % 50) if i % 5 > 1 else "", vis=i % 4 > 0,
                                tags=[("k%d" % (i % 11), "v%d" % (i % 101))] if i % 3 == 0 else [], **kw))
        cases.append((objs, ch, k % 2 == 0))

    def record():
        scripts = []
        for k, (objs, ch, other) in enumerate(cases):
            st = ch["steps"]
            o, f = xmllib.opts(r)
            if st[0][1] != "pbf" and other and f["bounds"] and (f["bounds"][0] == osm.UNDEF or f["bounds"][1] == osm.UNDEF):
                f["bounds"] = []
            gen = r.choice(["-", "-", "new%20gen", "%C3%A4%26%22%3C"])
            paths = [os.path.join(c.tmp, "v%d.%d.%s" % (k, i, e)) for i, (t, e) in enumerate(st)]
            b = rl.begin(objs, hows=ch["hows"], mode="type" if any(e == "pbf" for i, (t, e) in enumerate(st) if i > 0 or not other) else "file", multi=st[-1][0] != "osm",
                         gen=xmllib.GEN if gen == "-" else pct(unpct(gen)), bounds=f["bounds"], steps=st)
            s = [rl.B(b)]
            if other:
                with open(paths[0], "wb") as fh:
                    fh.write(foreign(r, objs, st[0][0], st[0][1], f["bounds"]))
                s += [rl.B({"e": "in", "o": x}) for x in objs]
            else:
                s += wl.write_cmds(paths[0], objs, st[0][0], st[0][1], o)
            for i in range(1, len(st)):
                s.append("\t".join(["V", paths[i - 1], st[i - 1][0], st[i - 1][1], paths[i], st[i][0], st[i][1], gen if i == len(st) - 1 else r.choice(["-", "x"])]))
            scripts.append(s + rl.read_cmds(paths[-1], st[-1][0], st[-1][1], r.choice(["all", "mut"])))
        r.shuffle(scripts)
        ev = rl.run_scenarios(c, h, scripts)
        for e in os.listdir(c.tmp):
            if e.startswith("v") and ".%s." in e:
                os.unlink(os.path.join(c.tmp, e))
        return ev
    record = c.repeat(record)
    ev = record()
    c.validate("ReadTrace", ev, what="conversion", recheck=record, heap="10g")
    c.cov["objects"] = sum(1 for e in ev if e["e"] == "obj")
    i = next(k for k, e in enumerate(ev) if e["e"] == "obj" and e["o"]["tags"])
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    b = next(k for k in range(i, len(ev)) if ev[k]["e"] == "begin")
    c.sample(ev[a:b][:8])

    def lost(t):
        t.pop(next(k for k, e in enumerate(t) if e["e"] == "obj"))
    c.control("ReadTrace", ev[a:b], lost)

    def changed(t):
        e = next(e for e in t if e["e"] == "obj" and e["o"]["tags"])
        e["o"]["tags"] = e["o"]["tags"][1:]
    c.control("ReadTrace", ev[a:b], changed)
    c.assumptions += ["texts are valid XML 1.0 characters", "files fit on the disk"]
