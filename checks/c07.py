"""C07: written PBF files obey the published format."""
import os
import osm, readlib as rl, writelib as wl


def check(c):
    h = c.build("h_io.cpp")
    c.model("PbfWriter", consts={"MaxObjs": c.pick(4, 5)}, timeout=1500)
    c.model_must_fail("PbfWriter", consts={"MaxObjs": 4, "Reset": '{"strings"}'})
    cases = wl.pbf_cases(c)
    cases += [wl.many_strings(c, True), wl.big_block(c, False), wl.big_block(c, True), wl.big_texts(c, c.rnd.random() < .5)]
    if c.thorough:
        cases.append(wl.many_strings(c, False))

    def record():
        scripts, paths = [], []
        for k, (objs, typ, o, f) in enumerate(cases):
            path = os.path.join(c.tmp, "w%d.pbf" % k)
            b = rl.begin(objs, how=wl.pbf_how(typ, f), mode="type", multi=typ != "osm", typ=typ, **f)
            scripts.append([rl.B(b)] + wl.write_cmds(path, objs, typ, "pbf", o))
            paths.append(path)
        ev, k = [], -1
        for e in rl.run_scenarios(c, h, scripts):
            if e["e"] == "begin":
                if k >= 0:
                    ev += wl.file_events(paths[k])
                k += 1
            if e["e"] == "write":
                e = {"e": "write", "o": wl.shorten(e["o"]), "b": wl.bigs(e["o"])}
            ev.append(e)
        ev += wl.file_events(paths[k])
        for p in paths:
            if os.path.exists(p):
                os.unlink(p)
        return ev
    record = c.repeat(record)
    ev = record()
    c.validate("PbfFileTrace", ev, what="bytes of written PBF files", recheck=record, heap="10g")
    c.cov["blocks"] = sum(1 for e in ev if e["e"] == "block")
    i = next(k for k, e in enumerate(ev) if e["e"] == "dn")
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    b = next(k for k in range(i, len(ev)) if ev[k]["e"] == "begin")
    c.sample(ev[a:b][:8])

    def stale(t):
        e = next(e for e in t if e["e"] == "dn")
        e["id"][4] += 1
    c.control("PbfFileTrace", ev[a:b], stale)
    c.control("PbfFileTrace", ev[a:b], lambda t: [e["strings"].insert(0, "x") for e in t if e["e"] == "block"] and t)
    c.assumptions += ["wire level protobuf decoding by an independent Python decoder; texts over 1500 bytes compared by hash",
                      "only 64 bit values the format can carry (version, changeset < 2^31; uid deltas modulo 2^32)"]
