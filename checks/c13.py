"""C13: any conforming PBF encoding of the same data reads as the same objects."""
import os
import osm, pbf, readlib as rl, writelib as wl
from vf import unpct
UNK = [b"", pbf.f_var(900, 7), pbf.f_bytes(901, b"unknown"), pbf.f_var(50, 2**63) + pbf.f_bytes(60, b""), b"".join(pbf.f_bytes(1000 + i, bytes(i)) for i in range(20))]


def lzma_blob(typ, payload):
    b = pbf.f_bytes(4, payload) + pbf.f_var(2, 100)
    h = pbf.f_bytes(1, typ) + pbf.f_var(3, len(b))
    import struct
    return struct.pack(">I", len(h)) + h + b


def units(r, exact):
    if exact:
        g = r.choice([1, 2, 10, 20, 100, 100, 500, 1000])
        return dict(gran=g, date=r.choice([1, 10, 100, 1000, 1000, 500, 250]), lat_off=r.choice([0, 0, 100, -300, 7000000000]) // 100 * 100, lon_off=r.choice([0, 0, 500, -90000000000, 123456700]))
    return dict(gran=r.choice([1, 3, 7, 99, 100, 101, 999, 1000, 12345, 100000]), date=r.choice([1, 7, 333, 999, 1000, 1001, 60000, 3600000]),
                lat_off=r.choice([0, 1, -1, 99, -101, 45000000001, -90000000000]), lon_off=r.choice([0, 1, -1, 33, 180000000000, -179999999999]))


def params(r, exact):
    P = units(r, exact)
    P.update(meta=r.random() < .8, vis=r.random() < .3, params_first=r.random() < .3, explicit=r.random() < .3, unpacked=r.random() < .3, dup=r.random() < .4,
             extra=r.choice(UNK) if r.random() < .4 else b"", omit_empty_kv=r.random() < .5, skip0=r.random() < .3, shuffle=r.random() < .5)
    if r.random() < .3:
        P["prestrings"] = [unpct(s.replace("%", "%25")) for s in r.sample(["zzz", "name", "a", "b", "", "key", "x y"], 4)]
        P["prestrings"] = [s for s in P["prestrings"] if s]
    return P


def seen(o, P):
    """The object as encoded: without metadata its fields are the defaults."""
    o = dict(o)
    if not P["meta"]:
        o.update(v="0", ts="0", cs="0", uid=-1, user="", vis=True)
    elif not P["vis"]:
        o["vis"] = True
    return o


def make_file(c, r, gen, exact):
    """A file with the block and group structure of a generated behaviour, and its objects in order."""
    lay = []
    req = ["OsmSchema-V0.6", "DenseNodes"]
    r.shuffle(req)
    if r.random() < .2:
        req = ["OsmSchema-V0.6"]
    hd = pbf.encode_header(req, optional=r.choice([(), ("Has_Metadata", "Sort.Type_then_ID"), ("x",)]), extra=r.choice(UNK))
    out = pbf.blob("OSMHeader", hd, r.random() < .5)
    objs, n = [], 0
    want = gen["o"]
    bc = {}
    for b in gen["f"]:
        P = params(r, exact)
        if bc and r.random() < .3:       # the same units as the block before
            P.update({k: bc[k] for k in ("gran", "date", "lat_off", "lon_off")})
        bc = P
        groups = []
        tied = {}
        for g in b["groups"]:
            k = g["k"]
            if k == "n" and r.random() < .6:
                k = r.choice("wr")
            os_ = []
            for _ in range(g["n"]):
                a = want[n]
                n += 1
                o = osm.robj(r, "n" if k in "dn" else k, hist=True, undef=False)
                if r.random() < .5:      # the string choice of the generated behaviour
                    o["tags"] = [[{"a": "a", "b": "key", "c": "x"}[a["str"]], "v%d" % a["id"]]] + o["tags"]
                if exact:
                    o["x"], o["y"] = (o["x"], o["y"]) if o["t"] == "n" else (osm.UNDEF, osm.UNDEF)
                    if o["t"] == "n":
                        st = max(1, P["gran"] // 100)
                        o["x"] -= (o["x"] * 100 - P["lon_off"]) // 100 % st
                        o["y"] -= (o["y"] * 100 - P["lat_off"]) // 100 % st
                        if P["gran"] < 100 or 100 % P["gran"] == 0:
                            pass
                elif o["t"] == "n":
                    hi = 180000000000
                    for ax, off in (("x", P["lon_off"]), ("y", P["lat_off"])):
                        tgt = r.choice([0, 1, -1, hi, -hi, off, 50, -50, 149, -149, r.randrange(-hi, hi), r.randrange(-hi, hi)])
                        o["raw" + ax] = (tgt - off) // P["gran"]
                if not exact:
                    o["rawts"] = r.choice([0, 1, 2, 1300000000000 // P["date"], (2**31 - 1) * 1000 // P["date"], r.randrange(0, 2**32 * 1000) // P["date"]])
                os_.append(o)
            groups.append((k, os_))
            for o in os_:
                objs.append((o, P))
        if r.random() < .15:
            out += r.choice([pbf.blob("OSMIndex", b"\x01garbage\xff", r.random() < .5), pbf.blob("", b"", False), pbf.blob("OSMDatax", b"\xff" * 30, False), lzma_blob("OSMOther", b"not for us")])
        groups = [g for g in groups if g[1]]
        if not groups:
            continue
        out += pbf.blob("OSMData", pbf.encode_block(groups, P, r), comp=r.random() < .6, extra=r.choice(UNK), headextra=r.choice(UNK),
                        indexdata=r.choice([None, None, b"", b"index"]), nosize=r.random() < .3)
    if r.random() < .1:
        out += pbf.blob("OSMTrailer", b"x" * 1000, True)
    return out, objs


def joint(path, robjs):
    """File rows and delivered objects as one trace."""
    ev = []
    it = iter(robjs)
    for e in wl.file_events(path):
        if e["e"] == "block":
            ev.append({k: e[k] for k in ("e", "strings", "gran", "date", "lat_off", "lon_off", "groups")})
        elif e["e"] in ("dn", "item"):
            ev.append(e)
            o = next(it, None)
            if o is not None:
                ev.append(o)
        elif e["e"] == "malformed":
            ev.append(e)
    return ev + list(it)


def check(c):
    h = c.build("h_io.cpp")
    c.model("PbfBlocks", consts={"MaxObj": c.pick(2, 3)}, timeout=1800)
    for f in ("stickydelta", "stickyunits", "nooffset", "stickystrings"):
        c.model_must_fail("PbfBlocks", consts={"Fault": '{"%s"}' % f, "MaxObj": 2})
    r = c.rnd
    gens = c.generate("PbfBlocks", "PbfBlocksGen.cfg", simulate=c.pick(400, 4000), depth=20)
    gens += c.generate("PbfBlocks", "PbfBlocksGen.cfg", simulate=c.pick(60, 600), depth=80, consts={"MaxObj": 40, "MaxBlocks": 6, "MaxGroups": 4})
    c.cov["generated_layouts"] = len(gens)
    scen, raws = [], []
    for n, g in enumerate(gens):
        data, objs = make_file(c, r, g, True)
        path = rl.put(c, "e%d" % n, data)
        so = [seen(o, P) for o, P in objs]
        scen.append(rl.scenario(path, so, "change" if any(not o["vis"] for o in so) and r.random() < .5 else "osm", "pbf", r.choice(["all", "mut", "obj"]), 0, how="same"))
    for n, g in enumerate(gens):
        data, objs = make_file(c, r, g, False)
        path = rl.put(c, "r%d" % n, data)
        raws.append((path, [rl.B({"e": "begin", "file": os.path.basename(path)})] + rl.read_cmds(path, "osm", "pbf", "obj")[1:]))
    # large blocks, many strings in arbitrary order
    big = [osm.robj(r, r.choice("nwr"), undef=False) for _ in range(c.pick(400, 4000))]
    for comp in (False, True):
        path = rl.put(c, "big%d" % comp, rl.pbf_bytes(big, r, P={"prestrings": [b"p%d" % i for i in range(20000)], "dup": True}, comp=comp))
        scen.append(rl.scenario(path, big, "osm", "pbf", "all", 0, how="pbf"))
    r.shuffle(scen)
    run = lambda: rl.run_scenarios(c, h, scen)
    ev = run()
    c.validate("ReadTrace", ev, what="encodings of the same data", recheck=run)

    def run2():
        out = []
        cur = None
        paths = {os.path.basename(p): p for p, _ in raws}
        for e in rl.run_scenarios(c, h, [x for _, x in raws]):
            if e["e"] == "begin":
                cur = []
                out += [e]
                f = paths[e["file"]]
            elif e["e"] == "obj":
                cur.append({"e": "obj", "o": e["o"], "b": wl.bigs(e["o"])})
            elif e["e"] == "res":
                pass
            else:
                out += joint(f, cur) + [e] if cur is not None else [e]
                cur = None
        return out
    run2 = c.repeat(run2)
    ev2 = run2()
    c.validate("PbfDecodeTrace", ev2, what="decoded values", recheck=run2)
    c.cov["decoded_objects"] = sum(1 for e in ev2 if e["e"] == "obj")
    a = next(k for k, e in enumerate(ev2) if e["e"] == "dn" and ev2[k + 1]["o"]["tags"])
    a = max(k for k in range(a) if ev2[k]["e"] == "begin")
    b = next(k for k in range(a + 1, len(ev2)) if ev2[k]["e"] == "begin")
    c.sample(ev2[a:a + 4])
    tr = ev2[a:b]

    def mut(f):
        def g(t):
            f(next(e for e in t if e["e"] == "obj" and e["o"]["t"] == "n"))
        return g
    c.control("PbfDecodeTrace", tr, mut(lambda e: e["o"].update(x=e["o"]["x"] + 2)))
    c.control("PbfDecodeTrace", tr, mut(lambda e: e["b"].update(ts=wl.big(12345))))
    c.control("PbfDecodeTrace", tr, mut(lambda e: e["o"].update(user=e["o"]["user"] + "x")))
    c.assumptions += ["metadata is present or absent as a whole; strings hold no NUL; groups are not empty and hold one kind of object",
                      "coordinates lie within a 32 bit number of 1/10^7 degrees; values between two representable ones may become either neighbour"]
