"""C08: truncated or damaged input is reported, never silently accepted."""
import bz2, gzip, http.server, os, struct, threading, zlib
import osm, pbf, readlib as rl


def check(c):
    h = c.build("h_io.cpp")
    c.model("Framing", consts={"DataLen": c.pick(3, 6)})
    for f in ("partial", "nostatus", "leak"):
        c.model_must_fail("Framing", consts={"Fault": '{"%s"}' % f})
    r = c.rnd
    scen = []
    n = 0

    def add(data, objs, typ, enc, out, how, name=None, kind=None):
        nonlocal n
        n += 1
        path = rl.put(c, "%s%d" % (name or "f", n), data)
        scen.append(rl.scenario(path, objs, typ, enc, kind or r.choice(["all", "mut"]), 0, how=how, out=out))
        return path

    def small(typ, k):
        objs = [osm.robj(r, hist=typ == "history", maxn=2) for _ in range(k)]
        for o in objs:
            o["user"] = o["user"][:60]
            o["tags"] = [p for p in o["tags"] if len(p[0]) + len(p[1]) < 80]
            o["mem"] = [m for m in o["mem"] if len(m[2]) < 80]
        return objs

    # ---- PBF: every truncation point
    for k in range(c.pick(3, 12)):
        typ = r.choice(["osm", "history"])
        objs = small(typ, r.choice([2, 3, 5]))
        comp = k % 2 == 0
        data = rl.pbf_bytes(objs, r, hist=typ == "history", P={"vis": typ == "history"}, comp=comp)
        ends, pos = {}, 0
        for b in pbf.split_blobs(data):
            pos += 4 + b["head"] + b["size"]
            ends[pos] = b
        how = "pbfvis" if typ == "history" else "pbf"
        done = 0
        cuts = range(1, len(data) + 1) if len(data) < 1500 or c.thorough else sorted(r.sample(range(1, len(data) + 1), 900) + list(ends))
        ok = {}
        for e in sorted(ends):
            if ends[e]["type"] == "OSMData":
                B = pbf.decode_block(ends[e]["payload"])
                done += sum(len(it["id"]) if it["t"] == "d" else 1 for g in B["groups"] for it in g["items"])
            ok[e] = done
        for cut in cuts:
            if cut in ok:
                add(data[:cut], objs[:ok[cut]], typ, "pbf", "ok", how)
            else:
                add(data[:cut], objs, typ, "pbf", "any", how)
    # ---- PBF: broken framing and compression
    objs = small("osm", 4)
    whole = [osm_block for osm_block in pbf.split_blobs(rl.pbf_bytes(objs, r, comp=True, blocks=False))]
    hdr, blk = whole[0]["payload"], whole[1]["payload"]

    def framed(kind, blob, size=None, datasize=None):
        h1 = pbf.f_bytes(1, kind) + pbf.f_var(3, len(blob) if datasize is None else datasize)
        return struct.pack(">I", len(h1) if size is None else size & 0xFFFFFFFF) + h1 + blob

    def blob(payload, raw=None, flip=None, cutz=0, which="z"):
        z = bytearray(zlib.compress(payload))
        if flip is not None:
            z[flip % len(z)] ^= 1 << r.randrange(8)
        z = bytes(z[:len(z) - cutz])
        if which == "raw":
            return pbf.f_bytes(1, payload)
        if which == "none":
            return pbf.f_var(2, len(payload))
        if which == "lzma":
            return pbf.f_var(2, len(payload)) + pbf.f_bytes(4, z)
        return pbf.f_var(2, len(payload) if raw is None else raw) + pbf.f_bytes(3, z)
    H = framed("OSMHeader", blob(hdr))
    good = framed("OSMData", blob(blk))
    bad = []
    for s in (65537, 0x7FFFFFFF, -1, 0x80000000, 1, 5):
        bad.append(framed("OSMData", blob(blk), size=s))
    for d in (-1, 2**31 - 1, 33554433, len(blob(blk)) + 1, len(blob(blk)) - 1, 10**6):
        bad.append(framed("OSMData", blob(blk), datasize=d))
    zl = len(zlib.compress(blk))
    for k in range(zl) if c.thorough or zl < 120 else r.sample(range(2, zl), 120):
        z = bytearray(zlib.compress(blk))
        for bit in ([r.randrange(8)] if not c.thorough else range(8)):
            z2 = bytearray(z)
            z2[k] ^= 1 << bit
            try:
                if zlib.decompress(bytes(z2)) == blk:
                    continue
            except zlib.error:
                pass
            bad.append(framed("OSMData", pbf.f_var(2, len(blk)) + pbf.f_bytes(3, bytes(z2))))
    for k in (1, 2, 4, 5, zl // 2):
        bad.append(framed("OSMData", blob(blk, cutz=k)))
    for raw in (0, 1, len(blk) - 1, len(blk) + 1, len(blk) * 2, 33554432, 33554433, 2**31 - 1, -1):
        bad.append(framed("OSMData", blob(blk, raw=raw)))
    bad += [framed("OSMData", blob(blk, which=w)) for w in ("none", "lzma")]
    # intact data with damage behind it or before it in its message
    junk = [b"\xff", b"\x80\x80", b"\x10\xff", b"\x10", b"\x07", b"\x1a\x05ab", b"\x0a\xff\xff\xff\xff\x0f", b"\x3d\x01", b"\x39abc"]
    for j in junk:
        for which in ("z", "raw"):
            bad.append(framed("OSMData", blob(blk, which=which) + j))
            bad.append(framed("OSMData", blob(blk + j, which=which)))
            add(framed("OSMHeader", blob(hdr, which=which) + j) + good, [], "osm", "pbf", "any", "pbf")
            add(framed("OSMHeader", blob(hdr + j, which=which)) + good, [], "osm", "pbf", "any", "pbf")
        h1 = pbf.f_bytes(1, "OSMData") + pbf.f_var(3, len(blob(blk))) + j
        bad.append(struct.pack(">I", len(h1)) + h1 + blob(blk))
    # parts of the message cut off inside an intact frame
    for k in (1, 2, 3, len(blk) // 2):
        bad.append(framed("OSMData", pbf.f_bytes(1, blk[:len(blk) - k])))
    for k in (1, 2, 3, 4):                                   # also in the header
        for which in ("raw", "z"):
            add(framed("OSMHeader", blob(hdr[:-k], which=which)) + good, [], "osm", "pbf", "any", "pbf")
    for b in bad:
        add(H + b, objs, "osm", "pbf", "any", "pbf")
        add(H + good + b, objs + objs, "osm", "pbf", "any", "pbf")
        add(b.replace(b"OSMData", b"OSMHeader"), [], "osm", "pbf", "any", "pbf") if b"\x07OSMData" not in b else None
    # beyond the format's limits although everything is there
    rest = pbf.f_bytes(1, "OSMData") + pbf.f_var(3, len(blob(blk)))
    for hs in (65000, 65400, 65535, 65537, 65600, 66000, 200000, 2000000):
        pad = hs - len(rest)
        pad -= len(pbf.f_bytes(2, b"i" * pad)) - pad
        h1 = rest[:9] + pbf.f_bytes(2, b"i" * pad) + rest[9:]
        add(H + struct.pack(">I", len(h1)) + h1 + blob(blk), objs, "osm", "pbf", "ok" if len(h1) < 65536 else "any", "pbf")
    for n2 in (10**6, 2**25 - 1, 2**25 + 1, 2**25 + 1000, 2**25 + 2**20):
        big = blk + pbf.f_bytes(1, pbf.f_bytes(1, b"s" * (n2 - len(blk) - 10)))
        big = blk + pbf.f_bytes(1, pbf.f_bytes(1, b"s" * (2 * n2 - len(blk) - 10 - len(big))))
        assert len(big) == n2
        for which in ("z", "raw") if n2 < 2**24 or n2 > 2**25 + 1 else ("z",):
            add(H + framed("OSMData", blob(big, which=which)), objs, "osm", "pbf", "ok" if n2 < 2**25 else "any", "pbf")
    add(H + good, objs, "osm", "pbf", "ok", "pbf")
    # ---- XML: every truncation point, plain and compressed
    for k in range(c.pick(3, 10)):
        typ = ("osm", "history", "change")[k % 3]
        objs = small(typ, r.choice([1, 2, 4]))
        kw = {}
        if typ == "change":
            kw = dict(visattr=False, sections=[(r.choice(["create", "modify"]), 1) for _ in objs])
        data = osm.xml_file(objs, typ, rnd=r, **kw)
        end = data.rindex(b">") + 1
        how = "xml" if typ == "osm" else "xmlvis"
        if typ == "change":
            objs = [dict(o, vis=True) for o in objs]
        for cut in range(0, len(data) + 1):
            add(data[:cut], objs, typ, "xml", "any" if cut < end else "ok", how)
        if k < c.pick(2, 6):
            for enc, z in (("xmlgz", gzip.compress(data)), ("xmlbz2", bz2.compress(data))):
                cuts = range(len(z)) if c.thorough else sorted(r.sample(range(len(z)), min(len(z), 110)) + [0, 1, len(z) - 1])
                for cut in cuts:
                    add(z[:cut], objs, typ, enc, "any", how)
                add(z, objs, typ, enc, "ok", how)
                for pos in range(1, 9 if enc == "xmlgz" else 4):  # checksums at the end
                    y = bytearray(z)
                    y[-pos if enc == "xmlgz" else -pos - 1] ^= 0x10
                    add(bytes(y), objs, typ, enc, "any", how)
                add(data, objs, typ, enc, "any", how)   # not compressed at all
    # ---- XML: broken syntax behind some objects
    objs = small("osm", 4)
    parts = [osm.xml_obj(o, False).encode() for o in objs]
    head, tail = b'<?xml version="1.0"?>\n<osm version="0.6">\n', b"</osm>\n"
    junk = [b"</node>", b"<", b"<node", b"<node id=1/>", b"&", b"&foo;", b"]]>", b"<a b='1' b='2'/>", b"\x00", b"\xff\xfe", b"<x><tag k=\"a\" v=\"<\"/></x>",
            b"</osm><osm>", b"<!-- -- -->", b"<x></way>", b"\x01", b"<node id=\"1\"", b"<?xml version='1.0'?>"]
    for j in junk:
        for k in range(len(parts) + 1):
            add(head + b"".join(parts[:k]) + j + b"".join(parts[k:]) + tail, objs, "osm", "xml", "any", "xml")
    add(head + b"".join(parts) + tail, objs, "osm", "xml", "ok", "xml")
    add(head + b"".join(parts) + tail + b"x", objs, "osm", "xml", "any", "xml")
    # unreadable: a directory
    os.mkdir(os.path.join(c.tmp, "dir"))
    for enc in ("xml", "pbf", "xmlgz", "xmlbz2"):
        scen.append(rl.scenario(os.path.join(c.tmp, "dir"), [], "osm", enc, "all", 0, out="any"))
        scen.append(rl.scenario(os.path.join(c.tmp, "missing"), [], "osm", enc, "all", 0, out="any"))
    c.cov["damaged_files"] = len(scen)
    r.shuffle(scen)

    # ---- children: decompression and download programs with every kind of ending
    bindir, nobin, data_dir = (os.path.join(c.tmp, x) for x in ("bin", "nobin", "data"))
    for d in (bindir, nobin, data_dir):
        os.mkdir(d)
    for prog in ("zcat", "bzcat", "curl"):
        with open(os.path.join(bindir, prog), "w") as f:
            f.write('#!/bin/sh\nW="%s/${1##*/}"\n. "$W.how"\n' % data_dir)
        os.chmod(os.path.join(bindir, prog), 0o755)
    objs = small("osm", 5) + [osm.robj(r) for _ in range(300)]
    data = osm.xml_file(objs, "osm", rnd=r)
    half = len(data) // 2
    hows = [("cat \"$W.raw\"; exit 0", "ok"), ("cat \"$W.raw\"; exit 1", "any"), ("cat \"$W.raw\"; exit 2", "any"), ("cat \"$W.raw\"; exit 255", "any"),
            ("cat \"$W.raw\"; kill -9 $$", "any"), ("cat \"$W.raw\"; kill -TERM $$", "any"), ("cat \"$W.raw\"; exec >&-; sleep 0.2; exit 1", "any"),
            ("cat \"$W.raw\"; exec >&-; sleep 0.2; exit 0", "ok"), ("head -c %d \"$W.raw\"; exit 0" % half, "any"), ("head -c %d \"$W.raw\"; exit 1" % half, "any"),
            ("head -c %d \"$W.raw\"; kill -9 $$" % half, "any"), ("exit 0", "any"), ("exit 1", "any"), ("kill -9 $$", "any"),
            ("head -c 3000 \"$W.raw\"; sleep 0.1; tail -c +3001 \"$W.raw\"; exit 7", "any"), ("head -c 3000 \"$W.raw\"; sleep 0.1; tail -c +3001 \"$W.raw\"", "ok"),
            ("head -c 1000 \"$W.raw\"; printf '</way>'; tail -c +1001 \"$W.raw\"; cat \"$W.raw\" \"$W.raw\" \"$W.raw\" \"$W.raw\"; exit 0", "any")]
    child = []
    for i, (how, out) in enumerate(hows):
        for enc, pre in (("xmlgz", data_dir + "/"), ("xmlbz2", data_dir + "/"), ("xml", "http://localhost/")):
            name = "c%d%s" % (i, enc)
            for suf, d in (("", b""), (".raw", data), (".how", how.encode() + b"\n")):
                with open(os.path.join(data_dir, name + suf), "wb") as f:
                    f.write(d)
            child.append(rl.scenario(pre + name, objs, "osm", enc, "all", 0, how="xml", out=out))
    missing = [rl.scenario(p, [], "osm", e, "all", 0, how="xml", out="any") for p, e in
               ((rl.put(c, "m.gz", gzip.compress(data)), "xmlgz"), (rl.put(c, "m.bz2", bz2.compress(data)), "xmlbz2"), ("http://localhost/x.osm", "xml"))]

    # ---- a real download: complete, cut off by the server, refused
    class Srv(http.server.BaseHTTPRequestHandler):
        def do_GET(self):
            self.send_response(200)
            self.send_header("Content-Length", str(len(data)))
            self.end_headers()
            k = len(data) if "full" in self.path else int(self.path.rsplit("/", 1)[1])
            self.wfile.write(data[:k])

        def log_message(self, *a):
            pass
    srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Srv)
    threading.Thread(target=srv.serve_forever, daemon=True).start()
    url = "http://127.0.0.1:%d/" % srv.server_port
    net = [rl.scenario(url + "full", objs, "osm", "xml", "all", 0, how="xml", out="ok")]
    end = data.rindex(b">") + 1
    for k in (0, 1, 500, half, end - 1, end):  # cut behind the last element: only the program knows
        if k < len(data):
            net.append(rl.scenario(url + "cut/%d" % k, objs, "osm", "xml", "all", 0, how="xml", out="any"))
    net.append(rl.scenario("http://127.0.0.1:9/x", [], "osm", "xml", "all", 0, how="xml", out="any"))

    def run():
        ev = rl.run_scenarios(c, h, scen)
        for sc, path in ((child, bindir + ":" + os.environ["PATH"]), (missing, nobin), (net, os.environ["PATH"])):
            for ch in rl.chunks(sc, 8):
                ev += c.harness(h, "\n".join("\n".join(x) for x in ch) + "\n", env={"PATH": path, "no_proxy": "*"})
        return ev
    ev = run()
    c.validate("ReadTrace", ev, what="reading damaged input", recheck=run)
    c.cov["failures_reported"] = sum(1 for e in ev if e["e"] == "throw")
    i = next(k for k, e in enumerate(ev) if e["e"] == "throw" and ev[k - 1]["e"] == "obj")
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    b = next(k for k in range(i, len(ev)) if ev[k]["e"] == "begin")
    c.sample(ev[a:b])

    def silent(t):
        k = next(k for k, e in enumerate(t) if e["e"] == "throw")
        return t[:k] + [{"e": "final"}, {"e": "ret"}] + t[k + 1:]
    c.control("ReadTrace", ev[a:b], silent)

    def leak(t):
        t[-1]["fds"] = 1
    c.control("ReadTrace", ev[a:b], leak)
    c.assumptions += ["damage kinds: truncation, frame sizes, blob sizes, zlib data, XML syntax, child exit; damage inside an intact frame and checksum is not in scope",
                      "children are stand-ins found through PATH, plus the real zcat, bzcat and curl"]
