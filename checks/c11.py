"""C11: file objects own their descriptor and child process exactly once."""
import bz2, gzip, os, re
import readlib as rl
import vf


def check(c):
    h = c.build("h_file.cpp", libs="-ldl")
    c.model("MCFile", consts={"MaxOps": c.pick(6, 8)}, timeout=1800)
    for f in ("copyfd", "assignleak", "nodestroy", "zero", "anychild"):
        c.model_must_fail("MCFile", consts={"Fault": '{"%s"}' % f, "MaxOps": 5})
    r = c.rnd
    short = c.generate("MCFile", "MCFileGen.cfg", consts={"MaxOps": 4, "Slots": "{1, 2}", "Extras": "FALSE", "Kinds": '{"inplain", "ingz", "inbad", "outgz"}'})
    short = [list(x) for x in sorted({tuple(tuple(o) for o in g) for g in short})]
    short.sort()
    c.cov["short_histories"] = len(short)
    if len(short) > c.pick(2500, 20000):
        short = r.sample(short, c.pick(2500, 20000))
    long = c.generate("MCFile", "MCFileGen.cfg", simulate=c.pick(300, 4000), depth=16, consts={"MaxOps": 15, "Slots": "{1, 2, 3, 4}"})
    d = os.path.join(c.tmp, "w") + "/"
    os.mkdir(d)
    xml = b'<osm version="0.6">\n' + b" " * 200 + b"</osm>\n"
    for name, data in (("in.osh", xml), ("in.osc.gz", gzip.compress(xml)), ("bad.osm.bz2", bz2.compress(xml)[:-12])):
        with open(d + name, "wb") as f:
            f.write(data)
    scen = []
    for g in short + long:
        lines = [rl.B({"e": "begin"})] + ["O\t%s\t%s\t%s" % tuple(o) for o in g]
        if r.random() < .3:   # what is destroyed last
            lines += ["O\tclose\t%d\t-" % s for s in (1, 2, 3, 4)]
        order = [1, 2, 3, 4]
        r.shuffle(order)
        lines += ["O\tforks\t1\t-", "O\treap\t0\t-"][::r.choice([1, -1])]
        lines += ["O\tdestroy\t%d\t-" % s for s in order] + ["E"]
        scen.append(lines)
    multi = []
    for n, filler, order, enc in ((2, 0, "fifo", ".osm.gz"), (2, 0, "lifo", ".osm.gz"), (5, 0, "mix", "mix"), (3, 40, "fifo", ".osm.gz"), (3, 40, "lifo", ".osc.bz2"), (6, 28, "fifo", "mix"),
                                  (6, 30, "mix", ".osh.gz"), (12, 60, "fifo", ".osm.bz2"), (20, 10, "fifo", ".osm.gz"), (20, 10, "lifo", ".osm.gz"), (40, 0, "fifo", "mix"), (40, 0, "lifo", ".osm.gz")):
        multi.append((n, filler, order, enc))

    def run():
        ev = []
        dirs = []
        for i in range(8):     # each process works in its own directory
            di = os.path.join(c.tmp, "w%d" % i) + "/"
            os.makedirs(di, exist_ok=True)
            for nm in ("in.osh", "in.osc.gz", "bad.osm.bz2"):
                with open(d + nm, "rb") as f, open(di + nm, "wb") as g:
                    g.write(f.read())
            dirs.append(di)
        scripts = ["%sD\t%s\n" % ("Z\n" if i % 2 else "", dirs[i]) + "\n".join("\n".join(x) for x in ch) + "\n" for i, ch in enumerate(rl.chunks(scen, 8))]
        for x in c.harness_all(h, scripts, timeout=120):
            ev += x
        for j, (n, filler, order, enc) in enumerate(multi):
            di = dirs[j % 8]
            x = c.harness(h, "D\t%s\n%s\nK\t%d\t%d\t%s\t%s\nE\n" % (di, rl.B({"e": "begin", "multi": [n, filler, order, enc]}), n, filler, order, enc), timeout=25)
            for e in x:
                if e["e"] == "multi":
                    right = 0
                    for i in range(n):
                        suf = enc if enc != "mix" else (".osm.gz", ".osm.bz2", ".osm")[i % 3]
                        try:
                            b = open(di + "multi%d%s" % (i, suf), "rb").read()
                            b = gzip.decompress(b) if suf.endswith("gz") else bz2.decompress(b) if suf.endswith("bz2") else b
                            right += b == b"data %d\n" % i
                        except (OSError, EOFError, ValueError):
                            pass
                    e["right"] = right
            ev += x
        return ev
    ev = run()
    c.validate("FileTrace", ev, what="file objects", recheck=run)
    c.cov["operations"] = sum(1 for e in ev if e["e"] == "op")
    i = next(k for k, e in enumerate(ev) if e["e"] == "op" and e["kids"] and e["op"] == "copy")
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    b = next(k for k in range(i, len(ev)) if ev[k]["e"] == "begin")
    c.sample(ev[a:b][:8])

    def leak(t):
        e = next(e for e in t if e["e"] == "op" and e["open"])
        e["open"] = e["open"] + [99]
    c.control("FileTrace", ev[a:b], leak)

    def share(t):
        e = next(e for e in t if e["e"] == "op" and e["op"] == "copy" and e["open"])
        e["fd"][e["b"] - 1] = e["open"][0]
    c.control("FileTrace", ev[a:b], share)
    c.assumptions += ["standard output is not used as a file; standard input is open in one half of the histories and closed in the other", "an input child whose output is not read to the end may report any status"]
