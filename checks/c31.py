"""C31: shapefile output keeps every geometry and attribute."""
import os
import readlib as rl
import vf
GEOS = "-UOSMIUM_OSM_AREA_HPP -Dgeos=geoscompat -I%s/harness/geoscompat" % vf.VERIF
LIM = 2147483647
EXACT = [(42274, 209), (40142, 220), (33503, 260)]     # rows and fields whose table has exactly LIM bytes
CH = ["a", "Z", " ", "é", "ß", "Ж", "€", "漢", "あ", "😀", "𝄞"]


def check(c):
    h = c.build("h_shape.cpp", flags=GEOS, libs="-lshp -lgeos_c -ldl")
    c.model("ShapeFile", consts={"MaxShapes": c.pick(6, 8)})
    for f in ("fieldhead", "reclen", "nofields", "noreset", "lostfirst"):
        c.model_must_fail("ShapeFile", consts={"Fault": '{"%s"}' % f})
    r = c.rnd
    pct = vf.pct
    cnt = [0]
    J = lambda *a: "\t".join(str(x) for x in a)

    def pos():
        return r.choice([0, 1, -1, 1800000000, -1800000000, 10**7, r.randrange(-1800000000, 1800000000)]), r.choice([0, 5, 900000000, -900000000, r.randrange(-900000000, 900000000)])

    def nodes(n, closed=False):
        refs, out = [], []
        for i in range(n):
            k = r.random()
            if out and k < .15:
                out.append(out[-1])                       # the same node again
            elif out and k < .3:
                out.append((r.randrange(1, 60), out[-1][1], out[-1][2]))   # another node at the same place
            elif len(out) > 1 and k < .4:
                out.append(r.choice(out))
            else:
                out.append((r.randrange(1, 60),) + pos())
        if closed and out:
            out.append(out[0])
        return ",".join("%d:%d:%d" % x for x in out)

    def square(x, y, d, n=0):
        p = [(x, y), (x + d, y), (x + d, y + d), (x, y + d)]
        for _ in range(n):
            p.insert(1, (x + r.randrange(1, d), y))
        p.append(p[0])
        if r.random() < .5:
            p.reverse()
        return ",".join("%d:%d" % q for q in p)

    def begin(kind, sink=False, cannot=False, prep=None):
        cnt[0] += 1
        d = os.path.join(c.tmp, "s%d" % cnt[0])
        os.mkdir(d)
        base = r.choice(["x", "out", "a.b", "roads"])
        if prep:
            prep(d, base)
        return [rl.B({"e": "begin", "n": cnt[0], "cannot": cannot}), J("new", d, base, kind, int(sink))]

    def text():
        return "".join(r.choice(CH) for _ in range(r.choice([0, 1, 2, 3, 5, 12, 40])))

    def fields(real=True):
        fs, out = [], []
        for i in range(r.choice([0, 1, 2, 3, 6])):
            t = r.choice(["string", "string", "integer", "double", "bool"])
            w = r.choice([1, 2, 3, 4, 5, 10, 30, 255]) if t == "string" else r.choice([1, 3, 9, 11]) if t == "integer" else r.choice([8, 12, 20]) if t == "double" else 1
            d = 0 if t != "double" else r.choice([0, 2, 5])
            how = r.choice("se")
            if t != "double" and how == "s" and r.random() < .5:
                out.append(J("field", "s", "f%d" % i, t, w, r.randrange(4)))    # decimals are ignored
            elif w == 1 and d == 0 and r.random() < .5:
                out.append(J("field", "s0", "f%d" % i, t, 1, 0))
            else:
                out.append(J("field", how, ("f%d" % i) + "x" * r.choice([0, 0, 3, 8]), t, w, d))
            fs.append((t, w, d))
            if r.random() < .1:
                out.append(r.choice([J("field", "s", "", "string", 5, 0), J("field", "e", "f" * 12, "string", 5, 0), J("field", "e", "w", "string", 256, 0),
                                     J("field", "s", "f", "text", 5, 0), J("field", "s", "n" * 12, "bool", 1, 0)]))
        return fs, out

    def value(f):
        t, w, d = f
        if r.random() < .1:
            return ["null", ""]
        if t == "string":
            s = text()
            how = r.choice(["cut", "cut", "cutc", "string", "chars"])
            if r.random() < .3 and how.startswith("cut"):       # just around the width
                while len(s.encode()) < w - 4:
                    s += r.choice(CH)
                for _ in range(6):
                    s += r.choice(CH[3:])
            if how in ("string", "chars") and r.random() < .7:
                while len(s.encode()) > w:
                    s = s[:-1]
            return [how, pct(s)]
        if t == "integer":
            n = r.choice([0, 1, 9, 10**(min(w, 9)) - 1, 2147483647, -2147483648, -5, r.randrange(10**min(w, 9))])
            return ["int", str(n)]
        if t == "double":
            k = r.randrange(-10**6, 10**6)
            s = "%d" % k if d == 0 else "%s%d.%0*d" % ("-" if k < 0 else "", abs(k) // 10**d, d, abs(k) % 10**d)
            return ["double", s]
        return ["bool", r.choice("TF")]

    def attrs(fs):
        out, some = [], False
        for i, f in enumerate(fs):
            if r.random() < .8 or (i == len(fs) - 1 and not some):
                some = True
                for _ in range(1 if r.random() < .9 else 2):
                    out.append(J("attr", i, *value(f)))
        return out

    def geom(kind):
        k = kind if r.random() < .9 else r.choice(["point", "line", "poly", "null"])
        b = r.randrange(2)
        if k == "point":
            return J("geom", b, "point", *pos()), k == kind
        if k == "line":
            return J("geom", b, "line", r.randrange(2), nodes(r.choice([0, 1, 2, 2, 3, 5, 20]))), None
        if k == "null":
            return J("geom", b, "null"), False
        m = r.randrange(4)
        if m == 0:
            return J("geom", b, "ring", r.randrange(2), nodes(r.choice([0, 1, 3, 4, 9]), closed=r.random() < .8)), None
        x, y = r.randrange(-10**9, 10**9), r.randrange(-10**8, 10**8)
        if m == 1:
            s = [tuple(map(int, q.split(":"))) for q in square(x, y, 1000, r.randrange(3)).split(",")]
            return J("geom", b, "area", 0, ",".join("%d:%d:%d" % (1 if i == len(s) - 1 else i + 1, p[0], p[1]) for i, p in enumerate(s))), k == kind
        tri = lambda x, y: ["%d:%d,%d:%d,%d:%d,%d:%d" % r.choice([(x, y, x + 3000, y + 1000, x + 1000, y + 3000, x, y), (x, y, x + 1000, y + 3000, x + 3000, y + 1000, x, y)])] * (r.random() < .3)
        return J("geom", b, "mp", "|".join("/".join([square(x + 10**7 * i, y, 10**6, r.randrange(3))] + tri(x + 10**7 * i, y) + [square(x + 10**7 * i + 2000 * (j + 1), y + 50005, 1000) for j in range(r.randrange(3))])
                                           for i in range(r.choice([1, 1, 2, 3])))), k == kind
    scen = []
    for i in range(c.pick(400, 4000)):                        # real files
        kind = r.choice(["point", "line", "poly"])
        s = begin(kind)
        fs, out = fields()
        s += out
        for _ in range(r.choice([0, 1, 3, 8])):
            g, fits = geom(kind)
            s.append(g)
            if fits and fs:
                s += attrs(fs)
            elif fits is None and fs:                         # may be refused: the attribute goes to it or is not written at all
                s[-1] = J("geom", 0, "point", *pos()) if kind == "point" else s[-1]
                s.append("?")                                 # decided below
        scen.append((s, fs) + ((r.choice(["close", "close2", "end"])),))
    lines = []
    for s, fs, end in scen:
        out = []
        for x in s:
            if x == "?":
                if accepted(out[-1], s):
                    out += attrs(fs)
            else:
                out.append(x)
        out.append("close\tend" if end == "end" else "close\tclose" + ("\t2" if end == "close2" else ""))
        lines.append(out)
    # every cut of every short text over characters of 1 to 4 bytes
    one = ["a", "é", "€", "😀"]
    texts = [""] + [x for n in (1, 2, 3) for x in combos(one, n)] + ([x for x in combos(one, 4)] if c.thorough else [])
    for w in range(1, c.pick(8, 11)):
        s = begin("point") + [J("field", "e", "t", "string", w, 0)]
        for x in texts:
            s += [J("geom", 0, "point", 1, 2), J("attr", 0, r.choice(["cut", "cutc"]), pct(x))]
        lines.append(s + ["close\tend"])
    # files that cannot be created
    lines.append(begin("point", cannot=True, prep=lambda d, b: os.rmdir(d)))
    for suf in (".shp", ".shx", ".dbf", ".prj", ".cpg"):
        for kind in ("point", "poly"):
            lines.append(begin(kind, cannot=True, prep=lambda d, b: os.makedirs(os.path.join(d, b + suf, "x"))))
    # sizes at the limit
    for i in range(c.pick(60, 500)):
        t = r.choice([1, 3, 5, 3, 5, 8, 11, 13, 15, 18, 21, 23, 25, 28, 31, 0])
        s = begin(str(t), sink=True)
        nf = r.choice([0, 1, 2, 256])
        for k in range(nf):
            s.append(J("field", "e", "f%d" % k, "string", 255 if nf == 256 else r.choice([1, 10, 255]), 0))
        for _ in range(r.choice([1, 2, 4])):
            parts = r.choice([1, 1, 5, 100000])
            n = r.choice([2, 1000, 10**5, 10**6, 5 * 10**6])
            if t in (1, 11, 21, 0):
                k = r.choice([1, 5, 40000])
            else:
                dim = 16 if t in (3, 5, 8) else 24 if 20 < t < 29 else 32
                k = r.choice([1, 3, min(40000, LIM // (n * dim)), min(40000, LIM // (n * dim) + 1), min(40000, 3 * LIM // (n * dim))])
            s.append(J("many", k, t, parts, n, r.choice(["x", "yy", "z"])))
        lines.append(s + [r.choice(["close\tclose", "close\tend"])])
    # exactly at the limit, one byte more and less
    for d in range(-2, 3):
        for t, dim in ((3, 16), (5, 16), (8, 16), (23, 24), (13, 32), (31, 32)):
            s = begin(str(t), sink=True)
            fixed = 12 + 32 + (32 if t in (13, 31) else 16 if t == 23 else 0) + (4 if t == 8 else 8)
            per = 8 if t == 31 else 0 if t == 8 else 4
            rest = LIM - 100 - 2 * (fixed + per)
            n = rest // dim // 2
            left = rest - 2 * n * dim                          # to be filled by parts of the second
            s += [J("many", 1, t, 1, n, "x"), J("many", 1, t, 1 + (left // per if per else 0) + d, n, "x"), J("many", 2, t, 1, 2, "x")]
            lines.append(s + ["close\tclose"])
    for d in range(0, 2):                                      # rows: 33 + 32 f + n (1 + sum of widths)
        for nf in (1, 2, 200):
            s = begin("1", sink=True)
            rec = 1 + 255 * nf
            s += [J("field", "e", "f%d" % k, "string", 255, 0) for k in range(nf)]
            if nf == 200:
                n = (LIM - 33 - 32 * nf) // rec + d
                s += [J("many", n, 1, 1, 1, "x"), J("many", 3, 1, 1, 1, "y")]
            else:
                n = 30000
                s += [J("many", n, 1, 1, 1, "x"), J("many", 3, 1, 1, 1, "y")]
            lines.append(s + ["close\tend"])
    for n, nf in [(n, nf) for n, nf in EXACT]:                 # the table fills the file to the last byte
        rec = (LIM - 33 - 32 * nf) // n
        assert rec * n == LIM - 33 - 32 * nf
        for d in range(0, 2):
            s, left = begin("1", sink=True), rec - 1
            for k in range(nf):
                w = max(1, min(255, left - (nf - 1 - k)))
                left -= w
                s.append(J("field", "e", "f%d" % k, "string", w, 0))
            assert left == 0
            lines.append(s + [J("many", n - 1 + d, 1, 1, 1, "x"), J("many", 1, 1, 1, 1, "y"), J("many", 2 * d, 1, 1, 1, "x"), "close\tend"])
    s = begin("3", sink=True)
    for k in range(2049):
        s.append(J("field", "e", "f%d" % k, "string", 255, 0))
    lines.append(s + [J("many", 9000, 3, 1, 2, "x"), "close\tend"])
    run = lambda: again(c, h, lines)
    ev = run()
    c.validate("ShapeTrace", ev, what="shapefile export", recheck=run)
    c.cov["files"] = sum(len(e["files"]) for e in ev if e["e"] == "files")
    c.cov["full_files"] = sum(len(e["files"]) - 1 for e in ev if e["e"] == "files" and e["files"])
    b = [i for i, e in enumerate(ev) if e["e"] == "begin"] + [len(ev)]
    segs = [ev[x:y] for x, y in zip(b, b[1:])]
    seg = next(s for s in segs if s[-1]["e"] == "files" and not s[1]["sink"] and len(s[-1]["files"][0]["runs"]) > 2 and s[-1]["files"][0]["fields"])
    c.sample(seg[-1])
    c.control("ShapeTrace", seg, lambda t: t[-1]["files"][0]["runs"].pop(1))
    big = next(s for s in segs if s[-1]["e"] == "files" and s[1]["sink"] and len(s[-1]["files"]) > 1)
    c.control("ShapeTrace", big, lambda t: t[-1]["files"][0]["runs"][0].__setitem__(2, t[-1]["files"][0]["runs"][0][2] + 1))
    c.assumptions += ["fields are added before the first geometry and every geometry gets an attribute (the documented order of calls)",
                      "files at the size limit are written to a stand-in for shapelib that keeps shapes and rows in memory",
                      "the C++ interface of GEOS 3.3 is provided by harness/geoscompat on top of the installed C library"]


def combos(xs, n):
    return [""] if n == 0 else [a + b for a in combos(xs, n - 1) for b in xs]


def accepted(line, s):
    """Would this line or ring be taken? (only decides whether attributes are written after it)"""
    f = line.split("\t")
    kind = s[1].split("\t")[3]
    if f[2] not in ("line", "ring") or (f[2] == "line") != (kind == "line") or not f[4]:
        return f[2] == "point" and kind == "point"
    n = [tuple(map(int, x.split(":"))) for x in f[4].split(",")]
    if f[2] == "ring" and n[0][0] != n[-1][0]:
        return False
    return any(a[0] != b[0] and a[1:] != b[1:] for a, b in zip(n, n[1:]))


def again(c, h, lines):
    """Run in fresh directories each time."""
    import shutil
    for s in lines:
        d = s[1].split("\t")[1]
        for f in os.listdir(d) if os.path.isdir(d) else []:
            if os.path.isfile(os.path.join(d, f)):
                os.unlink(os.path.join(d, f))
    return rl.run_scenarios(c, h, lines)
