"""C38: the rules of a shapefile configuration decide what is in the shapefiles."""
import glob, json, os, struct
from concurrent.futures import ThreadPoolExecutor
import c37
import osm
import readlib as rl
import vf
CONST = {"point": "POINT", "line": "LINE", "polygon": "POLYGON", "integer": "INTEGER", "string": "STRING", "double": "DOUBLE", "bool": "BOOL"}
LOGGER = """
function pct(x) { return unescape(encodeURIComponent(String(x))).split('').map(function(c) { c = c.charCodeAt(0); return c >= 0x21 && c < 0x7f && c != 0x25 ? String.fromCharCode(c) : '%' + (c < 16 ? '0' : '') + c.toString(16).toUpperCase(); }).join(''); }
function units(v) { return typeof v == 'number' ? Math.round(v * 1e7) : v.map(units); }
['node', 'way', 'area'].forEach(function(t) {
    var f = Osmium.Callbacks[t];
    Osmium.Callbacks[t] = function() {
        var g = units(this.geom.toArray()), tags = [], k;
        for (k in this.tags) tags.push([pct(k), pct(this.tags[k])]);
        if (t == 'node') g = [[g]]; else if (t == 'way') g = [g]; else g = Array.prototype.concat.apply([], g);
        print(JSON.stringify({ e: 'obj', on: t, id: String(this.id), tags: tags, parts: g }));
        f.call(this);
    };
});
"""
KEYS = ["name", "highway", "é", "a b", "num", "flag", "id"]
FLAGS = ["true", "True", "false", "False", "t", "T", "f", "F", "y", "Y", "yes", "Yes", "n", "N", "no", "No", "1", "0", "2", "maybe", "", "é"]
NUMS = ["0", "1", "-1", "7", "-17", "4711", "99999", "-2147483648", "2147483647", "2147483648", "4294967297", "-99999999999", "123456789012", "x", ""]
VALS = ["yes", "a b", "", "é", "漢字漢字", "100%", "no", "1", "0", "x", "y", "a|b", "*", "true", "F", "2", "maybe", "-17", "4711", "50 mph", "😀😀", "None", "1x", "007"]


def chars(s):
    return ["".join("%%%02X" % b for b in ch.encode()) for ch in s]


def read_shapefile(base):
    """An independent reader of the .shp and .dbf files."""
    d = open(base + ".shp", "rb").read()
    kind = {1: "point", 3: "line", 5: "polygon"}.get(struct.unpack("<i", d[32:36])[0], "?")
    assert struct.unpack(">i", d[24:28])[0] * 2 == len(d), "length in the header"
    E = lambda x: round(x * 1e7)
    shapes, at = [], 100
    while at < len(d):
        n, words = struct.unpack(">ii", d[at:at + 8])
        assert n == len(shapes) + 1, "record number"
        r = d[at + 8:at + 8 + 2 * words]
        at += 8 + 2 * words
        t = struct.unpack("<i", r[:4])[0]
        if t == 1:
            shapes.append([[[E(v) for v in struct.unpack("<dd", r[4:20])]]])
        else:
            np, npt = struct.unpack("<ii", r[36:44])
            st = list(struct.unpack("<%di" % np, r[44:44 + 4 * np])) + [npt]
            o = 44 + 4 * np
            p = [[E(v) for v in struct.unpack("<dd", r[o + 16 * i:o + 16 * i + 16])] for i in range(npt)]
            shapes.append([p[a:b] for a, b in zip(st, st[1:])])
    d = open(base + ".dbf", "rb").read()
    nrec, head, size = struct.unpack("<IHH", d[4:12])
    cols, at = [], 32
    while d[at] != 13:
        f = d[at:at + 32]
        cols.append((f[:11].split(b"\0")[0].decode(), chr(f[11]), f[16], f[17]))
        at += 32
    rows = []
    for k in range(nrec):
        r = d[head + k * size:head + (k + 1) * size]
        p, row = 1, []
        for name, t, w, dec in cols:
            v = r[p:p + w].replace(b"\0", b" ")
            p += w
            v = v.rstrip(b" ") if t == "C" else v.strip(b" ")
            if (t == "N" or t == "F") and v.strip(b"*") == b"" or t == "L" and v == b"?":
                v = b""
            row.append("".join("%%%02X" % b for b in v))
        rows.append(row)
    if not cols:
        rows = [[] for _ in shapes]
    assert len(rows) == len(shapes), "records in the two files"
    return {"kind": kind, "cols": cols, "rows": [{"parts": a, "vals": b} for a, b in zip(shapes, rows)]}


def run(c, prog, s):
    for f in glob.glob(s["cwd"] + "/*.???") + glob.glob(s["cwd"] + "/out/*"):
        if f[-4:] in (".shp", ".shx", ".dbf", ".prj", ".cpg"):
            os.unlink(f)
    ev = c37.run(c, prog, s)
    out = [ev[0]]
    for e in ev[1:-1]:
        if e["e"] == "obj":
            e["tags"] = [[k, chars(vf.unpct(v).decode())] for k, v in e["tags"]]
            e["id"] = chars(e["id"])
        out.append(e)
    files = []
    types = {("C", 0): "string", ("N", 0): "integer", ("L", 0): "bool"}
    for p in sorted(glob.glob(s["cwd"] + "/*.shp") + glob.glob(s["cwd"] + "/out/*.shp")):
        try:
            f = read_shapefile(p[:-4])
        except Exception as x:
            f = {"kind": "unreadable %s" % type(x).__name__, "cols": [], "rows": []}
        f["name"] = os.path.relpath(p[:-4], s["cwd"])
        decl = s["cols"].get(f["name"], [])
        cols = []
        for i, (n, t, w, dec) in enumerate(f["cols"]):
            ty = types.get((t, dec), "?")
            if ty == "integer" and i < len(decl) and decl[i] == "double":
                ty = "double"             # the same in the file when there are no decimals
            cols.append([n, ty, w])
        f["cols"] = cols
        files.append(f)
    return out + [{"e": "files", "files": files}, ev[-1]]


class Gen(c37.Gen):
    def tags(self):
        r = self.r
        return sorted({k: r.choice(FLAGS if k == "flag" else NUMS if k == "num" else VALS) for k in r.sample(KEYS, r.choice([0, 2, 4, 5, 6, 7]))}.items())

    def config(self, bad):
        """Statements and their text."""
        r = self.r
        st, js, files, kinds = [], "", {}, {}
        J = lambda x: json.dumps(x, ensure_ascii=False)
        where = r.choice(["type", "column", "output", "attr", "before"]) if bad else ""
        for name in r.sample(["pois", "roads", "b c", "x", "é"], r.choice([1, 2, 2, 3, 4])):
            st.append({"s": "file", "n": name})
            t = "shapefile(%s)" % J(name)
            fname, cols, names = name, [], []
            tys, calls, kinds[name] = [], [], "point"
            if r.random() < .85:
                k = r.choice(["point", "point", "line", "line", "polygon"])
                if where == "type" and r.random() < .5:
                    calls.append(({"s": "type", "n": "circle"}, "type('circle')"))
                kinds[name] = k
                calls.append(({"s": "type", "n": k}, "type(%s)" % CONST[k]))
            for i in range(r.choice([0, 1, 2, 3, 5])):
                n = r.choice(["id", "id", "name", "type", "ref", "é", "num", "a b"])
                if n in names:
                    continue
                ty = r.choice(["string", "string", "string", "integer", "bool", "double"])
                if n == "id" and ty in ("bool", "double"):
                    ty = "integer"
                w = 1 if ty == "bool" else r.choice([1, 2, 3, 4, 5, 12, 32, 255]) if ty == "string" else r.choice([12, 15, 18])
                if where == "column" and r.random() < .5:
                    calls.append(({"s": "column", "n": "q", "t": "text", "w": 1}, "column('q', 'text', 1)"))
                calls.append(({"s": "column", "n": n, "t": ty, "w": w}, "column(%s, %s%s)" % (J(n), CONST[ty], ", %d" % w if w > 1 or r.random() < .5 else "")))
                names.append(n)
                cols.append(ty)
                tys.append(ty)
            if r.random() < .3:
                fname = r.choice(["out/", ""]) + "f%d" % len(files)
                calls.append(({"s": "name", "n": fname}, "filename(%s)" % J(fname)))
            if r.random() < .5:
                r.shuffle(calls)
                order = [x[0].get("n") for x in calls if x[0]["s"] == "column" and x[0]["t"] in CONST]
                cols = [dict(zip(names, cols))[n] for n in order]
            files[name] = (names, fname, cols, tys)
            st += [x[0] for x in calls]
            js += ".\n    ".join([t] + [x[1] for x in calls]) + ";\n"
        for _ in range(r.choice([1, 2, 4, 7])):
            on = r.choice(["node", "way", "way", "area"])
            key = r.choice(KEYS[:4] + ["num", "flag"]) if on != "area" or r.random() < .5 else r.choice(["landuse", "landuse", "type"])
            m = r.random()
            if m < .6:
                any_, vals, arg = True, [], r.choice(["", ", '*'", ", null"])
            else:
                any_, vals = False, [r.choice((FLAGS if key == "flag" else NUMS if key == "num" else VALS) + ["Ye", "multipolygon"] if on != "area" else VALS[:4] + ["forest", "forest", "multipolygon"]) for _ in range(r.choice([1, 1, 2, 5, 9]))]
                arg = ", %s" % J("|".join(vals))
                if vals == ["*"]:
                    any_ = True
                vals = "|".join(vals).split("|")
            st.append({"s": "rule", "on": on, "k": vf.pct(key), "any": any_, "v": [chars(v) for v in vals]})
            t = ["%s(%s%s)" % (on, J(key), arg)]
            fit = [n for n in sorted(files) if kinds[n] == {"node": "point", "way": "line", "area": "polygon"}[on]]
            f = r.choice(fit if fit and r.random() < .95 else sorted(files))
            if where == "before" and r.random() < .5:
                st.append({"s": "attr", "n": "name", "k": "name"})
                t.append("attr('name')")
            if where == "output" and r.random() < .5:
                st.append({"s": "output", "n": "nosuch"})
                t.append("output('nosuch')")
            st.append({"s": "output", "n": f})
            t.append("output(%s)" % J(f))
            for col in r.sample(files[f][0], r.choice([len(files[f][0]), r.randrange(len(files[f][0]) + 1)])):
                if col == "id" and r.random() < .8:
                    continue
                for _ in range(r.choice([1, 1, 1, 1, 2])):
                    ty = dict(zip(*files[f][::3]))[col]
                    k2 = ("flag" if ty == "bool" else "num" if ty != "string" else "name") if r.random() < .5 else col if r.random() < .4 else r.choice(KEYS + ["landuse"])
                    st.append({"s": "attr", "n": col, "k": vf.pct(k2)})
                    t.append("attr(%s%s)" % (J(col), "" if k2 == col else ", " + J(k2)))
            if where == "attr" and r.random() < .5:
                st.append({"s": "attr", "n": "nosuch", "k": "name"})
                t.append("attr('nosuch', 'name')")
            js += ".\n    ".join(t) + ";\n"
        return st, js, {v[1]: v[2] for v in files.values()}

    def scenario(self):
        r, c = self.r, self.c
        self.n += 1
        d = os.path.join(c.tmp, "x%d" % self.n)
        os.makedirs(d + "/out")
        os.symlink(vf.REPO + "/osmjs/js", d + "/js")
        store = r.choice(["array", "disk", "sparsetable", "vector"])
        objs = self.data(10**9 if store == "vector" else 10**4 if store != "disk" else 1000)
        nodes = [o for o in objs if o["t"] == "n"]
        there = {o["id"] for o in nodes}
        objs = [o for o in objs if o["t"] != "w" or all(i in there for i in o["nodes"])]
        k = next((j for j, o in enumerate(objs) if o["t"] != "n"), len(objs))
        for i in range(r.choice([0, 4, 8, 12])):          # more nodes with tags
            self.id += 1
            objs.insert(k + i, {"t": "n", "id": str(self.id), "x": r.randrange(-1800000000, 1800000001), "y": r.randrange(-900000000, 900000001), "tags": self.tags()})
        for i in range(r.choice([0, 0, 1, 2])):           # ways that are no lines
            if nodes:
                n = r.choice(nodes)["id"]
                k = next(j for j, o in enumerate(objs + [{"t": "r"}]) if o["t"] == "r")
                objs.insert(k, {"t": "w", "n": 5000 + i, "id": str(7000000 + i), "nodes": [n] * r.choice([1, 2, 3]), "tags": self.tags()})
        # nothing beyond what a number in a column of 12 can have
        fo = self.file(objs)
        if r.random() < .3:                                # positive ids of more than 32 bits
            for o in fo:
                if o["t"] == "r":
                    o["id"] = str(int(o["id"]) + r.choice([0, 2**31, 2**32, 10**10]))
        ispbf = r.random() < .5
        data = rl.pbf_bytes(fo, r) if ispbf else ('<?xml version="1.0"?>\n<osm version="0.6">\n' + "".join(osm.xml_obj(o) for o in fo) + "</osm>\n").encode()
        name = "in.osm.pbf" if ispbf else "in.osm"
        with open(os.path.join(d, name), "wb") as f:
            f.write(data)
        st, js, cols = self.config(r.random() < .12)
        with open(d + "/config.js", "w") as f:
            f.write(js + LOGGER)
        args = r.choice([["-2", "-m"], ["-m"], ["-m", "-r"], []]) + ["-l", store, "-i", r.choice(["osm2shape", "osm2shape.js"]), "-j", "config.js", name]
        return {"begin": {"e": "begin", "n": self.n, "st": st}, "args": args, "cwd": d, "home": None, "stdin": b"", "cols": cols}


def check(c):
    prog = c37.build(c)
    c.model("Export", consts={"MaxSt": c.pick(6, 7), "MaxObjs": c.pick(1, 2)}, coverage=False, timeout=2400)
    for f in ("truthy", "once", "stale"):
        c.model_must_fail("Export", consts={"MaxSt": 6, "MaxObjs": 2, "Fault": '{"%s"}' % f})
    g = Gen(c)
    scen = [g.scenario() for _ in range(c.pick(700, 7000))]

    def go():
        with ThreadPoolExecutor(8) as ex:
            return sum(ex.map(lambda s: run(c, prog, s), scen), [])
    ev = go()
    c.validate("ExportTrace", ev, what="shapefile configurations", recheck=go)
    fl = [e for e in ev if e["e"] == "files"]
    c.cov["objects"] = sum(e["e"] == "obj" for e in ev)
    c.cov["records"] = sum(len(f["rows"]) for e in fl for f in e["files"])
    c.cov["records_by_kind"] = {k: sum(len(f["rows"]) for e in fl for f in e["files"] if f["kind"] == k) for k in ("point", "line", "polygon")}
    c.cov["configurations_refused"] = sum(e["e"] == "exit" and e["code"] == 1 for e in ev)
    b = [i for i, e in enumerate(ev) if e["e"] == "begin"] + [len(ev)]
    segs = [ev[x:y] for x, y in zip(b, b[1:])]

    def ctl(p, f):
        s = next(x for x in segs if p(x[-2]["files"]))
        c.control("ExportTrace", s, lambda t: f(t[-2]["files"]))
        c.sample(s[0])
    full = lambda fs: [x for x in fs if x["rows"]]
    text = lambda fs: [(x, i) for x in full(fs) for i, col in enumerate(x["cols"]) if col[1] == "string" and x["rows"][0]["vals"][i]]
    ctl(lambda fs: full(fs), lambda fs: full(fs)[0]["rows"].pop())
    ctl(lambda fs: full(fs), lambda fs: full(fs)[0]["rows"].append(full(fs)[0]["rows"][0]))
    ctl(lambda fs: full(fs), lambda fs: full(fs)[0]["rows"][0]["parts"][0].pop(0))
    ctl(lambda fs: text(fs), lambda fs: text(fs)[0][0]["rows"][0]["vals"].__setitem__(text(fs)[0][1], ""))
    ctl(lambda fs: len(fs) > 1, lambda fs: fs.pop())
    c.assumptions += ["the interfaces of V8 3.x and GEOS 3.3 are provided by harness/v8compat and harness/geoscompat",
                      "all nodes of the ways are in the file and there is a location store; numbers fit into their columns",
                      "what a number column gets from a text that is no number is left open; rules without output() are not written"]
