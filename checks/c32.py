"""C32: JavaScript handlers see the same objects as C++ handlers."""
import json, os, shutil
import osm
import readlib as rl
import vf
CBS = ["init", "before_nodes", "node", "after_nodes", "before_ways", "way", "after_ways", "before_relations", "relation", "after_relations", "area", "end"]
KEYS = ["name", "highway", "", "0", "7", "123", "4294967294", "4294967295", "007", "-1", "1.5", "é", "漢字", "😀", "toString", "length", "__proto__", "constructor", "a b", "\"q\"", "'", "\\", "x" * 255, "😀" * 255, "key"]
CELLS = [["a", "b"], [""], ["", "", ""], [1, 2.5, -0.1], [True, False], ["é", "漢字", "😀𝄞"], ["x\0y", "\0"], ["tab\tin", "line\nin"], ["x" * 3000], ["😀" * 700], [{"raw": "undefined"}, {"raw": "null"}], [{"raw": "[1,[2,3]]"}, {"raw": "{toString: function() { return 'obj'; }}"}, {"raw": "NaN"}]]
YES = ["true", "T", "t", "True", "Yes", "y", "1", "1.5", "1x", " 1"]
NO = ["false", "F", "f", "No", "n", "0", "none"]
NEITHER = ["2", "x", "", "on", "00", "10"]
GEOS = "-UOSMIUM_OSM_AREA_HPP -Dgeos=geoscompat -I%s/harness/geoscompat" % vf.VERIF


def js(x):
    """A JavaScript literal, in ASCII."""
    if isinstance(x, dict):
        return x["raw"]
    if isinstance(x, list):
        return "[" + ", ".join(js(y) for y in x) + "]"
    return json.dumps(x)


def check(c):
    node = "/usr/bin/node"
    so = c.build("h_js.cpp", name="h_js.node", flags="-std=c++17 -fPIC -DUCHAR_TYPE=uint16_t %s -I%s/harness/v8compat -I/usr/include/node" % (GEOS, vf.VERIF),
                 libs="-shared -lgeos_c -lshp -licuuc")
    h = os.path.join(c.tmp, "h_js")
    with open(os.path.join(c.tmp, "run.js"), "w") as f:
        f.write("require(process.argv[2]).run();\n")
    with open(h, "w") as f:
        f.write("#!/bin/sh\nexec %s --expose-gc %s/run.js %s\n" % (node, c.tmp, so))
    os.chmod(h, 0o755)
    c.model("JsHandler", consts={"MaxCalls": c.pick(3, 4)})
    for f in ("early", "first", "noend"):
        c.model_must_fail("JsHandler", consts={"Fault": '{"%s"}' % f})
    g = Gen(c)
    scen = []
    for i in range(c.pick(300, 3000)):
        scen += g.scenario()
    bad = g.broken()

    def run():
        g.clean()
        ev = rl.run_scenarios(c, h, scen)
        for s in c.harness_all(h, ["\n".join(x) + "\n" for x in bad]):
            ev += s
        return ev
    ev = run()
    c.validate("JsTrace", ev, what="scripts", recheck=run)
    c.cov["script_calls"] = sum(e["e"] == "js" for e in ev)
    c.cov["script_objects"] = sum(e["e"] == "js" and bool(e["v"]) for e in ev)
    c.cov["shapefiles"] = sum(e["e"] == "twin" for e in ev)
    b = [i for i, e in enumerate(ev) if e["e"] == "begin"] + [len(ev)]
    segs = [ev[x:y] for x, y in zip(b, b[1:])]
    find = lambda seg, p: next(i for i, e in enumerate(seg) if p(e))
    has = lambda p: next(s for s in segs if s[0]["mode"] != "alone" and s[-1]["e"] == "endscn" and any(p(e) for e in s))
    for cb in ("node", "way", "relation", "area"):
        p = lambda e: e["e"] == "js" and e["cb"] == cb and e["v"][0]["keys"]
        s = has(p)
        i = find(s, p)
        c.control("JsTrace", s, lambda t: t[i]["v"][0].__setitem__("v", t[i]["v"][0]["v"] + "0"))
        c.control("JsTrace", s, lambda t: t.pop(i))
        if cb == "node":
            c.sample(s[i])
            c.control("JsTrace", s, lambda t: t[i]["v"][0]["vals"].__setitem__(0, []))
    p = lambda e: e["e"] == "js" and e["cb"] == "end"
    s = has(p)
    c.control("JsTrace", s, lambda t: t.pop(find(t, p)))
    p = lambda e: e["e"] == "load" and e["k"] == 2
    s = has(p)
    c.control("JsTrace", s, lambda t: t.pop(find(t, p)))
    p = lambda e: e["e"] == "csv"
    s = has(p)
    c.control("JsTrace", s, lambda t: t[find(t, p)]["cells"].append("x"))
    c.assumptions += ["the interface of V8 3.x is provided by harness/v8compat on top of the V8 in the installed node",
                      "numbers up to 2^53, texts within the limit of 255 characters, objects used during their callback only",
                      "without a multipolygon assembler no area is due; its geometries are bound by C30"]


class Gen:
    def __init__(self, c):
        self.c, self.r, self.n = c, c.rnd, 0
        self.dirs = []

    def clean(self):
        for d in self.dirs:
            for f in os.listdir(d):
                if f.startswith("out"):
                    os.unlink(os.path.join(d, f))

    # ---- data
    def text(self, lim=255):
        r = self.r
        k = r.random()
        if k < .1:
            return r.choice(["😀", "a", "漢"]) * r.choice([1, 2, lim])
        return "".join(r.choice(["a", "b", "Z", " ", "é", "ß", "Ж", "€", "漢", "😀", "𝄞", "\"", "\\", "&", "'", "\u2028", "\x7f"]) for _ in range(r.choice([0, 1, 1, 3, 8])))

    def tags(self):
        r = self.r
        t = [(r.choice(KEYS) if r.random() < .7 else self.text(), self.text()) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
        if t and r.random() < .15:
            t.append((t[0][0], self.text()))                 # a key twice
        return t

    def common(self):
        r = self.r
        return dict(v=r.choice([0, 1, 2, 99, 2**31 - 1, 2**31, 2**32 - 1, r.randrange(2**32)]), ts=r.choice(osm.TSS), cs=r.choice([0, 1, 2, 2**31 - 1, 12345]),
                    uid=r.choice([0, 1, 2, 2**31 - 1]), user=self.text(), tags=self.tags(), vis=True)

    def anid(self):
        r = self.r
        return r.choice([r.randrange(1, 50), r.randrange(-50, 0), r.randrange(2**53), -r.randrange(2**53), 2**53, -2**53, 2**31, 2**32 + 1])

    def data(self, mode):
        r = self.r
        objs, ids = [], []
        lon = lambda: r.choice([0, 1, -1, 1800000000, -1800000000, r.randrange(-1800000000, 1800000001)])
        lat = lambda: r.choice([0, 5, 900000000, -900000000, r.randrange(-900000000, 900000001)])
        top = 200 if mode in ("loc", "mp") else None
        for i in range(r.choice([0, 1, 2, 4, 8])):
            n = self.anid() if not top else (r.choice([1, -1]) * r.randrange(1, top))
            ids.append(n)
            objs.append(osm.obj("n", n, x=lon(), y=lat(), **self.common()))
        if mode == "mp":
            return objs + self.areas()
        for i in range(r.choice([0, 0, 1, 2, 4])):
            w = [r.choice(ids) if ids and r.random() < .95 or top and ids else self.anid() if not top else r.randrange(1, top) for _ in range(r.choice([0, 1, 2, 3, 5, 20]))]
            if w and r.random() < .4:
                w.append(w[0])
            objs.append(osm.obj("w", self.anid(), nodes=w, **self.common()))
        for i in range(r.choice([0, 0, 1, 2, 4])):
            objs.append(osm.obj("r", self.anid(), mem=[(r.choice("nwr"), self.anid(), self.text()) for _ in range(r.choice([0, 1, 2, 3, 10]))], **self.common()))
        if r.random() < .15:
            r.shuffle(objs)
        return objs

    def areas(self):
        """Squares: as closed ways, and as relations with holes."""
        r = self.r
        nodes, ways, rels = [], [], []

        def square(x, y, d, k=1):
            p = [(x, y), (x + d, y), (x + d, y + d), (x, y + d)]
            if r.random() < .5:
                p.reverse()
            ref = []
            for q in p:
                ref.append(1000 + len(nodes))
                nodes.append(osm.obj("n", ref[-1], x=q[0], y=q[1], **self.common()))
            ref.append(ref[0])
            parts = [ref] if k == 1 else [ref[:3], ref[2:]]
            got = []
            for s in parts:
                cm = self.common()
                ways.append(osm.obj("w", 100 + len(ways), nodes=s, **dict(cm, tags=cm["tags"] + [("area", "yes")])))
                got.append(100 + len(ways) - 1)
            return got
        for i in range(r.choice([0, 1, 2])):
            square(r.randrange(-10**9, 10**9), r.randrange(-5 * 10**8, 5 * 10**8), r.choice([1000, 10**7]))
        for i in range(r.choice([0, 1, 2])):
            x, y = -10**9 + 10**8 * (2 * i + 1), 10**7 * r.randrange(-40, 40)
            mem = []
            for k in range(r.choice([1, 1, 2])):
                mem += square(x + 3 * 10**7 * k, y, 10**7, r.choice([1, 2]))
                for j in range(r.choice([0, 1, 2])):
                    mem += square(x + 3 * 10**7 * k + 10**6 * (3 * j + 1), y + 10**6, 10**6, r.choice([1, 2]))
            r.shuffle(mem)
            cm = self.common()
            rels.append(osm.obj("r", 50 + i, mem=[("w", w, "") for w in mem], **dict(cm, tags=[("type", "multipolygon"), ("landuse", "forest")] + [t for t in cm["tags"] if t[0] != "type"])))
        return nodes + ways + rels

    # ---- scripts
    def ops(self, sets):
        r = self.r
        out = []
        for cb in sets:
            if r.random() < .06:
                out.append({"op": "unset", "cb": cb, "fn": "", "k": 0})
            else:
                self.fn += 1
                out.append({"op": "set", "cb": cb, "fn": "f%d" % self.fn, "k": 0})
        return out

    def write(self, d, k, ops, head="", tail=""):
        r = self.r
        text = head + "trace('{\"e\":\"load\",\"k\":%d}');\n" % k
        i = 0
        while i < len(ops):
            o = ops[i]
            i += 1
            if o["op"] == "inc":
                names = [os.path.join(d, "s%d.js" % o["k"])]
                while i < len(ops) and ops[i]["op"] == "inc" and r.random() < .8:
                    names.append(os.path.join(d, "s%d.js" % ops[i]["k"]))
                    i += 1
                text += "include(%s);\n" % ", ".join(js(x) for x in names)
            else:
                l = "Osmium.Callbacks.%s" % o["cb"] if r.random() < .7 else "Osmium.Callbacks[%s]" % js(o["cb"])
                text += l + " = " + ("mk(%s, %s)" % (js(o["cb"]), js(o["fn"])) if o["op"] == "set" else r.choice(["null", "undefined", "5", "{}", "'text'", "[]"])) + ";\n"
        path = os.path.join(d, "s%d.js" % k)
        with open(path, "w") as f:
            f.write(text + tail)
        return path

    def scenario(self):
        r, c = self.r, self.c
        self.n += 1
        self.fn = 0
        d = os.path.join(c.tmp, "j%d" % self.n)
        os.mkdir(d)
        self.dirs.append(d)
        mode = r.choice(["plain", "plain", "loc", "loc", "mp"])
        objs = self.data(mode)
        enc = r.choice(["pbf", ""])
        if enc == "pbf":
            data = rl.pbf_bytes(objs, r)
        else:
            data = xml(objs).encode()
        path = rl.put(c, "j%d/in.osm%s" % (self.n, ".pbf" if enc else ""), data)
        look = r.sample(KEYS, 6) + [{"raw": "'\\ud83d'"}, {"raw": "'a\\udc00b'"}, "x" * 1000, "漢" * 1000]
        every = r.random() < .6
        some = lambda p: [x for x in CBS if every or r.random() < p]
        files = {1: []}                                      # 1: the helpers, 2..: the script
        nf = r.choice([1, 1, 2, 3, 4])
        for k in range(2, 2 + nf):
            files[k] = self.ops(some(.3) if k > 2 and r.random() < .8 else some(.7))
        main = 1 + nf
        incs = []                                            # given on the command line, or included by a script
        for k in range(2, main):
            if r.random() < .5:
                incs.append(k)
            else:
                o = files[r.randrange(k + 1, main + 1)]
                at = [j for j, x in enumerate(o) if x["op"] == "inc"]
                o.insert(r.choice(at) if at and r.random() < .6 else r.randrange(len(o) + 1), {"op": "inc", "cb": "", "fn": "", "k": k})
        r.shuffle(incs)
        begin = {"e": "begin", "n": self.n, "mode": mode, "code": 0, "files": [files[k] for k in sorted(files)], "start": [1] + incs + [main],
                 "look": [vf.pct(x) if isinstance(x, str) else "%00" for x in look], "fields": [], "rows": [], "calls": []}
        head = "var LOOK = %s;\n" % js(look)
        head += open(os.path.join(vf.VERIF, "harness", "js_view.js")).read()
        tail = "BUDGET.gc = %d; BUDGET.print = %d;\n" % (r.choice([0, 0, 0, 7]), r.choice([0, 1, 2, 3]))
        if r.random() < .4:
            tail += "BUDGET.throws = {%s};\n" % ", ".join("f%d: 1" % k for k in range(1, self.fn + 1) if r.random() < .3)
        cmds, after = [], []
        if r.random() < .4:
            cells = r.sample(CELLS, 3)
            tail += "var CELLS = %s;\nBUDGET.csv = Osmium.Output.CSV.open(%s);\n" % (js(cells), js(os.path.join(d, "out.csv")))
            after.append("file\t" + os.path.join(d, "out.csv"))
        if mode != "plain" and every and r.random() < .6 and all(o["op"] != "unset" for f in files.values() for o in f):
            a, b = self.shape(begin, d, mode)
            tail += a
            cmds.append(b)
            after.append("same\t%s\t%s" % (os.path.join(d, "outc"), os.path.join(d, "outj")))
        if self.fn and every:
            begin["every"] = True
        self.write(d, 1, [], head, tail)
        for k in range(2, main + 1):
            self.write(d, k, files[k])
        s = lambda k: os.path.join(d, "s%d.js" % k)
        go = "\t".join(["run", mode, path, "osm", enc, s(main), ",".join(s(k) for k in [1] + incs)])
        lines = [rl.B(begin)] + cmds + [go] + after + ["endscn"]
        if mode == "plain" and r.random() < .4:              # once more, without the C++ handler
            lines += [rl.B(dict(begin, mode="alone")), go.replace("\tplain\t", "\talone\t")] + after + ["endscn"]
        return [lines]

    def shape(self, begin, d, mode):
        r = self.r
        cb, kind = ("area", "polygon") if mode == "mp" else r.choice([("node", "point"), ("way", "line"), ("way", "polygon"), ("way", "line")])
        fields = []
        for i in range(r.choice([1, 1, 2, 4])):
            t = r.choice(["string", "string", "integer", "bool"])
            fields.append((t, r.choice([1, 2, 3, 5, 20, 254, 255]) if t == "string" else 11 if t == "integer" else 1))
        rows, lits, calls = [], [], []
        for _ in range(r.choice([1, 2, 5])):
            row, lit, call = [], [], []
            for i, (t, w) in enumerate(fields):
                m = r.random()
                if m < .25:
                    k = r.choice(["missing", "undefined", "null"])
                    row.append([k, ""])
                    call.append(["null", ""])
                    if k != "missing":
                        lit.append("f%d: %s" % (i, k))
                    continue
                if t == "string":
                    s = "".join(r.choice("aZ é漢😀") for _ in range(r.choice([1, 3, w, w + 1])))
                    if r.random() < .3:
                        s = r.choice("aé") * r.choice([254, 255, 256]) + "😀" * r.choice([1, 2])
                    ch = ["".join("%%%02X" % x for x in q.encode()) for q in s]
                    cut, left = "", w
                    for q in s:
                        left -= len(q.encode())
                        if left < 0:
                            break
                        cut += q
                    row.append(["text", ch])
                    call.append(["str", "".join("%%%02X" % x for x in cut.encode())])
                    lit.append("f%d: %s" % (i, js(s)))
                elif t == "integer":
                    n = r.choice([0, 1, -1, 2147483647, -2147483648, r.randrange(10**6)])
                    row.append(["int", str(n)])
                    call.append(["int", str(n)])
                    lit.append("f%d: %s" % (i, r.choice(["%d", "'%d'", "%d.25" if n >= 0 else "%d", "' %d'"]) % n))
                else:
                    v = r.choice(YES + NO + NEITHER)
                    row.append(["bool", vf.pct(v)])
                    call.append(["bool", "T" if v in YES else "F"] if v not in NEITHER else ["null", ""])
                    lit.append("f%d: %s" % (i, v if v in ("true", "false", "1", "1.5", "0", "2", "10") and r.random() < .6 else js(v)))
            rows.append(row)
            calls.append(call)
            lits.append("{" + ", ".join(lit) + "}")
        begin.update(fields=[list(f) for f in fields], rows=rows, calls=calls)
        a = "BUDGET.shp = { cb: %s, kind: %s, n: 0, rows: [%s], file: Osmium.Output.Shapefile.open(%s, %s) };\n" % (js(cb), js(kind), ", ".join(lits), js(os.path.join(d, "outj")), js(kind))
        for i, (t, w) in enumerate(fields):
            a += "BUDGET.shp.file.add_field('f%d', %s, %d%s);\n" % (i, js(t), w, r.choice(["", ", 0"]))
        esc = lambda s: s.replace(":", "%3A").replace(";", "%3B").replace("|", "%7C").replace(",", "%2C")
        b = "\t".join(["twin", os.path.join(d, "outc"), kind, cb, ";".join("f%d,%s,%d" % (i, t, w) for i, (t, w) in enumerate(fields)),
                       "|".join(";".join("%s:%s" % (x, esc(y)) for x, y in call) for call in calls)])
        return a, b

    def broken(self):
        """Scripts that cannot be run: each ends its program."""
        c, out = self.c, []
        d = os.path.join(c.tmp, "broken")
        os.mkdir(d)
        p = rl.put(c, "broken/in.osm", xml([osm.obj("n", 1, x=0, y=0)]).encode())
        good = "trace('{\"e\":\"load\",\"k\":1}');\n"
        texts = {"ok": good, "syntax": good + "Osmium.Callbacks.node = function() { ;\n", "throws": good + "throw new Error('x');\n", "empty": "", "name": good + "nothing_of_this_name();\n",
                 "inc": good + "include(%s);\n" % js(os.path.join(d, "throws.js")), "inc2": good + "include(%s);\n" % js(os.path.join(d, "missing.js")), "inc3": good + "include(%s);\n" % js(os.path.join(d, "syntax.js"))}
        for k, t in texts.items():
            with open(os.path.join(d, k + ".js"), "w") as f:
                f.write(t)
        for main, incs, loads in [("syntax", [], 0), ("throws", [], 1), ("empty", [], 0), ("name", [], 1), ("missing", [], 0), ("inc", [], 2), ("inc2", [], 1), ("inc3", [], 1),
                                  ("ok", ["syntax"], 0), ("ok", ["throws"], 1), ("ok", ["missing"], 0), ("ok", ["inc"], 2), ("missing", ["ok"], 1), ("empty", ["ok", "ok"], 2)]:
            b = {"e": "begin", "n": 0, "mode": "plain", "code": 1, "files": [[]], "start": [1] * (loads + 1), "look": [], "fields": [], "rows": [], "calls": []}
            s = lambda k: os.path.join(d, k + ".js")
            out.append([rl.B(b), "\t".join(["run", "plain", p, "osm", "", s(main), ",".join(s(k) for k in incs)])])
        return out


def xml(objs):
    return '<?xml version="1.0" encoding="UTF-8"?>\n<osm version="0.6" generator="x">\n' + "".join(osm.xml_obj(o) for o in objs) + "</osm>\n"
