"""C37: the osmjs program does what its options say."""
import gzip, json, os
from concurrent.futures import ThreadPoolExecutor
import osm
import readlib as rl
import vf
GEOS = "-UOSMIUM_OSM_AREA_HPP -Dgeos=geoscompat -I%s/harness/geoscompat" % vf.VERIF
HEAD = """
var HAVE = HAVE || [];
function pct(x) {
    var s = unescape(encodeURIComponent(String(x))), r = '';
    for (var i = 0; i < s.length; i++) {
        var c = s.charCodeAt(i);
        r += c >= 0x21 && c < 0x7f && c != 0x25 ? s.charAt(i) : '%%' + (c < 16 ? '0' : '') + c.toString(16).toUpperCase();
    }
    return r;
}
function out(e) { print(JSON.stringify(e)); }
out({ e: 'load', k: %d, argv: argv.map(pct), debug: Osmium.debug, has: HAVE });
HAVE.push(%d);
"""
MAIN = """
function units(v) { return typeof v == 'number' ? Math.round(v * 1e7) : v.map(units); }
function geom(o) { var a = o.geom.toArray(); return a === undefined ? [] : units(a); }
function tags(o) { var r = []; for (var k in o.tags) r.push([pct(k), pct(o.tags[k])]); r.sort(); return r; }
var CBS = ['init', 'before_nodes', 'after_nodes', 'before_ways', 'after_ways', 'before_relations', 'after_relations', 'end'];
CBS.forEach(function(n) { Osmium.Callbacks[n] = function() { out({ e: 'cb', cb: n }); }; });
Osmium.Callbacks.node = function() { out({ e: 'cb', cb: 'node', id: String(this.id), x: units(this.lon), y: units(this.lat), tags: tags(this) }); };
Osmium.Callbacks.way = function() {
    var n = [];
    for (var i = 0; i < this.nodes.length; i++) n.push(String(this.nodes[i]));
    out({ e: 'cb', cb: 'way', id: String(this.id), nodes: n, pts: geom(this), tags: tags(this) });
};
Osmium.Callbacks.relation = function() {
    var m = [];
    for (var i = 0; i < this.members.length; i++) { var x = this.members[i]; m.push(x.type + x.ref + ' ' + x.role); }
    out({ e: 'cb', cb: 'relation', id: String(this.id), mem: m, tags: tags(this) });
};
Osmium.Callbacks.area = function() { out({ e: 'cb', cb: 'area', n: this.id, from: this.from, rings: geom(this) }); };
"""
LONG = {"d": "debug", "h": "help", "r": "no-repair", "2": "2pass", "m": "multipolygon", "l": "location-store", "i": "include", "j": "javascript"}


def build(c):
    so = c.build("h_osmjs.cpp", os.path.relpath(vf.REPO + "/osmjs/osmjs.cpp", vf.VERIF + "/harness"), name="osmjs.node",
                 flags="-std=c++17 -fPIC -include v8.h -DUCHAR_TYPE=uint16_t %s -I%s/harness/v8compat -I/usr/include/node" % (GEOS, vf.VERIF),
                 libs="-shared -Wl,-Bsymbolic -lgeos_c -lshp -licuuc")
    with open(os.path.join(c.tmp, "run.js"), "w") as f:
        f.write("require(%s).run(process.argv.slice(2));\n" % json.dumps(so))
    p = os.path.join(c.tmp, "osmjs")
    with open(p, "w") as f:
        f.write("#!/bin/sh\nulimit -c 0\nexec /usr/bin/node %s/run.js \"$@\"\n" % c.tmp)
    os.chmod(p, 0o755)
    return p


def run(c, prog, s):
    """One run of the program: its events and its exit code."""
    env = dict(os.environ)
    env.pop("HOME", None)
    if s["home"]:
        env["HOME"] = s["home"]
    rc, out, err = -999, "", ""
    import signal, subprocess
    p = subprocess.Popen([prog] + s["args"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=s["cwd"], start_new_session=True)
    try:
        o, er = p.communicate(s["stdin"], timeout=60)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, er = p.communicate()
    ev = [s["begin"]]
    for line in o.decode("utf-8", "replace").split("\n"):
        if line.startswith("{"):
            try:
                ev.append(json.loads(line))
            except ValueError:
                if rc == 0:
                    ev.append({"e": "garbled", "text": vf.pct(line)})
    return ev + [{"e": "exit", "code": rc}]


def run_all(c, prog, scen):
    with ThreadPoolExecutor(8) as ex:
        return sum(ex.map(lambda s: run(c, prog, s), scen), [])


def check(c):
    prog = build(c)
    c.model("Osmjs", consts={"MaxOpts": c.pick(3, 4), "MaxObjs": c.pick(3, 4)})
    for f in ("first", "unchecked", "mainfirst", "twice", "unstored"):
        c.model_must_fail("Osmjs", consts={"MaxObjs": 2, "Fault": '{"%s"}' % f})
    g = Gen(c)
    scen = [g.scenario() for _ in range(c.pick(900, 9000))]
    go = lambda: run_all(c, prog, scen)
    ev = go()
    c.validate("OsmjsTrace", ev, what="command lines", recheck=go)
    c.cov["callbacks"] = sum(e["e"] == "cb" for e in ev)
    c.cov["areas"] = sum(e["e"] == "cb" and e["cb"] == "area" for e in ev)
    c.cov["exit_codes"] = {str(k): sum(e["e"] == "exit" and e["code"] == k for e in ev) for k in sorted({e["code"] for e in ev if e["e"] == "exit"})}
    b = [i for i, e in enumerate(ev) if e["e"] == "begin"] + [len(ev)]
    segs = [ev[x:y] for x, y in zip(b, b[1:])]
    find = lambda seg, p: next(i for i, e in enumerate(seg) if p(e))

    def ctl(p, f, sample=False):
        s = next(x for x in segs if x[-1]["code"] == 0 and x[0]["input"] == "ok" and any(p(e) for e in x))
        i = find(s, p)
        if sample:
            c.sample(s[i])
        c.control("OsmjsTrace", s, lambda t: f(t, i))
    area = lambda e: e["e"] == "cb" and e["cb"] == "area"
    ctl(lambda e: area(e) and e["from"] == "relation", lambda t, i: t[i]["rings"][0].pop(), True)
    ctl(area, lambda t, i: t.insert(i, dict(t[i])))
    ctl(lambda e: e["e"] == "cb" and e["cb"] == "way" and e["pts"], lambda t, i: t[i]["pts"].pop(0), True)
    ctl(lambda e: e["e"] == "cb" and e["cb"] == "after_ways", lambda t, i: t.pop(i))
    ctl(lambda e: e["e"] == "load", lambda t, i: t[i].__setitem__("debug", not t[i]["debug"]))
    ctl(lambda e: e["e"] == "load" and e["argv"], lambda t, i: t[i]["argv"].pop(), True)
    ctl(lambda e: e["e"] == "exit", lambda t, i: t[i].__setitem__("code", 1))
    c.assumptions += ["the interface of V8 3.x is provided by harness/v8compat on top of the V8 in the installed node, the one of GEOS 3.3 by harness/geoscompat",
                      "objects in the order nodes, ways, relations; ways have all their nodes in the file, or none of them and then they are not closed",
                      "what -2 does without -m is documented in two ways (areas or none); both are accepted, but not a mixture"]


class Gen:
    def __init__(self, c):
        self.c, self.r, self.n = c, c.rnd, 0

    def tags(self):
        r = self.r
        return sorted({k: r.choice(["yes", "a b", "", "é", "漢字", "100%"]) for k in r.sample(["name", "highway", "é", "x:y", "ref", "a b"], r.choice([0, 0, 1, 2]))}.items())

    def data(self, big):
        r = self.r
        nodes, ways, rels = [], [], []
        self.id = 0

        def node(x, y):
            self.id += r.choice([1, 1, 1, 2, 50, big])
            n = self.id if r.random() < .9 else -self.id % 5000 - 5000
            while any(o["id"] == str(n) for o in nodes):
                n -= 1
            nodes.append({"t": "n", "id": str(n), "x": x, "y": y, "tags": self.tags()})
            return str(n)
        wid = r.randrange(1, 100)

        def way(refs, tags=None):
            nonlocal wid
            wid += r.choice([1, 1, 2, 7])
            ways.append({"t": "w", "n": wid, "id": str(wid), "nodes": refs, "tags": self.tags() if tags is None else tags})
            return wid

        def square(x, y, d, pieces):
            q = [node(x, y), node(x + d, y + r.randrange(d // 4 + 1)), node(x + d, y + d), node(x, y + d)]
            if r.random() < .5:
                q.reverse()
            q.append(q[0])
            cut = sorted(r.sample([1, 2, 3], pieces - 1)) if pieces > 1 else []
            parts = [q[a:b + 1] for a, b in zip([0] + cut, cut + [4])]
            return [list(reversed(p)) if r.random() < .3 else p for p in parts]
        lon = lambda: r.choice([0, 1, -1, 1800000000, -1800000000, r.randrange(-1800000000, 1800000001)])
        lat = lambda: r.choice([0, 5, 900000000, -900000000, r.randrange(-900000000, 900000001)])
        seen = set()
        for _ in range(r.choice([0, 1, 3, 6])):
            p = (lon(), lat())
            if p not in seen:
                seen.add(p)
                node(*p)
        free = [o["id"] for o in nodes]
        if len(free) > 1:
            for _ in range(r.choice([0, 1, 2])):
                w = [r.choice(free)]
                for _ in range(r.choice([1, 2, 4, 9])):
                    w.append(r.choice([f for f in free if f != w[-1]]))
                if r.random() < .3 and w[-1] != w[0]:
                    w.append(w[0])
                way(w)
        if r.random() < .2:
            w = ["90000%d" % i for i in range(r.choice([2, 3, 4]))]
            way(w)
        # where areas come from
        groups = []
        for i in range(r.choice([0, 1, 1, 2, 3])):
            x, y, d = -10**9 + 4 * 10**8 * i + r.randrange(1000), r.randrange(-4 * 10**8, 4 * 10**8), r.choice([1000, 10**7, 10**8])
            mp = r.random() < .7
            pieces = r.choice([1, 1, 2, 3])
            parts = square(x, y, d, pieces)
            inner = square(x + d // 3, y + d // 2, d // 5, r.choice([1, 2])) if r.random() < .4 else []
            openr = pieces > 1 and r.random() < .3
            if openr:
                one = r.choice(parts)
                if sum(len(p) - 1 for p in parts if p is not one) > 1:   # what is left is more than a single edge
                    parts.remove(one)
                    if len(one) > 2:   # closing the gap cuts a corner off: an inner ring might cross it
                        inner = []
            groups.append((parts + inner, mp))
        allw = []
        for k, (parts, mp) in enumerate(groups):
            for p in parts:
                allw.append((k, p))
        if r.random() < .5:
            r.shuffle(allw)
        got = {}
        for k, p in allw:
            got.setdefault(k, []).append(way(p, None if not groups[k][1] else []))
        rid = r.randrange(1, 50)
        for k, (parts, mp) in enumerate(groups):
            if not mp:
                continue
            for again in range(r.choice([1, 1, 1, 2])):
                rid += r.choice([1, 3])
                mem = [("w", str(w), r.choice(["", "outer", "inner"])) for w in got[k]]
                if r.random() < .12:
                    mem.append(("w", "99999", ""))
                if r.random() < .3:
                    mem.append((r.choice("nr"), str(r.randrange(1, 100)), "label"))
                r.shuffle(mem)
                typ = r.choice(["multipolygon", "multipolygon", "boundary", "boundary", "site", ""])
                rels.append(self.rel(rid, mem, typ, [("landuse", "forest")] + ([("type", typ)] if typ else [])))
        for _ in range(r.choice([0, 0, 1])):
            rid += 1
            rels.append(self.rel(rid, [(r.choice("nwr"), str(r.randrange(1, 10**6)), r.choice(["", "é"])) for _ in range(r.randrange(4))], "", self.tags()))
        nodes.sort(key=lambda o: int(o["id"]))
        return nodes + ways + rels

    def rel(self, rid, mem, typ, tags):
        return {"t": "r", "n": rid, "id": str(rid), "type": typ, "tags": sorted(tags), "members": mem,
                "mem": [[t, int(i) if t == "w" else 0] for t, i, _ in mem], "mids": ["%s%s %s" % m for m in mem]}

    def file(self, objs):
        out = []
        for o in objs:
            kw = dict(tags=o["tags"])
            if o["t"] == "n":
                kw.update(x=o["x"], y=o["y"])
            elif o["t"] == "w":
                kw.update(nodes=[int(i) for i in o["nodes"]])
            else:
                kw.update(mem=[(t, int(i), ro) for t, i, ro in o["members"]])
            out.append(osm.obj(o["t"], int(o["id"]), **kw))
        return out

    def script(self, k, main, bad):
        text = HEAD % (k, k) + (MAIN if main else "")
        if bad == "syntax":
            text += "function ( {\n"
        elif bad == "throws":
            text += "throw new Error('no');\n"
        elif bad == "empty":
            text = ""
        return text

    def scenario(self):
        r, c = self.r, self.c
        self.n += 1
        d = os.path.join(c.tmp, "s%d" % self.n)
        home = os.path.join(d, "home")
        dirs = {".": d, "js": os.path.join(d, "js"), "home": os.path.join(home, ".osmjs"), "/": os.path.join(d, "abs")}
        withhome = r.random() < .8
        kind = r.choice(["run"] * 8 + ["error", "error", "load", "input"])
        # ---- script files
        bad, tree, names = [], [], []

        def put(path, main):
            k = len(bad) + 1
            bad.append(r.choice(["syntax", "throws", "empty"]) if kind == "load" and r.random() < .6 else "")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write(self.script(k, main, bad[-1]))
            return k
        opts = []
        os.makedirs(d)
        for name in r.sample(["a", "b.js", "sub/b", "d.x/c", "e.inc", "@/z", "@/y.js", "f."], r.choice([0, 0, 1, 1, 2, 3])):
            full = name if "." in name.split("/")[-1] else name + ".js"
            absn = name.startswith("@")
            where = ["/"] if absn else r.sample([".", "js", "home"], r.choice([1, 1, 2, 3]))
            if kind == "error" and r.random() < .3:
                where = []
            for w in where:
                k = put(os.path.join(dirs[w], full[2:] if absn else full), False)
                if w != "home" or withhome:
                    tree.append({"dir": w, "name": list(full), "k": k})
            if r.random() < .3 and not absn:                # the suffix given although it need not be
                name = full
            for _ in range(r.choice([1, 1, 1, 2])):
                opts.append({"o": "i", "a": list(name)})
        js = []
        for _ in range(r.choice([1, 1, 1, 2])):
            k = put(os.path.join(d, "main%d.js" % len(js)), True)
            js.append({"o": "j", "a": k, "path": r.choice(["", d + "/"]) + "main%d.js" % len(js)})
        if kind == "load" and r.random() < .3:
            js.append({"o": "j", "a": -1, "path": "nothere.js"})
        if kind == "error" and r.random() < .3:
            js = r.choice([[], [{"o": "j", "a": 0, "path": ""}]])
        store = r.choice(["none", "array", "disk", "sparsetable", "vector"])
        two = r.choice(["", "", "2", "m", "m", "m2"])
        if two and kind != "error" and store == "none":
            store = r.choice(["array", "disk", "sparsetable", "vector"])
        if store != "none" or r.random() < .3:
            if r.random() < .2:
                opts.append({"o": "l", "a": r.choice(["none", "vector", "array"])})
            ls = [{"o": "l", "a": store}]
        else:
            ls = []
        opts += js
        for x in two:
            opts.append({"o": x, "a": ""})
        for x in "dr":
            if r.random() < .3:
                opts += [{"o": x, "a": ""}] * r.choice([1, 1, 2])
        jl = [o for o in opts if o["o"] == "l"]
        opts = [o for o in opts if o["o"] != "l"]
        r.shuffle(opts)
        for o in jl + ls:                                   # the last one counts
            opts.append(o)
        for o in jl + ls:
            at = r.randrange(len(opts))
        if not jl and ls:
            opts.remove(ls[0])
            opts.insert(r.randrange(len(opts) + 1), ls[0])
        if kind == "error":
            for x in r.sample(["h", "?", "l", "two", "none"], 2):
                if x in "h?":
                    opts.insert(r.randrange(len(opts) + 1), {"o": x, "a": ""})
                elif x == "l":
                    opts.insert(r.randrange(len(opts) + 1), {"o": "l", "a": r.choice(["", "Vector", "mmap", "sparse", "none "])})
                elif x == "two":
                    opts.insert(r.randrange(len(opts) + 1), {"o": r.choice("2m"), "a": ""})
        # ---- data
        final = "none"
        for o in opts:
            if o["o"] == "l":
                final = o["a"]
        objs = self.data(10**9 if final == "vector" else 10**4 if final != "disk" else 1000)
        fo = self.file(objs)
        ispbf = r.random() < .5
        data = rl.pbf_bytes(fo, r) if ispbf else ('<?xml version="1.0"?>\n<osm version="0.6">\n' + "".join(osm.xml_obj(o) for o in fo) + "</osm>\n").encode()
        inp = "ok"
        if kind == "input":
            inp = r.choice(["missing", "cut"])
            if inp == "cut":
                data = data[:-r.randrange(1, 7)] if ispbf else data[:-8]
        name = "in.osm.pbf" if ispbf else "in.osm"
        if not ispbf and r.random() < .3 and inp == "ok":
            name, data = "in.osm.gz", gzip.compress(data)
        pos = "file"
        if kind == "error" and r.random() < .25:
            pos = r.choice(["none", "stdin"])
        if ispbf and not any(o["o"] in "2m" for o in opts) and r.random() < .3 and inp != "missing":
            pos = "stdin"
        if inp != "missing":
            with open(os.path.join(d, name), "wb") as f:
                f.write(data)
        argv = [r.choice(["a", "", "é", "漢字😀", "a b", "{\"x\": 1}", "1", "%s"]) for _ in range(r.choice([0, 0, 1, 2, 5]))] if pos != "none" else []
        dash = r.random() < .15
        if dash and argv:
            argv.append(r.choice(["-d", "--debug", "-", "--", "-x"]))
        # ---- the command line
        args, after = [], []
        for o in opts:
            a = None
            if o["o"] == "i":
                a = "".join(o["a"]).replace("@", dirs["/"])
            elif o["o"] == "j":
                a = o["path"]
            elif o["o"] == "l":
                a = o["a"]
            x = [self.spell(o["o"], a)]
            args += sum(x, [])
        if r.random() < .1 and args and all(o["o"] in "dr2m" for o in opts[-1:]):
            after = [args.pop()]
        positional = [] if pos == "none" else ["-" if pos == "stdin" else r.choice([name, "./" + name, os.path.join(d, name)])]
        if dash:
            args += after + ["--"] + positional + argv
        else:
            args += positional + argv + after
        b = {"e": "begin", "n": self.n, "opts": [{"o": o["o"] if o["o"] in LONG else "?", "a": o["a"]} for o in opts], "tree": tree, "bad": bad, "pos": pos,
             "argv": [vf.pct(a) for a in argv], "input": inp,
             "objs": [dict({k: v for k, v in o.items() if k != "members"}, tags=[[vf.pct(k), vf.pct(v)] for k, v in sorted((vf.pct(k), v) for k, v in o["tags"])] if False else sorted([vf.pct(k), vf.pct(v)] for k, v in o["tags"])) for o in objs]}
        return {"begin": b, "args": args, "cwd": d, "home": home if withhome else None, "stdin": data if pos == "stdin" else b""}

    def spell(self, o, a):
        r = self.r
        if o == "?":
            return [r.choice(["-x", "--nothing", "--debug=1", "-3", "--2"]) if False else r.choice(["-x", "--nothing", "--debug=1", "-3"])]
        l = LONG[o]
        if a is None:
            return [r.choice(["-" + o, "--" + l, "--" + l[:-2]])]
        m = r.randrange(5)
        if m == 0 and a:
            return ["-" + o + a]
        if m == 1:
            return ["--%s=%s" % (l, a)]
        if m == 2:
            return ["--" + l, a]
        if m == 3:
            return ["--%s=%s" % (l[:3], a)]
        return ["-" + o, a]
