"""C12: file names and format names map to the documented type and encoding."""
import os
import readlib as rl
TYPES = ["osm", "history", "osh", "change", "osc"]
ENCS = ["pbf", "xml", "xmlgz", "gz", "xmlbz2", "bz2"]
BAD = ["", "OSM", "Osm", "osm ", "%20osm", "osm.pbf", "hist", "histor", "historyx", "changes", "o", "os", "oshx", "xmlz", "zip", ".gz", "xml.gz", "bz", "bzip2", "gzip", "PBF", "pb", "pbff", "XML", "xmlbz", "xml2", "osmchange", "none", "%00osm", "osm%00"]
SUF = ["pbf", "osm.pbf", "osm", "osm.bz2", "osm.gz", "osh.pbf", "osh", "osh.bz2", "osh.gz", "osc", "osc.bz2", "osc.gz",
       "", "osc.pbf", "xml", "OSM", "gz", "bz2", "osm.", ".osm", "osm.xml", "osm.gz.bz2", "osm.gzip", "osh.osm", "osm.osh", "pbf.osm", "tar.osm", "osmx", "xosm"]


def words(rng):
    W = ["a", "osm", "osh", "osc", "pbf", "gz", "bz2", ".", ".", ".", "/", "/", ":", "http", "https", "-", "ftp", "OSM", "planet", "_", "..", "x-1"]
    s = [rng.choice(W) for _ in range(rng.randrange(0, 14))]
    return [y for x in s for y in ([".", "."] if x == ".." else [x])]


def check(c):
    h = c.build("h_name.cpp")
    c.model("MCName", consts={"MaxLen": c.pick(4, 5)}, timeout=1800)
    gen = c.generate("MCName", "MCNameGen.cfg", consts={"MaxLen": c.pick(3, 4)})
    r = c.rnd
    names = [[]] + sorted(gen)
    for base in (["a"], ["dir", "/", "a"], ["d", ".", "osm", "/", "a"], [], [".", "/", "a"], [".", ".", "/", "a"], ["/", "x", "/", "a"], ["http", ":", "/", "/", "h", "/", "a"], ["https", ":", "/", "/", "h", "/", "a"],
                 ["ftp", ":", "/", "/", "h", "/", "a"], ["http"], ["https"], ["httpx", ":", "a"], ["a", ":", "b"], ["d", ".", "gz", "/"], ["http", "s", ":"], ["-"], ["a", "-"]):
        for t in ("", "osm", "osh", "osc", "osx", "OSM"):
            for e in ("", "pbf", "gz", "bz2", "xml", "zip"):
                names.append(base + ([".", t] if t else []) + ([".", e] if e else []))
    names += [words(r) for _ in range(c.pick(3000, 60000))]
    stub = os.path.join(c.tmp, "bin")
    os.mkdir(stub)
    for p in ("curl", "zcat", "bzcat"):
        with open(os.path.join(stub, p), "w") as f:
            f.write('#!/bin/sh\nprintf "STUB %s %%s" "$1"\n' % p)
        os.chmod(os.path.join(stub, p), 0o755)
    scen = []
    for n, s in enumerate(names):
        w = " ".join(s)
        ls = [rl.B({"e": "begin"}), "new\t" + w, "back"]
        for _ in range(r.choice([0, 1, 2, 4])):
            k = r.randrange(8)
            if k == 0:
                ls += ["type\t" + r.choice(TYPES)]
            elif k == 1:
                ls += ["enc\t" + r.choice(ENCS)]
            elif k == 2:
                ls += ["type\t" + r.choice(BAD + ENCS)]
            elif k == 3:
                ls += ["enc\t" + r.choice(BAD + TYPES)]
            elif k == 4:
                ls += ["suffix\t" + r.choice(SUF)]
            elif k == 5:
                ls += ["name\t" + " ".join(r.choice(names))]
            elif k == 6:
                ls += ["copy\t" + r.choice("acn")]
            else:
                ls += ["back"]
        if r.random() < .3:
            ls += ["opened"]
        scen.append(ls)
    for t in TYPES + ENCS + BAD:    # every spelling from every state
        for s in SUF[:12]:
            scen.append([rl.B({"e": "begin"}), "new\ta", "suffix\t" + s, "type\t" + t, "back", "enc\t" + t, "back"])
    for s in SUF:
        for t in ("history", "change"):
            for e in ("xml", "gz", "bz2"):
                scen.append([rl.B({"e": "begin"}), "new\ta", "type\t" + t, "enc\t" + e, "suffix\t" + s, "back"])
        scen.append([rl.B({"e": "begin"}), "new\ta", "suffix\t" + s, "back", "opened"])
    r.shuffle(scen)
    d = os.path.join(c.tmp, "empty")
    os.mkdir(d)

    def run():
        ev = []
        for x in c.harness_all(h, ["\n".join("\n".join(x) for x in ch) + "\n" for ch in rl.chunks(scen, 8)], timeout=300, env={"PATH": stub + ":" + os.environ["PATH"]}):
            ev += x
        return ev
    ev = run()
    c.validate("NameTrace", ev, what="file and format names", recheck=run)
    c.cov["names"] = len(names)
    c.cov["opened"] = {k: sum(1 for e in ev if e["e"] == "opened" and e["how"] == k) for k in ("stdin", "curl", "zcat", "bzcat", "file")}
    c.sample(ev[:12])
    few = ev[:2000]

    def mut(f):
        def g(t):
            f(next(e for e in t[500:] if e["e"] in ("new", "type", "enc")))
        return g
    c.control("NameTrace", few, mut(lambda e: e.update(typ="history" if e["typ"] != "history" else "osm")))
    c.control("NameTrace", few, mut(lambda e: e.update(base=e["base"] + ".")))
    c.control("NameTrace", few, mut(lambda e: e.update(thrown=not e["thrown"])))
    c.assumptions += ["'://' is not required for a URL: a name is a URL when its part before the first colon is http or https",
                      "names are checked through stub programs in PATH that report how they were called; nothing is downloaded"]
