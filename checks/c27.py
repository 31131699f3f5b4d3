"""C27: all representations of a geometry describe the same coordinates."""
import vf, osm, readlib as rl
from writelib import big
X = [0, 1, -1, 9, -9, 10, 99, 100, 999, 1000, -1000, 1234567, 9999999, 10000000, -10000000, 99999999, 100000000, 899999999, -900000000, 1799999999, 1800000000, -1800000000, -1799999999,
     123, 12345678, 5000000, -5, 3, 2147483646, -2147483648]

GEOS = "-UOSMIUM_OSM_AREA_HPP -Dgeos=geoscompat -I%s/harness/geoscompat" % vf.VERIF


def check(c):
    h = c.build("h_geom.cpp", flags=GEOS + " " + vf.sh("gdal-config --cflags"), libs="-lgeos_c " + vf.sh("gdal-config --libs"))
    c.model("Geometry", consts={"MaxLen": c.pick(4, 6)}, timeout=1800)
    for f in ("open", "nosrid", "count", "halfrev"):
        c.model_must_fail("Geometry", consts={"Fault": '{"%s"}' % f})
    r = c.rnd
    scen = []
    co = lambda: r.choice(X) if r.random() < .4 else r.randrange(-1800000000, 1800000001) if r.random() < .6 else r.randrange(-2000, 2000)
    for n in range(c.pick(500, 6000)):
        t = "n" if n % 4 == 0 else "w"
        k = 1 if t == "n" else r.choice([0, 1, 2, 2, 3, 4, 5, 8, 14])
        pts = [(r.choice([1, 2, 3, n + i, -5, 2**40 + i]), co(), co()) for i in range(k)]
        if k > 1 and r.random() < .5:
            pts[-1] = pts[0] if r.random() < .8 else (pts[0][0], co(), co())     # closed by reference
        i = r.choice(osm.IDS)
        b = {"e": "begin", "id": str(i), "refs": [str(p[0]) for p in pts], "coords": [[big(p[1]), big(p[2])] for p in pts]}
        scen.append(["\t".join([t, r.choice(["list", "obj"]), rl.B(b)[2:], str(i), ";".join("%d,%d,%d" % p for p in pts)])])
    run = lambda: rl.run_scenarios(c, h, scen)
    ev = run()
    c.validate("GeometryTrace", ev, what="geometry", recheck=run)
    for k in ("wkt", "wkb", "hex", "ogr", "geos", "refused"):
        c.cov[k] = sum(1 for e in ev if e["e"] == k)
    i = next(k for k, e in enumerate(ev) if e["e"] == "wkb" and len(e["s"]) > 60 and e["srid"] and e["s"][-1])
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    c.sample(ev[i])
    for p in (1, 5, 9, 12, -2):
        c.control("GeometryTrace", [ev[a], ev[i]], lambda t: t[1]["s"].__setitem__(p, (t[1]["s"][p] + 16) % 256))
    c.control("GeometryTrace", [ev[a], ev[i - 1]], lambda t: t[1]["s"].remove(next(x for x in t[1]["s"] if 49 <= x <= 57)))
    c.assumptions += ["coordinates are any 32 bit numbers but the undefined one; numbers are compared at seven decimals", "the OGR and GEOS libraries are trusted to keep the coordinates given to it"]
