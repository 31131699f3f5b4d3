"""C18: the library's orderings are consistent total orders."""
import itertools, json
import vf
import readlib as rl, osm
from writelib import big
M31 = 2**31
GEOS = "-UOSMIUM_OSM_AREA_HPP -Dgeos=geoscompat -I%s/harness/geoscompat" % vf.VERIF


def check(c):
    h = c.build("h_order.cpp", flags=GEOS, libs="-lgeos_c")
    c.model("Order", consts={"MaxLen": c.pick(3, 4)}, timeout=3000)
    for f in ("abs", "yx", "noswap"):
        c.model_must_fail("Order", consts={"Fault": '{"%s"}' % f})
    r = c.rnd
    scen = []
    J = lambda x: json.dumps(x, separators=(",", ":"))

    def objs(t, idv):
        keys = [big(abs(i)) + [0 if i < 0 else 1] + big(v) for i, v in idv]
        ls = [rl.B({"e": "begin"}), "objs\t%s\t%s\t%d" % (t, J(keys), len(idv))]
        for i, v in idv:
            o = osm.robj(r, t if t != "a" else "n", hist=True, maxn=1)
            o["id"], o["v"] = str(i), str(v)
            ls.append(osm.line(o))
        scen.append(ls)

    def pos(ps):
        scen.append([rl.B({"e": "begin"}), "pos\t" + ";".join("%d,%d" % p for p in ps)])

    def segs(ss):
        scen.append([rl.B({"e": "begin"}), "segs\t" + ";".join("%d,%d,%d,%d" % (a + b) for a, b in ss)])

    def wns(ws):
        keys = [big(x[0]) for x in ws]
        scen.append([rl.B({"e": "begin"}), "wns\t%s\t%s" % (J(keys), ";".join("%d,%d,%d" % x for x in ws))])
    # everything small, exhaustively
    for t in "nwra":
        objs(t, [(i, v) for i in range(-3, 4) for v in (1, 2, 3)])
    small = [(x, y) for x in (-1, 0, 1) for y in (-1, 0, 1)]
    pos(small + [(2**31 - 1, 2**31 - 1)])
    segs([(a, b) for a in small[:5] for b in small[:5]])
    segs([(a, b) for a in small[4:] for b in small[4:]])
    wns([(i, x, x) for i in range(-3, 4) for x in (0, 5)])
    I = [0, 1, 2, 7, 255, 256, 65536, M31 - 1, M31, M31 + 1, 2**32, 2**32 + 1, 2**53, 2**53 + 1, 2**62, 2**63 - 1]
    VV = [0, 1, 2, 3, M31 - 1, M31, 2**32 - 1]
    C = [0, 1, -1, 1799999999, -1800000000, M31 - 1, -M31 + 1, -M31, 5, 6, 10000000]
    for _ in range(c.pick(150, 3000)):
        t = r.choice("nwra")
        base = r.sample(I, 4) + [r.randrange(1, 2**r.choice([4, 31, 40, 63]))]
        objs(t, [(r.choice([1, -1]) * r.choice(base), r.choice(VV)) for _ in range(r.choice([3, 8, 16]))])
        xs = r.sample(C, 3) + [r.randrange(-M31, M31)]
        pos([(r.choice(xs), r.choice(xs)) for _ in range(r.choice([3, 8, 14]))])
        segs([((r.choice(xs), r.choice(xs)), (r.choice(xs), r.choice(xs))) for _ in range(r.choice([3, 8, 12]))])
        wns([(r.choice([1, -1]) * r.choice(base), r.choice(xs), r.choice(xs)) for _ in range(10)])
    run = lambda: rl.run_scenarios(c, h, scen)
    ev = run()
    c.validate("OrderTrace", ev, what="orderings", recheck=run)
    c.cov["pairs_compared"] = sum(len(e.get("keys") or e.get("p") or e.get("s") or []) ** 2 for e in ev)
    c.cov["exhaustive_subdomain"] = "ids -3..3 x versions 1..3 per type; positions and segments over a 3x3 grid"
    c.sample(ev[1])
    c.control("OrderTrace", ev[:2], lambda t: t[1]["lt"][0].append(1))
    c.control("OrderTrace", ev[:2], lambda t: t[1]["plt"][0].pop() and None)
    i = next(k for k, e in enumerate(ev) if e["e"] == "segs")
    c.control("OrderTrace", ev[i - 1:i + 1], lambda t: t[1]["rev"][1].reverse())
    c.assumptions += ["ids have a magnitude below 2^63"]
