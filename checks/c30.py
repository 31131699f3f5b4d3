"""C30: multipolygon relations become areas with the right rings."""
import subprocess
import readlib as rl
import vf
GEOS = "-UOSMIUM_OSM_AREA_HPP -Dgeos=geoscompat -I%s/harness/geoscompat" % vf.VERIF


def trip(n):
    n = int(n)
    return [(n > 0) - (n < 0), abs(n) // 10**9, abs(n) % 10**9]


def check(c):
    gdal = [subprocess.check_output(["gdal-config", a]).decode().strip() for a in ("--cflags", "--libs")]
    h = c.build("h_area.cpp", flags=GEOS + " " + gdal[0], libs="-lgeos_c " + gdal[1])
    c.model("RingBuild", consts={"MaxWays": c.pick(4, 5)})
    for f in ("noback", "noturn", "nosimple"):
        c.model_must_fail("RingBuild", consts={"MaxWays": 4, "Fault": '{"%s"}' % f})
    c.model("RingNest", consts={"N": c.pick(5, 6)})
    for f in ("inplace", "nothin", "noparity"):
        c.model_must_fail("RingNest", consts={"N": 4, "Fault": '{"%s"}' % f})
    g = Gen(c)
    lines = [g.scenario() for _ in range(c.pick(500, 6000))]
    lines += [g.deep(p) for p in perms(4)] + [g.deep(p) for p in perms(5)[::c.pick(5, 1)]]

    def run():
        ev = rl.run_scenarios(c, h, lines)
        for e in ev:
            if e["e"] == "area":
                e["n"], e["orig"] = trip(e["a"]["id"]), trip(e["orig"])
        return ev
    ev = run()
    c.validate("AreaTrace", ev, what="areas", recheck=run)
    b = [i for i, e in enumerate(ev) if e["e"] == "begin"] + [len(ev)]
    segs = [ev[x:y] for x, y in zip(b, b[1:])]
    c.cov["areas"] = sum(e["e"] == "area" for e in ev)
    c.cov["areas_with_holes"] = sum(e["e"] == "area" and any(len(p) > 1 for p in e["rings"]) for e in ev)
    hole = next(s for s in segs if any(e["e"] == "area" and not e["from_way"] and any(len(p) > 1 for p in e["rings"]) for e in s))
    at = next(i for i, e in enumerate(hole) if e["e"] == "area" and not e["from_way"] and any(len(p) > 1 for p in e["rings"]))
    c.sample(hole[at])

    def both(t, f):
        f(t[at]["rings"])
        for r in t[at]["same"]:
            f(r)
    c.control("AreaTrace", hole, lambda t: t.pop(at))
    c.control("AreaTrace", hole, lambda t: both(t, lambda r: next(p for p in r if len(p) > 1).pop()))
    c.control("AreaTrace", hole, lambda t: both(t, lambda r: r[0][0].reverse()))
    c.control("AreaTrace", hole, lambda t: t[at]["same"].__setitem__(2, []))
    c.assumptions += ["the C++ interface of GEOS 3.3 is provided by harness/geoscompat on top of the installed C library",
                      "positions lie on a grid of 0.1 degrees; two rings of a relation touch in at most one point or edge"]


def perms(n):
    import itertools
    return list(itertools.permutations(range(n)))


class Gen:
    def __init__(self, c):
        self.c, self.r, self.n = c, c.rnd, 0

    def new(self):
        self.n += 1
        self.node = {}
        self.ways, self.rels, self.wid, self.wo = {}, [], set(), []
        self.scale = self.r.choice([1, 1, 1, 3])

    def ref(self, p):
        if p not in self.node:
            self.node[p] = self.r.choice([1, -1]) * (len(self.node) + 1) + self.r.choice([0, 0, 0, 10**10]) * 0
        return self.node[p]

    # ---- rings
    def chain(self, x0, y0, x1, y1, m, n):
        """A ring along the sides of a box, at most m away from them: (left, bottom, right, top) chains of points."""
        r = self.r
        pick = lambda a, b: sorted(r.sample(range(a, b + 1), min(r.randrange(n + 1), b - a + 1)))
        cor = [(r.randrange(x0, x0 + m + 1), r.randrange(y0, y0 + m + 1)), (r.randrange(x1 - m, x1 + 1), r.randrange(y0, y0 + m + 1)),
               (r.randrange(x1 - m, x1 + 1), r.randrange(y1 - m, y1 + 1)), (r.randrange(x0, x0 + m + 1), r.randrange(y1 - m, y1 + 1))]
        bottom = [(x, r.randrange(y0, y0 + m + 1)) for x in pick(x0 + m + 1, x1 - m - 1)]
        right = [(r.randrange(x1 - m, x1 + 1), y) for y in pick(y0 + m + 1, y1 - m - 1)]
        top = [(x, r.randrange(y1 - m, y1 + 1)) for x in reversed(pick(x0 + m + 1, x1 - m - 1))]
        left = [(r.randrange(x0, x0 + m + 1), y) for y in reversed(pick(y0 + m + 1, y1 - m - 1))]
        return cor, [bottom, right, top, left]

    def box(self, x0, y0, x1, y1, depth, out, at=None):
        """Random nested rings in a box; each as [corners, sides]."""
        r = self.r
        m = max(1, min(x1 - x0, y1 - y0) // 12)
        ring = self.chain(x0, y0, x1, y1, m, 3)
        me = len(out)
        out.append(ring)
        ix0, iy0, ix1, iy1 = x0 + 2 * m + 1, y0 + 2 * m + 1, x1 - 2 * m - 1, y1 - 2 * m - 1
        if depth == 0 or ix1 - ix0 < 12 or iy1 - iy0 < 12:
            return
        k = r.choice([0, 1, 1, 2, 3])
        if not k:
            return
        w = (ix1 - ix0) // k
        kids = []
        for i in range(k):
            if w < 12:
                break
            kids.append(len(out))
            self.box(ix0 + i * w + 1, iy0, ix0 + (i + 1) * w - 2, iy1, depth - 1, out)
        if at is not None and not at and r.random() < .5:
            # one touching point or edge: between two neighbours, or to the outer ring at the left
            if len(kids) > 1 and r.random() < .7:
                a, b, gx = kids[0], kids[1], ix0 + w - 1
                ys = self.gap(out[a], out[b])
                n = r.choice([1, 1, 2])
                if len(ys) >= n:
                    ps = [(gx, y) for y in sorted(r.sample(ys, n))]
                    self.poke(out[a], 1, ps)
                    self.poke(out[b], 3, ps)
                    at.append((a, b, ps))
            elif kids:
                a = kids[0]
                used = {p[1] for p in out[me][1][3]} | {p[1] for p in out[a][1][3]}
                lo = max(out[me][0][0][1], out[a][0][0][1]) + 1
                hi = min(out[me][0][3][1], out[a][0][3][1]) - 1
                ys = [y for y in range(iy0 + m + 2, iy1 - m - 2) if y not in used and lo < y < hi]
                if ys:
                    ps = [(x0 + m + max(1, m // 2), r.choice(ys))]
                    self.poke(out[me], 3, ps)
                    self.poke(out[a], 3, ps)
                    at.append((me, a, ps))

    def gap(self, a, b):
        """Heights at which both neighbours' facing sides can get one more point."""
        lo = max(a[0][1][1], b[0][0][1]) + 1
        hi = min(a[0][2][1], b[0][3][1])
        used = {p[1] for p in a[1][1]} | {p[1] for p in b[1][3]}
        bad = [y for y in used]
        cand = [y for y in range(lo + 1, hi - 1) if y not in used]
        if not bad:
            return cand
        bs = sorted(bad)                                    # between two neighbouring points, so that an edge stays an edge
        k = self.r.randrange(len(bs) + 1)
        low = bs[k - 1] if k else lo
        high = bs[k] if k < len(bs) else hi
        return [y for y in cand if low < y < high]

    def poke(self, ring, side, ps):
        s = ring[1][side] + ps
        s.sort(key=lambda p: p[1], reverse=side == 3)
        ring[1][side][:] = s

    def points(self, ring):
        cor, sides = ring
        p = []
        for k in range(4):
            p += [cor[k]] + sides[k]
        return p

    def split(self, pts, k, notat=(), at=None):
        """The closed ring cut into k ways (k = 1: one closed way)."""
        r = self.r
        n = len(pts)
        ok = [i for i in range(n) if pts[i] not in notat]
        cuts = sorted(r.sample(ok, min(k, len(ok))))
        if at is not None and pts.index(at) not in cuts:
            cuts = sorted(cuts[:-1] + [pts.index(at)]) if len(cuts) > 1 or r.random() < .5 else [pts.index(at)]
        out = []
        for i, s in enumerate(cuts):
            e = cuts[(i + 1) % len(cuts)]
            seg = [pts[j % n] for j in range(s, e + 1 + (n if e <= s else 0))]
            if r.random() < .5:
                seg.reverse()
            out.append(seg)
        return out

    # ---- objects
    TAGS = [("landuse", "forest"), ("landuse", "grass"), ("natural", "water"), ("name", "x"), ("name", "é"), ("source", "gps"), ("note", "n"), ("created_by", "J"), ("area", "")]

    def tags(self, n=None):
        r, d = self.r, {}
        for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if n is None else n):
            k, v = r.choice(self.TAGS)
            d[k] = v
        return list(d.items())

    def common(self, i, tags):
        r = self.r
        ts = r.choice([0, 1, 1300000000, 1300000001, r.randrange(2147483647)])
        a = {"id": str(i), "v": str(r.choice([1, 2, 77, 4294967295])), "ts": str(ts), "cs": str(r.choice([1, 2147483647, 5])), "uid": r.choice([-1, 0, 1, 2147483647]),
             "user": vf.pct(r.choice(["", "u", "ü x"])), "vis": r.random() < .8, "tags": [[vf.pct(k), vf.pct(v)] for k, v in tags]}
        return {"a": a, "n": trip(i), "ts": ts}

    def tok(self, a):
        import osm
        return [a["id"], a["v"], a["ts"], a["cs"], str(a["uid"]), a["user"], "1" if a["vis"] else "0",
                ";".join("%s=%s" % (osm._esc(k), osm._esc(v)) for k, v in a["tags"])]

    def anid(self, used):
        r = self.r
        while True:
            i = r.choice([r.randrange(1, 60), r.randrange(1, 60), -r.randrange(1, 60), r.randrange(10**9 - 3, 10**9 + 3), r.choice([1, -1]) * r.randrange(10**18)])
            if i and i not in used:
                used.add(i)
                return i

    def way(self, pts, tags=None):
        i = self.anid(self.wid)
        o = self.common(i, self.tags() if tags is None else tags)
        o["nodes"] = [[str(self.ref(p)), p[0], p[1]] for p in pts]
        self.ways[str(i)] = o
        return str(i)

    def relation(self, rings, repair=False, twice=False):
        r = self.r
        mem = [w for ws in rings for w in ws]
        r.shuffle(mem)
        self.emitrel(mem, rings, twice)

    def emitrel(self, mem, rings, twice=False, typ=None):
        r = self.r
        if twice and mem:
            mem.insert(r.randrange(len(mem) + 1), r.choice(mem))
        typ = typ or r.choice(["multipolygon"] * 6 + ["boundary"] * 3 + ["route", "", "Multipolygon"])
        tags = self.tags() + ([("type", typ)] if typ else [])
        r.shuffle(tags)
        if not hasattr(self, "rids"):
            pass
        o = self.common(self.anid(self.rid), tags)
        o.update(type=typ, mem=list(mem), rings=rings)
        role = lambda: r.choice(["outer", "inner", "", "x y"])
        toks = ["w:%s:%s" % (w, vf.pct(role())) for w in mem]
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            toks.insert(r.randrange(len(toks) + 1), "%s:%d:%s" % (r.choice("nr"), r.randrange(1, 50), vf.pct(role())))
        o["tok"] = toks
        self.rels.append(o)

    def area(self, repair):
        """One relation with its ways."""
        r, sc = self.r, self.scale
        w, hgt = r.choice([(60, 40), (200, 150), (1000, 800)])
        x0 = r.randrange(-1700, 1700 - w)
        y0 = r.randrange(-850, 850 - hgt)
        out, touch = [], []
        k = r.choice([1, 1, 1, 2])
        for i in range(k):
            self.box(x0 + i * (w // k), y0, x0 + (i + 1) * (w // k) - 2, y0 + hgt, r.choice([0, 1, 1, 2, 3]), out, touch if not i else None)
        if len(out) > 9:
            out = out[:9] if not touch or max(touch[0][:2]) < 9 else out
        rings = [self.points(g) for g in out]
        kind = r.random()
        if kind < .08:                                       # a ring that crosses itself
            p = r.choice(rings)
            i = r.randrange(len(p))
            j = (i + r.choice([2, 3])) % len(p)
            p[i], p[j] = p[j], p[i]
        elif kind < .12 and len(rings) > 1:                  # or another one
            p, q = r.sample(rings, 2)
            q[r.randrange(len(q))] = (r.choice(p)[0] + 1, r.choice(p)[1] + 1)
        parts = []
        for p in rings:
            if len(set(p)) != len(p):
                return
            t = [x for a in touch for x in a[2] if x in p]
            if len(t) == 2:
                parts.append(self.split(p, r.choice([1, 1, 2, 3]), notat=t))
            elif t and r.random() < .6:
                parts.append(self.split(p, r.choice([1, 2, 3]), at=t[0]))
            else:
                parts.append(self.split(p, r.choice([1, 1, 1, 2, 2, 3, 5])))
        ids = []
        same = self.tags(1) if r.random() < .5 else None
        for ws in parts:
            ids.append([self.way(s, r.choice([same, None, []]) if same else None) for s in ws])
        if kind > .85:                                       # a gap
            k = r.randrange(len(ids))
            if repair and r.random() < .8:                   # of one edge: cut it out of a way
                w = r.choice(ids[k])
                n = self.ways[w]["nodes"]
                if len(n) > 3:
                    if len(ids[k]) == 1:                     # the closed way loses its last edge
                        n.pop()
                    elif r.random() < .5:
                        n.pop()
                    else:
                        n.pop(0)
            elif len(ids[k]) > 1:
                ids[k].pop(r.randrange(len(ids[k])))
        mem = [w for ws in ids for w in ws]
        r.shuffle(mem)
        if r.random() < .1:                                  # a member without nodes
            w = self.way([], [])
            mem.insert(r.randrange(len(mem) + 1), w)
        self.emitrel(mem, ids, twice=r.random() < (.3 if repair else .02))
        if r.random() < .15 and ids:                         # a second relation with some of the rings
            k = r.randrange(1, len(ids) + 1)
            pick = r.sample(ids, k)
            mem = [w for ws in pick for w in ws]
            r.shuffle(mem)
            self.emitrel(mem, pick)

    def script(self, repair, gone=()):
        r = self.r
        begin = {"e": "begin", "n": self.n, "repair": repair, "ways": self.ways, "rels": [{k: v for k, v in o.items() if k != "tok"} for o in self.rels]}
        J = lambda *a: "\t".join(a)
        out = [rl.B(begin), J("start", "1" if repair else "0")]
        for o in self.rels:
            out.append(J("rel", "r", *self.tok(o["a"]), ",".join(o["tok"])))
        out.append("pass2")
        ws = [w for w in self.ways if w not in gone]
        r.shuffle(ws)
        for w in ws:
            o = self.ways[w]
            out.append(J("way", "w", *self.tok(o["a"]), ",".join("%s:%d:%d" % tuple(n) for n in o["nodes"])))
        return out + ["end"]

    def scenario(self):
        r = self.r
        self.new()
        self.rid = set()
        repair = r.random() < .4
        for _ in range(r.choice([1, 1, 2, 3])):
            self.area(repair)
        for _ in range(r.choice([0, 1, 2, 3])):              # ways in no relation
            x, y = r.randrange(-1700, 1600), r.randrange(-850, 800)
            p = self.points(self.chain(x, y, x + 40, y + 30, 3, 2))
            if r.random() < .5:
                p.reverse()
            p = p[:r.choice([1, 2, 3, 20, 20, 20])]
            self.way(p + (p[:1] if r.random() < .7 else []))
        gone = r.sample(list(self.ways), 1) if self.ways and r.random() < .1 else []
        return self.script(repair, gone)

    def deep(self, order):
        """Rings in one another, given in every order."""
        self.new()
        self.rid = set()
        n, r = len(order), self.r
        ids = []
        for k in range(n):
            d = 30 * k
            ids.append([self.way(self.split(self.points(self.chain(d, d, 600 - d, 500 - d, 5, 2)), 1)[0])])
        self.emitrel([ids[k][0] for k in order], ids, typ="multipolygon")
        return self.script(False)
