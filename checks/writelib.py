"""Scenarios that write files with the library (C04, C05, C07) and projections of the written bytes."""
import hashlib, json
import osm, pbf, readlib as rl
from vf import unpct


def big(n):
    n = int(n)
    r = []
    for _ in range(4):
        n, m = divmod(n, 10000)
        r.insert(0, m)
    return [n] + r


def short(s):
    return s if len(s) < 1500 else "#" + hashlib.sha1(s.encode()).hexdigest()


def shorten(o):
    """Projection that replaces very long texts by a hash, applied to written and read objects alike."""
    if any(len(t) >= 1500 for p in o["tags"] for t in p):
        o = dict(o, tags=[[short(a), short(b)] for a, b in o["tags"]])
    return o


def bigs(o):
    return {"id": big(o["id"]), "v": big(o["v"]), "ts": big(o["ts"]), "cs": big(o["cs"]),
            "refs": [big(n) for n in o["nodes"]] + [big(m[1]) for m in o["mem"]]}


def write_cmds(path, objs, typ, enc, opts):
    r = ["\t".join(["W", path, typ, enc, ";".join("%s=%s" % kv for kv in opts.items())])]
    return r + [osm.line(o) for o in objs] + ["F"]


def gen_opts(r, typ):
    """Random writer settings; returns (opts for the harness, fields for the begin event)."""
    o = {}
    f = {"dense": True, "comp": True, "gran": 100, "date": 1000, "meta": True, "gen": "Osmium%20(http://wiki.openstreetmap.org/wiki/Osmium)", "bounds": []}
    if r.random() < .75:
        o["direct"] = 1
        for k in ("dense", "comp", "meta"):
            if r.random() < (.6 if k != "meta" else .25):
                f[k] = r.random() < .5
                o[k] = int(f[k])
        if r.random() < .4:
            f["gran"] = o["gran"] = r.choice([1, 2, 10, 50, 100, 1000, 10000])
        if r.random() < .4:
            f["date"] = o["date"] = r.choice([1, 10, 500, 1000, 2000, 60000])
    if r.random() < .5:
        f["gen"] = o["gen"] = r.choice(["x", "my%20gen", "%C3%A4", ""])
    if r.random() < .5:
        xs = sorted(r.choice(osm.COORDS + [17, -123456789]) for _ in range(2))
        ys = sorted(r.choice(osm.COORDS[:12] + [17, -123456789]) for _ in range(2))
        if r.random() < .25:             # a line, or a single point
            xs[1] = xs[0]
            ys[1] = r.choice(ys)
            ys.sort()
        f["bounds"] = [xs[0], ys[0], xs[1], ys[1]]
        o["bounds"] = ",".join(map(str, f["bounds"]))
    return o, f


def fit(o, f):
    """Make values representable in the chosen granularities."""
    o = dict(o)
    step = max(1, f["gran"] // 100)
    if o["t"] == "n":
        if step > 1 and o["x"] == osm.UNDEF:
            o["x"] = o["y"] = 0
        if step > 1:
            o["x"] -= o["x"] % step
            o["y"] -= o["y"] % step
    if f["date"] > 1000:
        s = f["date"] // 1000
        o["ts"] = str(int(o["ts"]) // s * s)
    return o


def pbf_how(typ, f):
    return "nometa" if not f["meta"] else "pbfvis" if typ != "osm" else "pbf"


def file_events(path):
    """Wire-level decoding of a PBF file into events for PbfFileTrace."""
    ev = []
    try:
        for i, b in enumerate(pbf.split_blobs(open(path, "rb").read())):
            fr = {k: b[k] for k in ("head", "size", "raw_size", "comp")}
            fr["len"] = len(b["payload"])
            if b["type"] == "OSMHeader":
                h = pbf.decode_header(b["payload"])
                h["bbox"] = [big(n) for n in h["bbox"]]
                ev.append(dict(e="header", **fr, **h))
            elif b["type"] == "OSMData":
                B = pbf.decode_block(b["payload"])
                items = []
                groups = []
                for g in B["groups"]:
                    n0 = len(items)
                    for it in g["items"]:
                        items += rows(it)
                    groups.append({"kinds": g["kinds"], "n": len(items) - n0, "messages": len(g["items"])})
                ev.append(dict(e="block", **fr, strings=[short(s) for s in B["strings"]], gran=B["gran"], date=B["date"],
                               lat_off=big(B["lat_off"]), lon_off=big(B["lon_off"]), groups=groups, count=len(items)))
                ev += items
            else:
                ev.append({"e": "blob", "type": b["type"]})
        ev.append({"e": "eof"})
    except (pbf.Bad, IndexError, TypeError, Exception) as e:
        ev.append({"e": "malformed", "why": repr(e)[:200]})
    return ev


def rows(it):
    if it["t"] != "d":
        e = dict(e="item", t=it["t"], id=big(it["id"]), keys=it["keys"], vals=it["vals"],
                 info=dict(v=big(it["v"]), ts=big(it["ts"]), cs=big(it["cs"]), uid=big(it["uid"]), sid=it["sid"], vis=it["vis"]) if it["info"] else [])
        if it["t"] == "n":
            e.update(lat=big(it["lat"]), lon=big(it["lon"]))
        else:
            e["refs"] = [big(n) for n in it["refs"]]
        if it["t"] == "r":
            e.update(roles=it["roles"], types=it["types"])
        return [e]
    n = len(it["id"])
    tags, cur = [], []
    for k in it["kv"]:
        if k == 0 and len(cur) % 2 == 0:
            tags.append(cur)
            cur = []
        else:
            cur.append(k)
    if cur or (it["kv"] and len(tags) != n):
        raise pbf.Bad("dense keys_vals")
    if not it["kv"]:
        tags = [[] for _ in range(n)]
    cols = ["lat", "lon"] + (["v", "ts", "cs", "uid", "sid"] if it["info"] else [])
    if any(len(it[c]) != n for c in cols) or len(it["vis"]) not in (0, n):
        raise pbf.Bad("dense columns")
    out = []
    for i in range(n):
        out.append(dict(e="dn", id=big(it["id"][i]), lat=big(it["lat"][i]), lon=big(it["lon"][i]), keys=tags[i][::2], vals=tags[i][1::2],
                        info=dict(v=big(it["v"][i]), ts=big(it["ts"][i]), cs=big(it["cs"][i]), uid=big(it["uid"][i]), sid=it["sid"][i],
                                  vis=it["vis"][i:i + 1]) if it["info"] else []))
    return out


def pbf_cases(c, light=False):
    """List of (objs, typ, opts, fields)."""
    r = c.rnd
    cases = []

    def add(objs, typ=None, of=None):
        typ = typ or r.choice(["osm", "history", "change"])
        o, f = of or gen_opts(r, typ)
        cases.append(([fit(x, f) for x in objs], typ, o, f))
    # small: every setting meets every type order
    for _ in range(c.pick(80, 600)):
        n = r.choice([0, 1, 2, 3, 8, 20])
        objs = [osm.robj(r, hist=True) for _ in range(n)]
        if r.random() < .5:
            objs.sort(key=lambda o: "nwr".index(o["t"]))
        add(objs)
    # block boundaries: around 8000 and 16000 objects, sorted and interleaved
    for n, mix in ([(8001, "n"), (16003, "nwr"), (8002, "wr")] + ([(8000, "n"), (7999, "n"), (24001, "nw"), (16000, "n")] if c.thorough else [])):
        objs = []
        for i in range(n):
            t = mix[min(i * len(mix) // n, len(mix) - 1)] if r.random() < .9 else r.choice(mix)
            kw = dict(x=r.randrange(-10**9, 10**9), y=i) if t == "n" else dict(nodes=[i, i + 1]) if t == "w" else dict(mem=[("w", i, "r%d" % (i % 3))])
            objs.append(osm.obj(t, i * 3 - 5000, v=1 + i % 3, ts=1300000000 + 60 * (i % 7), cs=i, uid=i % 5 - 1, user="u%d" % (i % 50), vis=i % 4 > 0,
                                tags=[("k%d" % (i % 11), "v%d" % (i % 101))] if i % 3 == 0 else [], **kw))
        dense = r.random() < .7
        add(objs, r.choice(["osm", "history"]), ({"direct": 1, "dense": int(dense)}, {"dense": dense, "comp": True, "gran": 100, "date": 1000, "meta": True, "bounds": [],
            "gen": "Osmium%20(http://wiki.openstreetmap.org/wiki/Osmium)"}))
    return cases


def many_strings(c, dense):
    """One block with more than 65535 different strings."""
    objs = [osm.obj("n", i, uid=1, user="u", x=i, y=i, tags=[("k%d.%d" % (i, j), "v%d.%d" % (i, j)) for j in range(5)]) for i in range(1, 7500)]
    f = {"dense": dense, "comp": True, "gran": 100, "date": 1000, "meta": True, "bounds": [], "gen": "x"}
    return objs, "osm", {"direct": 1, "dense": int(dense), "gen": "x"}, f


def big_texts(c, dense, n=40):
    """Texts of a megabyte each that fill blocks to their limit."""
    objs = [osm.obj("n", i, uid=1, user="u", x=i, y=i, tags=[("k", "%08d" % i + chr(97 + i % 26) * 1000000)]) for i in range(1, n)]
    f = {"dense": dense, "comp": False, "gran": 100, "date": 1000, "meta": True, "bounds": [], "gen": "x"}
    return objs, "osm", {"direct": 1, "dense": int(dense), "comp": 0, "gen": "x"}, f


def big_block(c, dense):
    """More than 32 MB of tags in fewer than 8000 objects."""
    objs = [osm.obj("n", i, uid=1, user="u", x=i, y=i, tags=[("k", ("%06d" % i) * 1500)]) for i in range(1, 4200)]
    f = {"dense": dense, "comp": False, "gran": 100, "date": 1000, "meta": True, "bounds": [], "gen": "x"}
    return objs, "osm", {"direct": 1, "dense": int(dense), "comp": 0, "gen": "x"}, f
