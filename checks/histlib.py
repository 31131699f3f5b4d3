"""Streams of object versions for the end-time and range checks (C20, C21)."""
import osm, readlib as rl
from writelib import big
BA = {"n": ("bn", "an"), "w": ("bw", "aw"), "r": ("br", "ar")}
TS = [1, 2, 3, 4, 5, 1000, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 253402300799]


def history(r, sort=None):
    """Objects in some versions, types next to each other; sorted as in history files or not."""
    sort = r.random() < .7 if sort is None else sort
    types = r.choice(["nwr", "nwr", "n", "w", "r", "nw", "nr", "wr", ""])
    pool = r.choice([[1, 2, 3, 4, 5], TS[:6], TS])
    ids = r.choice([[1, 2], [5], list(range(8)), [-3, 3, 2**32 + 3, 2**33 + 3]])
    res = []
    for t in "nwr":
        if t not in types:
            continue
        k = []
        for _ in range(r.choice([0, 1, 2, 3, 6, 15])):
            o = osm.robj(r, t, hist=True, maxn=2)
            o["id"] = str(r.choice(ids))
            o["ts"] = str(r.choice(pool))
            o["v"] = str(r.choice([1, 2, 3]))
            k.append(o)
        if sort:
            k.sort(key=lambda o: (int(o["id"]), int(o["ts"])))
            for i, o in enumerate(k):
                o["v"] = str(1 + (int(k[i - 1]["v"]) if i and k[i - 1]["id"] == o["id"] else 0))
        elif r.random() < .3 and k:
            k.sort(key=lambda o: int(o["id"]))
        res += k
    return res


def scenario(c, r, n, kind):
    f, t = "", ""
    if kind != "e":
        pool = r.choice([[1, 2, 3, 4, 5], TS])
        f, t = r.choice(pool), r.choice(pool)
        if r.random() < .6:
            t = f
        elif r.random() < .85:
            f, t = min(f, t), max(f, t)
    ls = ["\t".join([kind, str(f), str(t)])]
    nreads = r.choice([1, 1, 1, 2, 3])
    for k in range(nreads):
        st = history(r)
        stop = r.randrange(1, len(st) + 8) if r.random() < .2 else 0
        ls.append(rl.B({"e": "begin", "kind": kind, "ends": "e" in kind, "from": big(f) if f else [], "to": big(t) if f else []}))
        ls.append("stop\t%d" % stop)
        how = r.random()
        if how < .25:
            ls.append("file\t%s\thistory\txml" % rl.put(c, "h%d-%d.osh" % (n, k), osm.xml_file(st, "history")))
        elif how < .5:
            ls.append("file\t%s\thistory\tpbf" % rl.put(c, "h%d-%d.pbf" % (n, k), rl.pbf_bytes(st, r, hist=True)))
        else:
            ls.append("init")
            for ty in "nwr":
                q = [o for o in st if o["t"] == ty]
                if q or r.random() < .1:
                    ls.append(BA[ty][0])
                    for o in q:
                        if kind == "r" and r.random() < .7:
                            ls.append("et\t%d" % r.choice(TS[:7] + [f, t, f - 1, f + 1]))
                        ls.append(osm.line(o))
                    ls.append(BA[ty][1])
            ls.append("fin")
        ls.append("end")
    return ls + ["close"]


def run(c, h, scen):
    evs = rl.run_scenarios(c, h, scen)
    for e in evs:
        if e["e"] == "in" and e["c"] in ("n", "w", "r"):
            e["tsn"], e["etn"] = big(e["o"]["ts"]), big(e["et"])
    return evs
