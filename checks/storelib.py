"""Scenarios for the object store checks (C16, C17)."""
import osm, readlib as rl
from writelib import big


def key(o):
    i = int(o["id"])
    return big(abs(i)) + [0 if i < 0 else 1] + big(o["v"])


def add_keys(evs):
    for e in evs:
        if isinstance(e.get("o"), dict) and "t" in e["o"]:
            e["o"]["k"] = key(e["o"])
    return evs


def run(c, h, scen):
    return add_keys(rl.run_scenarios(c, h, scen))


def pools(r):
    mags = r.choice([[0, 1, 2, 3], [1, 7, 2**31, 2**32 + 1, 2**62, 2**63 - 1], [5], list(range(20))])
    ids = [m for m in mags] + [-m for m in mags if m]
    if r.random() < .4:
        ids = [i for i in ids if i >= 0]
    vers = r.choice([[1], [1, 2, 3], [0, 1, 2**31 - 1], [1, 2**31, 2**32 - 1]])
    return ids, vers


def obj(r, ids, vers, t=None):
    o = osm.robj(r, t, hist=True, maxn=2)
    o["id"], o["v"] = str(r.choice(ids)), str(r.choice(vers))
    return o


def meta(r):
    return "%s\t%s\t%d" % (r.choice(["", "gen", "x%20y"]), r.choice(["", "", "-10,-20,30,40"]), r.random() < .5)
