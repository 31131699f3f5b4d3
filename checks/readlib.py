"""Scenarios for h_io: turning (file, objects, handler) into script lines and begin events."""
import json, os
import osm, pbf


def begin(objs, kind="all", stop=0, how="same", mode="file", out="ok", gen="", bounds=(), multi=False, **kw):
    types = [o["t"] for o in objs]
    b = {"e": "begin", "types": types, "kind": kind, "stop": stop, "how": how, "mode": mode, "out": out,
         "gen": gen, "bounds": list(bounds), "multi": multi,
         "cnts": {t: types.count(t) for t in "nwr"}}
    if mode == "type":
        b["idx"] = {t: [i + 1 for i, x in enumerate(types) if x == t] for t in "nwr"}
    b.update(kw)
    return b


def B(e):
    return "B\t" + json.dumps(e, separators=(",", ":"))


def read_cmds(path, typ="osm", enc="pbf", kind="all", stop=0, keeps=""):
    return [B({"e": "read"}), "\t".join(["R", path, typ, enc, kind, str(stop) if stop else "", keeps])]


def scenario(path, objs, typ="osm", enc="pbf", kind="all", stop=0, keeps="", given=True, **kw):
    """Lines for reading an existing file that holds objs."""
    r = [B(begin(objs, kind=kind, stop=stop, multi=typ != "osm", file=os.path.basename(path), **kw))]
    r += [B({"e": "in", "o": o}) for o in objs]
    return r + read_cmds(path, typ, enc, kind, stop, keeps)


def pbf_bytes(objs, rnd, hist=False, blocks=True, comp=None, P=None, header=None):
    """A PBF file with these objects in this order, randomly split into blocks and groups."""
    bl, cur = [], []
    for o in objs:
        kinds = ["d", "n"] if o["t"] == "n" else [o["t"]]
        if cur and cur[-1][0] in kinds and rnd.random() < .7:
            cur[-1][1] += 1
        else:
            cur.append([rnd.choice(kinds), 1])
        if blocks and rnd.random() < .25:
            bl.append(cur)
            cur = []
    if cur:
        bl.append(cur)
    if blocks and rnd.random() < .2:
        bl.insert(rnd.randrange(len(bl) + 1), [])
    return pbf.simple_file(objs, P=P, blocks=bl, hist=hist, comp=rnd.random() < .7 if comp is None else comp, rnd=rnd, header=header)


def put(c, name, data):
    path = os.path.join(c.tmp, name)
    with open(path, "wb") as f:
        f.write(data)
    return path


def objs_for(types, rnd, **kw):
    return [osm.robj(rnd, t, **kw) for t in types]


def chunks(xs, n):
    k = max(1, (len(xs) + n - 1) // n)
    return [xs[i:i + k] for i in range(0, len(xs), k)]


def run_scenarios(c, binary, scen, jobs=8, timeout=300):
    """scen: list of line lists. Runs them in parallel and returns all events in order. A crash or
    hang ends one process: the events of the scenarios after it in that process are lost, and
    the crash event makes the trace unacceptable, so nothing is hidden."""
    scripts = ["\n".join("\n".join(x) for x in ch) + "\n" for ch in chunks(scen, jobs)]
    if os.path.basename(binary).startswith("h_io"):          # the system may hand over input in small pieces
        scripts = ["short\t%d\n" % (0, 3, 0, 1, 50, 0, 5000, 2)[i % 8] + s for i, s in enumerate(scripts)]
    evs = []
    for r in c.harness_all(binary, scripts, timeout=timeout, jobs=jobs):
        evs += r
    return evs
