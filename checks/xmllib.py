"""Cases and recording for the XML round trips (C05, C06)."""
import bz2, gzip, os
import osm, readlib as rl, writelib as wl
from vf import pct, unpct

GEN = "Osmium%20(http://wiki.openstreetmap.org/wiki/Osmium)"
TEXTS = [s for s in osm.STRS if "\x7f" != s] + ["\x7f", "\u0085", "\u2028", "\ufffd", "\U0010FFFD", "<![CDATA[x]]>", "&#10;", "a\r\nb", "\t", "\n", " ", "--", "<?x?>", "\u00e9" * 255, "%s%d%n", "{}", "\u200b"]


def opts(r):
    o, f = {}, {"gen": GEN, "bounds": []}
    if r.random() < .5:
        o["gen"] = r.choice(["x", "my%20gen", "%C3%A4%26%22%3C", "", "a%0Ab"])
        f["gen"] = pct(unpct(o["gen"]))
    if r.random() < .4:
        xs = sorted(r.choice(osm.COORDS + [17, -123456789]) for _ in range(2))
        ys = sorted(r.choice(osm.COORDS[:12] + [17, -123456789]) for _ in range(2))
        if r.random() < .25:             # a line, or a single point
            xs[1] = xs[0]
            ys[1] = r.choice(ys)
            ys.sort()
        f["bounds"] = [xs[0], ys[0], xs[1], ys[1]]
        o["bounds"] = ",".join(map(str, f["bounds"]))
    return o, f


def record(c, h, cases, decode=True, read=True):
    """cases: (objs, typ, enc, opts, fields). Returns (read trace, file trace)."""
    scripts, paths = [], []
    for k, (objs, typ, enc, o, f) in enumerate(cases):
        path = os.path.join(c.tmp, "x%d.%s" % (k, enc))
        b = rl.begin(objs, how="xmlvis" if typ != "osm" else "xml", mode="file", multi=typ != "osm", typ=typ, enc=enc, gen=f["gen"], bounds=f["bounds"])
        scripts.append([rl.B(b)] + wl.write_cmds(path, objs, typ, enc, o) + rl.read_cmds(path, typ, enc, c.rnd.choice(["all", "mut"])))
        paths.append(path)
    rd = rl.run_scenarios(c, h, scripts)
    fl, k = [], -1

    def close(k):
        if k >= 0 and os.path.exists(paths[k]):
            enc, typ = cases[k][2], cases[k][1]
            try:
                d = open(paths[k], "rb").read()
                d = gzip.decompress(d) if enc == "xmlgz" else bz2.decompress(d) if enc == "xmlbz2" else d
                fl.extend(osm.xml_events(d, typ))
            except (OSError, EOFError, ValueError) as e:
                fl.append({"e": "malformed", "why": repr(e)})
            os.unlink(paths[k])
    for e in rd:
        if e["e"] == "begin":
            close(k)
            k += 1
        if e["e"] in ("begin", "write", "wfinal", "wthrow"):
            fl.append(e)
    close(k)
    return rd, fl
