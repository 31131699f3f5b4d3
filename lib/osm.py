"""Abstract OSM objects on the Python side: construction, random generation, script lines, an
independent XML writer and the XML text -> item projection."""
import xml.etree.ElementTree as ET
from vf import pct, unpct
UNDEF = 2147483647


def obj(t, id, v=1, ts=1300000000, cs=1, uid=1, user="u", vis=True, tags=(), x=UNDEF, y=UNDEF, nodes=(), mem=()):
    if t != "n":
        x = y = UNDEF
    return {"t": t, "id": str(id), "v": str(v), "ts": str(ts), "cs": str(cs), "uid": uid, "user": pct(user), "vis": vis,
            "tags": [[pct(k), pct(w)] for k, w in tags], "x": x, "y": y, "nodes": [str(n) for n in nodes],
            "mem": [[a, str(b), pct(c)] for a, b, c in mem]}


def _esc(s):  # on top of pct: separators of the script syntax
    return s.replace("=", "%3D").replace(";", "%3B").replace(",", "%2C").replace(":", "%3A")


def line(o):
    tags = ";".join("%s=%s" % (_esc(k), _esc(v)) for k, v in o["tags"])
    r = [o["t"], o["id"], o["v"], o["ts"], o["cs"], str(o["uid"]), o["user"], "1" if o["vis"] else "0", tags]
    if o["t"] == "n":
        r += [str(o["x"]), str(o["y"])]
    elif o["t"] == "w":
        r += [",".join(o["nodes"])]
    else:
        r += [",".join("%s:%s:%s" % (a, b, _esc(c)) for a, b, c in o["mem"])]
    return "\t".join(r)


# ------------------------------------------------------------------ random objects
IDS = [0, 1, 2, 3, 7, 17, -1, -2, -17, 100, 8000, 2**31 - 1, 2**31, 2**32, 2**32 + 1, -2**31, -2**32, 2**40 + 3, -2**40, 2**53 + 1, 2**62, -2**62, 2**63 - 1, -2**63 + 1]
STRS = ["", "a", "b", "name", "highway", "x y", "\u00e4\u00f6\u00fc", "\u6f22\u5b57", "\U0001F600", "<&>\"'", "a=b", "100%", "a;b,c:d", "key", "'", "\\", "]]>", "&amp;",
        "  lead", "trail ", "a" * 300, "\u0434\u043e\u043c", "tab\there", "line\nbreak", "cr\rx", "\x7f"]
TSS = [0, 1, 2, 999, 1000, 86399, 86400, 1300000000, 1347000000, 2**31 - 1, 951782400, 2**31, 2**32, 2**32 + 12345, 4107542400, 253402300799]
CSS = [0, 1, 2, 12345678, 2**31 - 1, -1, -77, -2**31 + 1]
UIDS = [-1, 0, 1, 2, 500, 2**31 - 1]
COORDS = [0, 1, -1, 10, 99, -99, 1234567, 10000000, -10000000, 899999999, 900000000, -900000000, 1799999999, 1800000000, -1800000000, 300000000, 5, 7]


def rstr(r, pool=STRS, wild=0.15):
    if r.random() < wild:
        return "".join(chr(r.choice([r.randrange(0x20, 0x7F), r.randrange(0xA1, 0x17F), r.randrange(0x4E00, 0x4E40)])) for _ in range(r.randrange(0, 12)))
    return r.choice(pool)


def rid(r):
    return r.choice(IDS) if r.random() < .5 else r.randrange(-50, 5000)


def robj(r, t=None, hist=False, undef=True, strs=STRS, maxn=6, uids=UIDS):
    t = t or r.choice("nwr")
    kw = dict(v=r.choice([0, 1, 2, 3, 99, 2**31 - 1]), ts=r.choice(TSS) if r.random() < .6 else r.randrange(10**9, 2 * 10**9),
              cs=r.choice(CSS), uid=r.choice(uids), user=rstr(r, strs), vis=r.random() < .6 if hist else True,
              tags=[(rstr(r, strs), rstr(r, strs)) for _ in range(r.choice([0, 0, 1, 1, 2, 3, maxn]))])
    if t == "n":
        if undef and r.random() < .1:
            pass
        else:
            kw["x"] = r.choice(COORDS) if r.random() < .5 else r.randrange(-1800000000, 1800000001)
            kw["y"] = r.choice(COORDS[:12]) if r.random() < .5 else r.randrange(-900000000, 900000001)
    elif t == "w":
        kw["nodes"] = [rid(r) for _ in range(r.choice([0, 1, 2, 3, maxn, 3 * maxn]))]
        if kw["nodes"] and r.random() < .3:
            kw["nodes"].append(kw["nodes"][0])
    else:
        kw["mem"] = [(r.choice("nwr"), rid(r), rstr(r, strs)) for _ in range(r.choice([0, 1, 2, 3, maxn]))]
    return obj(t, rid(r), **kw)


# ------------------------------------------------------------------ independent XML writer
def xesc(s):
    out = []
    for ch in s:
        o = ord(ch)
        if ch == "&":
            out.append("&amp;")
        elif ch == "<":
            out.append("&lt;")
        elif ch == '"':
            out.append("&quot;")
        elif o < 32:
            out.append("&#%d;" % o)
        else:
            out.append(ch)
    return "".join(out)


def iso(ts):
    import datetime
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(ts))).strftime("%Y-%m-%dT%H:%M:%SZ") if False else _iso(int(ts))


def _iso(ts):
    d, s = divmod(ts, 86400)
    y = 1970
    while True:
        n = 366 if (y % 4 == 0 and y % 100) or y % 400 == 0 else 365
        if d < n:
            break
        d -= n
        y += 1
    ml = [31, 29 if n == 366 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    m = 0
    while d >= ml[m]:
        d -= ml[m]
        m += 1
    return "%04d-%02d-%02dT%02d:%02d:%02dZ" % (y, m + 1, d + 1, s // 3600, s // 60 % 60, s % 60)


def deg(x):
    s = "-" if x < 0 else ""
    a = abs(x)
    return "%s%d.%07d" % (s, a // 10000000, a % 10000000)


TN = {"n": "node", "w": "way", "r": "relation"}


def u8(p):
    return unpct(p).decode("utf-8")


def xml_obj(o, visattr=False, rnd=None):
    at = [("id", o["id"])]
    if o["v"] != "0":
        at.append(("version", o["v"]))
    if o["ts"] != "0":
        at.append(("timestamp", _iso(int(o["ts"]))))
    if o["uid"] > 0:
        at.append(("uid", str(o["uid"])))
        at.append(("user", xesc(u8(o["user"]))))
    if o["cs"] != "0":
        at.append(("changeset", o["cs"]))
    if visattr:
        at.append(("visible", "true" if o["vis"] else "false"))
    if o["t"] == "n" and o["x"] != UNDEF:
        at += [("lat", deg(o["y"])), ("lon", deg(o["x"]))]
    if rnd and rnd.random() < .5:
        rnd.shuffle(at)
    q = '"'
    s = "<%s %s" % (TN[o["t"]], " ".join('%s=%s%s%s' % (k, q, v, q) for k, v in at))
    ch = []
    for n in o["nodes"]:
        ch.append('<nd ref="%s"/>' % n)
    for a, b, c in o["mem"]:
        ch.append('<member type="%s" ref="%s" role="%s"/>' % (TN[a], b, xesc(u8(c))))
    tg = ['<tag k="%s" v="%s"/>' % (xesc(u8(k)), xesc(u8(v))) for k, v in o["tags"]]
    ch = ch + tg
    if rnd and rnd.random() < .3:
        ch = tg + ch[:len(ch) - len(tg)]
    if not ch:
        return s + ("/>" if not rnd or rnd.random() < .7 else "></%s>" % TN[o["t"]]) + "\n"
    return s + ">\n" + "".join("  " + c + "\n" for c in ch) + "</%s>\n" % TN[o["t"]]


def xml_file(objs, typ="osm", gen=None, bounds=None, visattr=None, rnd=None, sections=None):
    """typ osm|history|change. For change files: sections [(op, n)] consume objs in order."""
    if visattr is None:
        visattr = typ == "history"
    root = "osmChange" if typ == "change" else "osm"
    s = '<?xml version="1.0" encoding="UTF-8"?>\n<%s version="0.6"%s>\n' % (root, "" if gen is None else ' generator="%s"' % xesc(gen))
    if bounds:
        s += '<bounds minlon="%s" minlat="%s" maxlon="%s" maxlat="%s"/>\n' % tuple(deg(b) for b in bounds)
    if sections is None:
        for o in objs:
            s += xml_obj(o, visattr, rnd)
    else:
        i = 0
        for op, n in sections:
            s += "<%s>\n" % op if op else ""
            for o in objs[i:i + n]:
                s += xml_obj(o, visattr, rnd)
            i += n
            s += "</%s>\n" % op if op else ""
    return (s + "</%s>\n" % root).encode("utf-8")


def norm_xml(o, typ="osm"):
    """What an object looks like after a trip through XML (uid <= 0 means anonymous)."""
    o = dict(o)
    if o["uid"] <= 0:
        o["uid"], o["user"] = -1, ""
    if typ == "osm":
        o["vis"] = True
    return o


# ------------------------------------------------------------------ independent XML -> events
def _fix(s):  # exact decimal degrees -> 10^-7 units
    import decimal
    d = decimal.Decimal(s) * 10000000
    if d != d.to_integral_value():
        raise ValueError("more than 7 decimals: " + s)
    return int(d)


def _secs(s):
    import datetime
    d = datetime.datetime.strptime(s, "%Y-%m-%dT%H:%M:%SZ") - datetime.datetime(1970, 1, 1)
    return d.days * 86400 + d.seconds


def xml_events(data, typ):
    """Events of XmlFileTrace for the bytes of an XML file, by expat via Python."""
    import xml.parsers.expat as X
    ev, st, cur = [], [], [None]
    names = {"node": "n", "way": "w", "relation": "r"}

    def start(name, a):
        d = len(st)
        if d == 0:
            ev.append({"e": "root", "name": name, "version": a.get("version", ""), "gen": pct(a.get("generator", ""))})
        elif cur[0] is None and name == "bounds":
            ev.append({"e": "bounds", "b": [_fix(a[k]) for k in ("minlon", "minlat", "maxlon", "maxlat")]})
        elif cur[0] is None and name in names:
            vis = a.get("visible", "none") != "false" if typ == "history" and "visible" in a else True
            if typ == "history" and "visible" not in a:
                vis = "missing"
            if typ == "change":
                vis = "delete" not in st
            if ("lat" in a) != ("lon" in a):
                raise ValueError("half a position")
            o = obj(names[name], int(a["id"]), int(a.get("version", 0)), _secs(a["timestamp"]) if "timestamp" in a else 0,
                    int(a.get("changeset", 0)), int(a.get("uid", -1)), a.get("user", ""), vis)
            if "lat" in a:
                o["x"], o["y"] = _fix(a["lon"]), _fix(a["lat"])
            cur[0] = o
        elif cur[0] is not None and name == "tag":
            cur[0]["tags"].append([pct(a["k"]), pct(a["v"])])
        elif cur[0] is not None and name == "nd" and cur[0]["t"] == "w":
            cur[0]["nodes"].append(str(int(a["ref"])))
        elif cur[0] is not None and name == "member" and cur[0]["t"] == "r":
            cur[0]["mem"].append([names[a["type"]], str(int(a["ref"])), pct(a["role"])])
        elif cur[0] is None:
            ev.append({"e": "sec", "op": name})
        else:
            raise ValueError("element " + name)
        st.append(name)

    def end(name):
        st.pop()
        if cur[0] is not None and name in names:
            ev.append({"e": "xobj", "o": cur[0]})
            cur[0] = None
        elif not st:
            ev.append({"e": "rootend"})
        elif cur[0] is None and name != "bounds":
            ev.append({"e": "secend"})
    p = X.ParserCreate()
    p.StartElementHandler = start
    p.EndElementHandler = end
    try:
        p.Parse(data, True)
    except (X.ExpatError, ValueError, KeyError) as e:
        ev.append({"e": "malformed", "why": repr(e)[:200]})
    return ev
