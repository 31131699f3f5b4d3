"""Tag lists, rules and texts for the tag checks (C24, C25)."""
import json, osm
from vf import pct


def esc(s):   # separators of the script
    return pct(s).replace(",", "%2C").replace(";", "%3B").replace("-", "%2D").replace("~", "%7E")


def by(s):
    return list(s.encode("utf-8") if isinstance(s, str) else s)


def tagline(tags):
    return ";".join("%s,%s" % (esc(k), esc(v)) for k, v in tags)


def tagjson(tags):
    return [{"k": by(k), "v": by(v)} for k, v in tags]


def line(kind, default, rules, tags, ev):
    j = json.dumps(ev, separators=(",", ":"))
    return "\t".join([kind, "1" if default else "0", rules, tagline(tags), j[:-1]])
