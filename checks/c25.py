"""C25: tags written as text can be read back unambiguously."""
import osm, taglib as tl, readlib as rl
STR = ["", "a", "name", '"', "\\", '\\"', "=>", '"=>"', ",", '","', "\\\\", "a\\", "x y", "\u00e4\u6f22", "\n", "'", "NULL", "a=b", "k\\\"", "%", "\t"]


def text(r):
    if r.random() < .6:
        return r.choice(STR)
    if r.random() < .5:
        return "".join(r.choice('ab"\\,=> ') for _ in range(r.randrange(0, 9)))
    return bytes(r.randrange(1, 256) for _ in range(r.randrange(0, 12)))


def check(c):
    h = c.build("h_filter.cpp")
    c.model("TagText", consts={"MaxTags": 1, "Chars": "{34, 92, 44, 61, 97}"}, timeout=1800)
    c.model("TagText", consts={"MaxTags": 2, "MaxLen": c.pick(1, 2), "Chars": c.pick("{34, 92, 44, 61}", "{34, 92, 44}")}, timeout=1800)
    for f in ("nobs", "keyonly", "nojoin"):
        c.model_must_fail("TagText", consts={"Fault": '{"%s"}' % f, "MaxTags": 2, "MaxLen": 1})
    r = c.rnd
    lines = []
    for n in range(c.pick(6000, 80000)):
        tags = [(text(r), text(r)) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
        j = tl.tagjson(tags)
        kind = ["hstore", "op", "keq", "hstore", "op"][n % 5]
        if kind == "hstore":
            lines.append([tl.line(kind, 0, "", tags, {"e": "hstore", "tags": j})])
            continue
        if kind == "keq":
            par = ["", "", "=", "", r.choice([",", "", ";", "\n", " and "])]
            rules = tl.esc(par[4])
        else:
            par = [r.choice(["", '"', "\\", '\\"', "=,", "a", "\u00e4", "'"]), r.choice(["", "<", '"', "ab"]), r.choice(["=", "=>", '"=>"', ": "]),
                   r.choice(["", ">", '"', ";"]), r.choice(["", ",", ", ", "\n"])]
            rules = ",".join(tl.esc(p) for p in par)
        e = {"e": "text", "tags": j}
        e.update({k: tl.by(v) for k, v in zip(("esc", "pre", "inf", "suf", "join"), par)})
        lines.append([tl.line(kind, 0, rules, tags, e)])
    run = lambda: rl.run_scenarios(c, h, lines)
    ev = run()
    c.validate("TagTextTrace", ev, what="tags as text", recheck=run, traces=len(ev))
    e = next(e for e in ev if e["e"] == "hstore" and 92 in e["out"] and len(e["tags"]) > 1)
    c.sample(e)
    c.control("TagTextTrace", [e], lambda t: t[0]["out"].remove(92))
    c.control("TagTextTrace", [e], lambda t: t[0]["out"].pop() and None)
    t = next(e for e in ev if e["e"] == "text" and len(e["tags"]) > 1 and e["join"])
    c.control("TagTextTrace", [t], lambda x: x[0]["out"].extend(x[0]["join"]))
    c.assumptions += ["no NUL bytes in keys and values", "infix text is not empty, so that no tag is written as nothing"]
