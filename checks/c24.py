"""C24: tag filters decide by the first matching rule."""
import osm, taglib as tl, readlib as rl
KEYS = ["", "a", "aa", "b", "ab", "name", "name:de", "highway", "a.c", "abc", "\u00e4", "Name", "x" * 40]
VALS = ["", "a", "b", "yes", "no", "primary", "primary_link", "a b", "\u00e4", "ab", "aab"]
SPECIAL = set(b".[]{}()\\*+?|^$")


def lit(ch):
    return {"k": "lit", "c": ch}


def cat(xs):
    if not xs:
        return {"k": "eps"}
    r = xs[-1]
    for x in reversed(xs[:-1]):
        r = {"k": "cat", "a": x, "b": r}
    return r


def word(s):
    return cat([lit(x) for x in tl.by(s)])


def regex(r, pool, d=2):
    q = r.random()
    if d == 0 or q < .3:
        return word(r.choice(pool)) if r.random() < .5 else cat([atom(r) for _ in range(r.choice([1, 1, 2, 3]))])
    if q < .45:
        return {"k": "alt", "a": regex(r, pool, d - 1), "b": regex(r, pool, d - 1)}
    if q < .65:
        return {"k": "cat", "a": regex(r, pool, d - 1), "b": regex(r, pool, d - 1)}
    return {"k": r.choice(["star", "plus", "opt"]), "a": regex(r, pool, d - 1) if r.random() < .3 else atom(r)}


def atom(r):
    q = r.random()
    if q < .2:
        return {"k": "any"}
    if q < .4:
        return {"k": r.choice(["set", "nset"]), "cs": [ord(x) for x in r.choice(["ab", "abc", "ney", "_", "xyz"])]}
    return lit(ord(r.choice("abnamey_")))


def render(x):
    k = x["k"]
    if k == "lit":
        return (b"\\" if x["c"] in SPECIAL else b"") + bytes([x["c"]])
    if k == "any":
        return b"."
    if k in ("set", "nset"):
        return (b"[^" if k == "nset" else b"[") + bytes(x["cs"]) + b"]"
    if k == "cat":
        return b"".join(b"(" + render(y) + b")" if y["k"] == "alt" else render(y) for y in (x["a"], x["b"]))
    if k == "alt":
        return b"(" + render(x["a"]) + b")|(" + render(x["b"]) + b")"
    if k == "eps":
        return b"()"
    return b"(" + render(x["a"]) + b")" + {"star": b"*", "plus": b"+", "opt": b"?"}[k]


def check(c):
    h = c.build("h_filter.cpp")
    c.model("Filter", consts={"MaxRules": c.pick(2, 3), "MaxTags": 2}, timeout=1800)
    for f in ("keyonly", "last", "yesonly", "deny"):
        c.model_must_fail("Filter", consts={"Fault": '{"%s"}' % f, "MaxRules": 2, "MaxTags": 1})
    r = c.rnd
    lines = []
    for n in range(c.pick(9000, 120000)):
        kind = ["key", "kv", "regex"][n % 3]
        keys, vals = r.choice([(KEYS, VALS), (KEYS[:3], VALS[:3]), (["a", "b"], ["", "a", "b"])])
        tags = [(r.choice(keys), r.choice(vals)) for _ in range(r.choice([0, 1, 2, 3, 5, 9]))]
        default = r.random() < .5
        rules, ev = [], []
        for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8])):
            res = r.random() < .5
            if kind == "regex":
                k = regex(r, keys)
                q = r.random()
                v = regex(r, vals)
                vb = render(v)
                if vb in (b"", b"()"):
                    q = 0
                kb = render(k)
                val = "-" if q < .3 else "~" if q < .4 else "=" + vb.decode("utf-8", "surrogateescape")
                rules.append("%d,%s,%s" % (res, tl.esc(kb), val if q < .4 else "=" + tl.esc(vb)))
                ev.append({"res": res, "key": k, "hasval": q >= .4, "val": v})
            else:
                k, v, q = r.choice(keys), r.choice(vals), r.random()
                val = "-" if q < .3 else "~" if q < .4 else "=" + tl.esc(v)
                rules.append("%d,%s" % (res, tl.esc(k)) + ("," + val if kind == "kv" else ""))
                ev.append({"res": res, "key": tl.by(k), "val": tl.by(v) if q >= .4 else []})
        lines.append([tl.line(kind, default, ";".join(rules), tags, {"e": "filter", "kind": kind, "default": default, "rules": ev, "tags": tl.tagjson(tags)})])
    run = lambda: rl.run_scenarios(c, h, lines)
    ev = run()
    c.validate("FilterTrace", ev, what="tag filter", recheck=run, traces=len(ev))
    c.cov["answers"] = sum(len(e["res"]) for e in ev)
    e = next(e for e in ev if e["kind"] == "regex" and e["iter"] and len(e["rules"]) > 1)
    c.sample(e)
    c.control("FilterTrace", [e], lambda t: t[0]["res"].__setitem__(0, not t[0]["res"][0]))
    c.control("FilterTrace", [e], lambda t: t[0]["iter"].pop() and None)
    c.control("FilterTrace", [e], lambda t: t[0]["acc"].append(1))
    c.assumptions += ["an empty value in a rule stands for any value", "regular expressions built from literals, classes, dot, alternatives and repetition"]
