"""C28: objects are independent values with validated attributes."""
import json
import osm, readlib as rl
from vf import pct
ISO = [("1970-01-01T00:00:01Z", 1), ("2012-02-29T23:59:59Z", 1330559999), ("2038-01-19T03:14:08Z", 2147483648), ("2011-03-04T05:06:07Z", 1299215167)]
KEYS = ["k", "name", "", "k ", "\u00e4", "K", "kk"] + ["x" * n + e for n in (15, 31, 63, 64, 127, 254) for e in "12"]
VALS = ["", "v", "v" * 64 + "1", "v" * 64 + "2", "yes", "\u6f22", "a=b", "v" * 300]
NUM = {"id": [0, 1, -1, 2**31, -2**31 - 1, 2**63 - 1, -2**63, 17], "version": [0, 1, 7, 2**31, 2**32 - 1], "changeset": [0, 1, 2**31 - 1, -1],
       "timestamp": [0, 1, 2**31, 1330559999], "endtime": [0, 1, 2**33, 1330559999], "uid": [-1, 0, 1, 2**31 - 1, 5]}


def deg(e7, d):      # decimal text of e7 units of 10^-7 degrees and one more digit
    return "%s%d.%07d%d" % ("-" if e7 < 0 else "", abs(e7) // 10**7, abs(e7) % 10**7, d)


class Gen:
    def __init__(self, r, n):
        self.r, self.lines = r, ["B\t" + json.dumps({"e": "begin", "n": n})]
        self.k = {}                       # slot -> type
        self.len = {}                     # slot -> [tags, nodes, members]

    def op(self, op, s, args, e="op", **kw):
        ev = {"e": e, "op": op, "s": s}
        ev.update(kw)
        j = json.dumps(ev, separators=(",", ":"))[:-1]
        self.lines.append("\t".join([j, str(s)] + [str(a) for a in args]))

    def text(self, long):
        r = self.r
        if long:
            n = r.choice([1019, 1020, 1022, 1023, 2000, 1020, 1022])
            return r.choice([b"u", b"\xff"]) * n
        return r.choice(["", "a", "M\u00fcller", "x" * 255, "a b<", '"']).encode()

    def coord(self):
        r = self.r
        return r.choice([1, -1, 9, 1800000000, -1799999999, 123456789, -5]) if r.random() < .4 else r.randrange(-1799999999, 1799999999) or 1

    def step(self):
        r = self.r
        s = r.randrange(1, 5)
        have = sorted(self.k)
        if s not in self.k:
            if have and r.random() < .6:
                f = r.choice(have)
                self.op("copy", s, ["copy", f], **{"from": f})
                self.k[s], self.len[s] = self.k[f], list(self.len[f])
            else:
                t = r.choice("nwrnwrm")
                self.op("new", s, ["new", t, r.choice(["-", "0", "3"])], t=t)
                self.k[s], self.len[s] = t, [0, 0, 0]
            return
        t, ln = self.k[s], self.len[s]
        x = r.random()
        if x < .05:
            self.op("del", s, ["del"])
            del self.k[s]
        elif x < .2:
            f = r.choice([i for i in have if self.k[i] == t])
            how = "assign" if f == s or r.random() < .6 else "copy"
            self.op("copy", s, [how, f], **{"from": f})
            self.len[s] = list(self.len[f])
        elif t == "m":
            y = r.random()
            ty, ref, u = r.choice("nwrx"), r.choice([1, 2, -4, 2**63 - 1]), self.text(r.random() < .3)
            if y < .4:
                self.op("mem", s, ["mem", ty, ref, pct(u)], t=ty, r=str(ref), v=pct(u), n=len(u))
                ln[2] += len(u) < 1022
            elif y < .75 and ln[2]:
                i = r.randrange(ln[2])
                self.op("setmem", s, ["setmem", i, ty, ref, pct(u)], i=i, t=ty, r=str(ref), v=pct(u), n=len(u))
            elif y < .9:
                for f in [f for f in have if self.k[f] == "r"][:1]:
                    self.op("members", s, ["members", f], **{"from": f})
                    ln[2] = self.len[f][2]
            else:
                self.op("clearmem", s, ["clearmem"])
                ln[2] = 0
        elif x < .5:
            a = r.choice(["id", "version", "changeset", "timestamp", "endtime", "uid", "user", "user", "visible"])
            how = r.choice(["num", "text", "attr"])
            if a == "endtime":
                how = "num"
            if a == "user":
                how = r.choice(["text", "attr"])
                u = self.text(r.random() < .4)
                self.op(how, s, [how, a, pct(u)], a=a, v=pct(u), n=len(u))
            elif a == "visible":
                v = r.choice(["true", "false"]) if how == "num" else r.choice(["true", "false", "", "no", "false ", "False"])
                self.op(how, s, [how, a, pct(v) if how != "num" else v], a=a, v=v, n=0)
            elif how == "num":
                v = r.choice(NUM[a])
                self.op(how, s, [how, a, v], a=a, v=str(v))
            elif a == "timestamp":
                txt, v = r.choice(ISO)
                if r.random() < .2:
                    self.op("badtime", s, [how, a, pct(r.choice([txt + "x", txt[:-1], "", "yesterday", "2012-13-01T00:00:00Z"]))])
                else:
                    self.op(how, s, [how, a, pct(txt)], a=a, v=str(v), n=0)
            else:
                v = r.choice(NUM[a])
                d = ("-" if v < 0 else r.choice(["", "", "+"])) + r.choice(["", "", "00"]) + str(abs(v))
                self.op(how, s, [how, a, d], a=a, v=str(v), d=list(d), n=0)
        elif x < .53:
            a = r.choice(["endtime", "foo", "", "ID", "user_id", "lat"])
            self.op("attr", s, ["attr", a, "17"], a=a, v="17", n=2)
        elif x < .68:
            y = r.random()
            if y < .6:
                k, v = r.choice(KEYS), r.choice(VALS)
                self.op("tag", s, ["tag", pct(k), pct(v)], k=pct(k), v=pct(v))
                ln[0] += 1
            elif y < .7:
                self.op("cleartags", s, ["cleartags"])
                ln[0] = 0
            else:
                f = r.choice([f for f in have if self.k[f] != "m"])
                self.op("tags", s, ["tags", f], **{"from": f})
                ln[0] = self.len[f][0]
        elif x < .76:
            if r.random() < .5 or not ln[0]:
                k = pct(r.choice(KEYS))
                self.op("key", s, ["?", "key", k], e="ask", k=k)
            else:
                self.op("tageq", s, ["?", "tageq"], e="ask")
        elif t == "n":
            y = r.random()
            if y < .2:
                a, b = r.choice([self.coord(), 2147483647]), r.choice([self.coord(), 2147483647])
                self.op("pos", s, ["pos", a, b], x=a, y=b)
            elif y < .7:
                a, b, da, db = self.coord(), self.coord(), r.choice([0, 0, 1, 4, 6, 9]), r.choice([0, 0, 1, 4, 6, 9])
                w = r.choice(["posd", "lon", "lat"])
                self.op(w, s, [w] + {"posd": [deg(a, da), deg(b, db)], "lon": [deg(a, da)], "lat": [deg(b, db)]}[w], x=a, y=b, dx=da, dy=db)
            else:
                self.op("deg", s, ["?", "deg"], e="ask")
        elif t == "w":
            y = r.random()
            ref = r.choice([1, 2, 3, -4, 2**40, 2**63 - 1, -2**63])
            a, b = self.coord(), self.coord()
            if y < .45:
                how = r.choice(["node", "add", "push", "addp", "pushp"])
                if how in ("node", "add", "push"):
                    a = b = 2147483647
                self.op("ref", s, ["ref", how, ref, a, b], r=str(ref), x=a, y=b)
                ln[1] += 1
            elif y < .55 and ln[1]:
                i = r.randrange(ln[1])
                self.op("setref", s, ["setref", i, ref], r=str(ref), i=i)
            elif y < .65 and ln[1]:
                i = r.randrange(ln[1])
                self.op("setpos", s, ["setpos", i, a, b, r.choice("01")], i=i, x=a, y=b)
            elif y < .75:
                f = r.choice([i for i in have if self.k[i] == "w"])
                if ln[1] + self.len[f][1] < 12:
                    i = r.randrange(ln[1] + 1)
                    self.op("insert", s, ["insert", i, f], i=i, **{"from": f})
                    ln[1] += self.len[f][1]
            elif y < .78:
                self.op("clearrefs", s, ["clearrefs"])
                ln[1] = 0
            elif y < .9:
                self.op("back", s, ["?", "back"], e="ask")
            elif ln[1]:
                i = r.randrange(ln[1])
                self.op("ends", s, ["?", "ends", i], e="ask", i=i)
        else:
            if r.random() < .7:
                ty, ref, u = r.choice("nwrx"), r.choice([1, 2, -4, 2**63 - 1]), self.text(r.random() < .3)
                self.op("mem", s, ["mem", ty, ref, pct(u)], t=ty, r=str(ref), v=pct(u), n=len(u))
                ln[2] += len(u) < 1022
            else:
                i = r.choice([0, 0, ln[2], max(ln[2] - 1, 0), ln[2] + 1, 2147483647])
                self.op("mem", s, ["?", "mem", i], e="ask", i=i)


def check(c):
    h = c.build("h_obj.cpp")
    c.model("Objects", consts={"MaxAddr": c.pick(8, 10), "MaxLen": c.pick(1, 2)}, timeout=1800)
    for f in ("both", "front", "half", "shallow", "lost"):
        c.model_must_fail("Objects", consts={"Fault": '{"%s"}' % f, "MaxLen": 2})
    scen = []
    for n in range(c.pick(300, 5000)):
        g = Gen(c.rnd, n)
        for _ in range(c.rnd.choice([10, 25, 60])):
            g.step()
        scen.append(g.lines)
    run = lambda: rl.run_scenarios(c, h, scen)
    ev = run()
    c.validate("ObjectsTrace", ev, what="objects as values", recheck=run)
    for e in ev:
        if "op" in e:
            c.cov["actions"]["op." + e["e"] + "." + e["op"]] = c.cov["actions"].get("op." + e["e"] + "." + e["op"], 0) + 1
    c.cov["refused"] = sum(1 for e in ev if e.get("err") == "length")
    a = next(i for i, e in enumerate(ev) if e.get("err") == "length" and e["op"] != "setmem" and e["st"][e["s"] - 1]["t"] in "nwr")
    b = max(i for i in range(a) if ev[i]["e"] == "begin")
    c.sample(ev[a])
    tr = ev[b:a + 1]
    c.control("ObjectsTrace", tr, lambda t: t[-1].__setitem__("err", "none"))
    i = next(i for i, o in enumerate(tr[-1]["st"]) if o["t"] not in "-m")
    for k, v in (("id", "99"), ("user", "zz"), ("visible", "x"), ("tags", [["q", "q"]] * 40), ("endtime", "7")):
        c.control("ObjectsTrace", tr, lambda t: t[-1]["st"][i].__setitem__(k, v))
    c.assumptions += ["numeric texts are decimal numbers in the range of the attribute", "names of 1021 bytes (the documented limit counts the final NUL, the code does not) may be taken or refused"]
