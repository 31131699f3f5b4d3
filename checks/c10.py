"""C10: a write that fails is reported, or the file is complete."""
import bz2, gzip, os, zlib
import osm, readlib as rl


def content(path, enc):
    try:
        d = open(path, "rb").read()
        return gzip.decompress(d) if enc == "xmlgz" else bz2.decompress(d) if enc == "xmlbz2" else d
    except (OSError, EOFError, ValueError, zlib.error):
        return None


def check(c):
    h = c.build("h_write.cpp")
    for piped in ("FALSE", "TRUE"):
        c.model("WriteFault", consts={"Piped": piped, "N": c.pick(5, 7)}, coverage=False)
    for f, p in (("ignore", "FALSE"), ("ignorefinal", "FALSE"), ("noloop", "FALSE"), ("noloop", "TRUE"), ("nostatus", "TRUE")):
        c.model_must_fail("WriteFault", consts={"Fault": '{"%s"}' % f, "Piped": p})
    r = c.rnd
    small = [osm.robj(r, strs=["a", "b", "name", "x y", "highway"]) for _ in range(12)]
    mid = [osm.robj(r, strs=["a", "b", "name", "x y", "highway"]) for _ in range(200)]
    big = [osm.obj("n", i, uid=1, user="u", x=i, y=i) for i in range(1, 8300)]
    sets = {"small": small, "mid": mid, "big": big}
    big_enc = "pbf"

    def script(path, objs, typ, enc, fault, at, **kw):
        b = {"e": "begin", "path": os.path.basename(path), "enc": enc, "fault": fault, "at": at}
        b.update(kw)
        return [rl.B(b), "\t".join(["W", path, typ, enc, fault, str(at)])] + [osm.line(o) for o in objs] + ["F"]

    jobs = []   # (script lines, enc, set, typ, path, expect, mode)
    n = 0

    def add(s, typ, enc, fault, at, expect, path=None, mode=""):
        nonlocal n
        n += 1
        path = path or os.path.join(c.tmp, "o%d" % n)
        jobs.append((script(path, sets[s], typ, enc, fault, at, set=s, ft=typ, mode=mode, direct=True), enc, s, typ, path, expect, mode))

    combos = [("small", "osm", "pbf"), ("big", "history", "pbf"), ("mid", "pbf"), ("mid", "osm", "xml"), ("mid", "change", "xml"), ("small", "history", "xml"), ("mid", "osm", "xmlgz"), ("mid", "history", "xmlbz2"), ("small", "osm", "xmlgz")]
    combos = [k if len(k) == 3 else (k[0], "change", k[1]) for k in combos]
    for s, typ, enc in combos:
        add(s, typ, enc, "none", 0, "ok")
        for f in ("short1", "half", "small"):
            if f == "short1" and s == "big":
                continue
            add(s, typ, enc, f, 0, "ok")
        for k in range(1, 16 if s != "small" else 8):
            kinds = ["eio1", "enospc1", "eio", "enospc", "eintr1", "short1", "half", "one", "shorteio"]
            if s == "big" and not c.thorough:
                kinds = ["eio1", "one", "shorteio"] if k < 10 else []
            elif not c.thorough:
                kinds = r.sample(kinds, 5)
            for f in kinds:
                add(s, typ, enc, f, k, "ok" if f in ("short1", "half", "one") else "any")
    for s, typ, enc in combos:
        add(s, typ, enc, "none", 0, "fail", path="/dev/full")
        add(s, typ, enc, "none", 0, "fail", path=os.path.join(c.tmp, "no", "such", "dir"))
        add(s, typ, enc, "none", 0, "fail", path=c.tmp)

    bindir, nobin = os.path.join(c.tmp, "bin"), os.path.join(c.tmp, "nobin")
    for d in (bindir, nobin):
        os.mkdir(d)
    modes = {"now1": ("exit 1", "fail"), "now0gz": ("exec $REAL", "ok"), "readall1": ("cat >/dev/null; exit 1", "fail"), "good3": ("$REAL; exit 3", "fail"),
             "some1": ("head -c 100 >/dev/null; exit 1", "fail"), "kill": ("kill -9 $$", "fail"), "goodkill": ("$REAL; kill -9 $$", "fail"),
             "late1": ("$REAL; exec >&- <&-; sleep 0.2; exit 1", "fail"), "slow": ("sleep 0.2; exec $REAL", "ok"), "slowkill": ("head -c 5000 | $REAL; sleep 0.1; kill -TERM $$", "fail"),
             "255": ("$REAL; exit 255", "fail")}
    for prog in ("gzip", "bzip2"):
        with open(os.path.join(bindir, prog), "w") as f:
            f.write("#!/bin/sh\nREAL=/usr/bin/%s\n[ -x $REAL ] || REAL=/bin/%s\neval \"$VF_MODE\"\n" % (prog, prog))
        os.chmod(os.path.join(bindir, prog), 0o755)
    for m, (_, expect) in modes.items():
        for s, typ, enc in (("small", "osm", "xmlgz"), ("mid", "change", "xmlgz"), ("mid", "osm", "xmlbz2")):
            add(s, typ, enc, "none", 0, expect, mode=m)
    for s, typ, enc in (("small", "osm", "xmlgz"), ("mid", "osm", "xmlgz"), ("mid", "osm", "xmlbz2")):
        add(s, typ, enc, "none", 0, "fail", mode="missing")

    def run():
        groups = {}
        for j in jobs:
            groups.setdefault(j[6], []).append(j)
        evs = []
        for m, js in groups.items():
            env = {}
            if m == "missing":
                env = {"PATH": nobin}
            elif m:
                env = {"PATH": bindir + ":" + os.environ["PATH"], "VF_MODE": modes[m][0]}
            scripts = ["\n".join("\n".join(j[0]) for j in ch) + "\n" for ch in rl.chunks(js, 8)]
            for ch, ev in zip(rl.chunks(js, 8), c.harness_all(h, scripts, env=env)):
                k = -1
                for e in ev:
                    if e["e"] == "begin":
                        k += 1
                    evs.append((ch[k], e))
        # the complete content of each kind of file is what the undisturbed run wrote
        ref = {}
        for j, e in evs:
            if e["e"] == "begin" and e["fault"] == "none" and j[5] == "ok" and j[6] == "":
                ref[(j[1].replace("gz", "").replace("bz2", ""), j[2], j[3])] = content(j[4], j[1])
        out, pos = [], 0
        for j, e in evs:
            key = (j[1].replace("gz", "").replace("bz2", ""), j[2], j[3])
            want = ref.get(key)
            if want is None:   # the undisturbed run itself failed
                out.append({"e": "no_reference"})
                return out
            if e["e"] == "begin":
                e.update(total=len(want), expect=j[5])
                pos = 0
            elif e["e"] == "wr":
                e["match"] = zlib.crc32(want[pos:pos + e["n"]]) == e["crc"] and pos + e["n"] <= len(want)
                pos += max(0, e["ret"])
            elif e["e"] == "content":
                e["same"] = os.path.isfile(j[4]) and content(j[4], j[1]) == want
            out.append(e)
        return out
    # XML written under a mode needs a reference of the same set and type
    need = {(j[1].replace("gz", "").replace("bz2", ""), j[2], j[3]) for j in jobs}
    have = {(j[1].replace("gz", "").replace("bz2", ""), j[2], j[3]) for j in jobs if j[5] == "ok" and j[6] == "" and j[0][1].split("\t")[4] == "none"}
    for enc, s, typ in need - have:
        add(s, typ, enc, "none", 0, "ok")
    ev = run()
    c.validate("WriteTrace", ev, what="writing under faults", recheck=run)
    c.cov["write_calls"] = sum(1 for e in ev if e["e"] == "wr")
    c.cov["failing_write_calls"] = sum(1 for e in ev if e["e"] == "wr" and e["ret"] < 0)
    c.cov["reported"] = sum(1 for e in ev if e["e"] == "wfinal" and not e["ok"])
    i = next(k for k, e in enumerate(ev) if e["e"] == "wr" and e["ret"] < 0 and not e["soft"])
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    b = next(k for k in range(i, len(ev)) if ev[k]["e"] == "begin")
    c.sample(ev[a:b])

    def quiet(t):
        t = [e for e in t if e["e"] != "wthrow"]
        next(e for e in t if e["e"] == "wfinal")["ok"] = True
        return t
    c.control("WriteTrace", ev[a:b], quiet)
    i = next(k for k, e in enumerate(ev) if e["e"] == "wr" and 0 < e["ret"] < e["n"])
    a = max(k for k in range(i) if ev[k]["e"] == "begin")
    b = next(k for k in range(i, len(ev)) if ev[k]["e"] == "begin")

    def lost(t):
        k = next(k for k, e in enumerate(t) if e["e"] == "wr" and e["ret"] < e["n"])
        t.pop(k + 1)
    c.control("WriteTrace", ev[a:b], lost)
    c.assumptions += ["faults are injected at write(); errors first reported by close() are not modelled",
                      "the content of an undisturbed run is complete (checked by C04, C05, C07)"]
