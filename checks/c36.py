"""C36: distances on the sphere are those of the great circle."""
import readlib as rl
H, Q = 1800000000, 900000000
LON = [0, 1, -1, H, -H, Q, -Q, H - 1, 10**7, -10**9, 123456789]
LAT = [0, 1, -1, Q, -Q, Q - 1, 1 - Q, 450000000, -300000000, 10**7]


def check(c):
    h = c.build("h_dist.cpp")
    c.model("SphereModel", consts={"MaxLen": c.pick(3, 4)})
    c.model_must_fail("SphereModel", consts={"Fault": '{"raw"}'})
    r = c.rnd
    x = lambda: r.choice(LON) if r.random() < .3 else r.randrange(-H, H + 1)
    y = lambda: r.choice(LAT) if r.random() < .3 else r.randrange(-Q, Q + 1)
    clip = lambda v, m: max(-m, min(m, v))
    wrap = lambda v: (v + H) % (2 * H) - H

    def near(p):
        k = r.choice([1, 10, 1000, 10**5, 10**7])
        return clip(p[0] + r.randrange(-k, k + 1), H), clip(p[1] + r.randrange(-k, k + 1), Q)

    def other(a):
        """A partner for a that some rule of the specification speaks about, or any."""
        k = r.randrange(11)
        if k == 0:
            return a[0], y()
        if k == 1:
            return near(a)
        if k == 2:
            return x(), r.choice([Q, -Q])
        if k == 3:
            return wrap(a[0] + H), y()
        if k == 4:
            return wrap(a[0] + r.choice([Q, -Q])), 0
        if k == 5:
            return a
        if k == 6:                                             # almost opposite
            o = near((wrap(a[0] + H), -a[1]))
            return o
        if k == 7:
            return wrap(a[0] + H + r.randrange(-3, 4)), clip(-a[1] + r.randrange(-3, 4), Q)
        return x(), y()
    lines = []
    for _ in range(c.pick(20000, 200000)):
        a = (x(), y())
        if r.random() < .25:
            a = (a[0], 0)
            b = (x(), 0)
        else:
            b = other(a)
        if r.random() < .5:
            a, b = b, a
        m = r.randrange(-H, H + 1)
        lines.append("pair\t" + "\t".join(map(str, a + b + (wrap(a[0] + m), a[1], wrap(b[0] + m), b[1]))))
    for _ in range(c.pick(5000, 50000)):
        a = (x(), y())
        b, d = other(a), other(a)
        lines.append("tri\t" + "\t".join(map(str, a + b + d)))
    for _ in range(c.pick(3000, 30000)):
        w, p = [], (x(), y())
        for _ in range(r.choice([0, 1, 1, 2, 3, 5, 20])):
            w += p
            p = other(p)
        if len(w) > 2 and r.random() < .4:
            w += w[:2]
        lines.append("\t".join(["way"] + list(map(str, w))))
    scen = [[rl.B({"e": "begin"})] + lines[k:k + 100] for k in range(0, len(lines), 100)]
    run = lambda: rl.run_scenarios(c, h, scen)
    ev = run()
    c.validate("SphereTrace", ev, what="distances", recheck=run)
    c.cov["distances"] = len(ev)
    i = next(k for k, e in enumerate(ev) if e["e"] == "pair" and e["a"][1] == 0 and e["b"][1] == 0 and 1 < e["d"][1] < 18)
    c.sample(ev[i])
    c.control("SphereTrace", ev[i:i + 1], lambda t: t[0]["d"].__setitem__(3, (t[0]["d"][3] + 17) % 10000))
    c.control("SphereTrace", ev[i:i + 1], lambda t: t[0]["same"][2].__setitem__(3, (t[0]["same"][2][3] + 17) % 10000))
    j = next(k for k, e in enumerate(ev) if e["e"] == "way" and e["n"] > 2 and e["d"][2] > 0)
    c.control("SphereTrace", ev[j:j + 1], lambda t: t[0]["d"].__setitem__(3, (t[0]["d"][3] + 17) % 10000))
    c.assumptions += ["general pairs of positions are bound by symmetry, invariance and the triangle inequality, exact values by the cases the specification decides",
                      "within 6.4 km of the opposite place the formula is precise to a metre only"]
