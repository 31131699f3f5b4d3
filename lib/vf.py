"""Common machinery of all checks: building harnesses from /repo's tree, running TLC on the
specifications (exhaustive models, behaviour generation, trace validation), evidence files and
VIOLATION / KNOWN-FINDING reporting.

Exit codes of a check: 0 property held, 1 VIOLATION, 2 the machinery itself failed (no verdict)."""
import atexit, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


class Violation(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw).stdout.strip()


# ---------------------------------------------------------------- string coding
# Strings cross the boundary percent-encoded: printable ASCII except % and space stays.
_SAFE = set(range(0x21, 0x7F)) - {0x25}


def pct(b):
    if isinstance(b, str):
        b = b.encode("utf-8")
    return "".join(chr(c) if c in _SAFE else "%%%02X" % c for c in b)


def unpct(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "%":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rnd = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        atexit.register(self.cleanup)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "evaluations": 0, "samples": [], "models": {}, "actions": {}}
        self.assumptions = []
        self.known = load_known(pid)
        self.known_seen = []
        self._spec_dir = None
        self._hung = False
        self._nval = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ------------------------------------------------------------ building
    def build(self, *srcs, name=None, flags="", libs="", std=""):
        """Compile harness sources of /verif/harness against REPO/include."""
        name = name or os.path.splitext(srcs[0])[0]
        out = os.path.join(self.tmp, name)
        base = ("-g -O1 -w -D_LARGEFILE_SOURCE -D_FILE_OFFSET_BITS=64 -DOSMIUM_WITH_DEBUG -DOSMIUM_OSM_AREA_HPP "
                "-I%s/include -I%s/harness " % (REPO, VERIF)
                + sh("xml2-config --cflags") + " ")
        objs, procs = [], []
        for s in srcs:
            o = os.path.join(self.tmp, name + "." + os.path.basename(s) + ".o")
            cmd = "g++ %s %s %s -c -o %s %s/harness/%s" % (std, base, flags, o, VERIF, s)
            procs.append((cmd, subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            objs.append(o)
        for cmd, p in procs:
            o, _ = p.communicate()
            if p.returncode:
                raise MachineryError("compile failed: %s\n%s" % (cmd, o[-4000:]))
        cmd = "g++ -o %s %s %s -lexpat -lz -lpthread -lprotobuf-lite -losmpbf %s -lboost_regex" % (
            out, " ".join(objs), libs, sh("xml2-config --libs"))
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise MachineryError("link failed: %s\n%s" % (cmd, p.stdout[-4000:]))
        return out

    def run(self, cmd, stdin="", timeout=120, env=None, cwd=None):
        """Run a harness; returns (rc, stdout, stderr). A timeout kills the whole group: rc = -999."""
        e = dict(os.environ)
        if env:
            e.update(env)
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=e, cwd=cwd or self.tmp, start_new_session=True)
        try:
            o, er = p.communicate(stdin.encode() if isinstance(stdin, str) else stdin, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, er = p.communicate()
            rc = -999
        return rc, o.decode("utf-8", "replace"), er.decode("utf-8", "replace")

    def harness(self, binary, script, timeout=120, env=None, args=()):
        """Run a script-driven harness; returns its event list. A crash or hang of the code under
        test becomes a final event {"e":"crash"} / {"e":"exit"} / {"e":"hang"}, which no specification allows."""
        rc, out, err = self.run([binary] + list(args), script, min(timeout, 150) if self._hung else timeout, env)
        self._hung = self._hung or rc == -999
        evs = []
        for line in out.splitlines():
            if line.startswith("{"):
                try:
                    evs.append(json.loads(line))
                except ValueError:
                    if rc == 0:
                        raise MachineryError("bad event line: " + line[:300])
        if rc == -999:
            evs.append({"e": "hang"})
        elif rc < 0:
            evs.append({"e": "crash", "signal": -rc, "err": pct(err[-300:])})
        elif rc not in (0, 3, 126, 127):                   # the code under test ended the program
            evs.append({"e": "exit", "rc": rc, "err": pct(err[-300:])})
        elif rc != 0:
            raise MachineryError("harness exit %d: %s" % (rc, err[-2000:]))
        return evs

    def harness_all(self, binary, scripts, timeout=120, env=None, args=(), jobs=8):
        """Run many scripts in parallel processes; returns the list of their event lists."""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(jobs) as ex:
            return list(ex.map(lambda sc: self.harness(binary, sc, timeout, env, args), scripts))

    # ------------------------------------------------------------ TLC
    def spec_dir(self):
        if not self._spec_dir:
            d = os.path.join(self.tmp, "spec")
            shutil.copytree(os.path.join(VERIF, "spec"), d)
            self._spec_dir = d
        return self._spec_dir

    def tlc(self, module, cfg, workers="auto", extra=(), env=None, timeout=800, heap="6g", jvm=()):
        d = self.spec_dir()
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta] + list(jvm) + [
               "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
               "-config", cfg] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        if env:
            e.update(env)
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on " + cfg)
        out = p.stdout.decode("utf-8", "replace")
        shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, out

    def model(self, module, cfg=None, coverage=True, timeout=800, required=True, consts=None, sim=None):
        """Exhaustively check a specification. It must hold: anything else is a broken model."""
        cfg = self._cfg(cfg or module + ".cfg", consts)
        extra = ["-coverage", "1"] if coverage else []
        rc, out = self.tlc(module, cfg, extra=extra, timeout=timeout)
        if rc != 0 or "Model checking completed. No error" not in out:
            raise MachineryError("model %s/%s does not hold or failed (rc %d):\n%s" % (module, cfg, rc, out[-6000:]))
        gen, dist = self._states(out)
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["models"][module + ":" + os.path.basename(cfg)] = {"distinct_states": dist, "states_generated": gen}
        if coverage:
            acts = {}
            for m in re.finditer(r"^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)(?: \([^)]*\))?>: (\d+):(\d+)", out, re.M):
                acts["%s.%s" % (m.group(2), m.group(1))] = max(int(m.group(4)), acts.get("%s.%s" % (m.group(2), m.group(1)), 0))
            self.cov["actions"].update(acts)
            dead = [a for a, n in acts.items() if n == 0 and not a.endswith(".Init")]
            if dead:
                raise MachineryError("vacuous model %s: actions never taken: %s" % (module, dead))
        return out

    def model_must_fail(self, module, cfg=None, consts=None, timeout=800):
        """A design with a planted fault must violate the specification's properties."""
        cfg = self._cfg(cfg or module + ".cfg", consts)
        rc, out = self.tlc(module, cfg, timeout=timeout)
        m = re.search(r"Invariant (\w+) is violated|property (\w+) (?:is|was) violated|Temporal properties were violated|Action property", out)
        if not m:
            raise MachineryError("faulty design %s %s not rejected:\n%s" % (module, consts, out[-3000:]))
        self.cov.setdefault("faulty_designs_rejected", []).append("%s %s: %s" % (module, consts, m.group(0)))

    def _cfg(self, cfg, consts):
        if not consts:
            return cfg
        src = open(os.path.join(self.spec_dir(), cfg)).read()
        for k, v in consts.items():
            src, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % re.escape(k), lambda m: m.group(1) + str(v), src)
            if n != 1:
                raise MachineryError("constant %s not in %s" % (k, cfg))
        new = "auto_%s_%d.cfg" % (os.path.splitext(os.path.basename(cfg))[0], len(os.listdir(self.spec_dir())))
        open(os.path.join(self.spec_dir(), new), "w").write(src)
        return new

    @staticmethod
    def _states(out):
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        if not m:
            return 0, 0
        return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))

    def generate(self, module, cfg, tag="GEN", simulate=None, depth=None, timeout=600, consts=None, env=None):
        """Run TLC to print behaviours: every output line <tag> <json> printed by the spec."""
        cfg = self._cfg(cfg, consts)
        extra = []
        if simulate:
            extra = ["-simulate", "num=%d" % simulate, "-seed", str(self.seed)] + (["-depth", str(depth)] if depth else [])
        rc, out = self.tlc(module, cfg, extra=extra, timeout=timeout, workers=1 if simulate else "auto", env=env)
        if "Error:" in out or (not simulate and "Model checking completed. No error" not in out):
            raise MachineryError("generation %s failed (rc %d):\n%s" % (cfg, rc, out[-4000:]))
        if not simulate:
            gen, dist = self._states(out)
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            self.cov["models"][module + ":" + os.path.basename(cfg)] = {"distinct_states": dist, "states_generated": gen}
        res = []
        pat = '"%s ' % tag
        for line in out.splitlines():
            if line.startswith(pat):
                s = line.strip()[1:-1][len(tag) + 1:]
                s = s.replace('\\"', '"').replace("\\\\", "\\")
                res.append(json.loads(s))
        return res

    def validate_raw(self, module, events, cfg=None, timeout=800, heap="6g", consts=None):
        """Is this event list a behaviour of the trace specification? Returns (accepted, index of the
        first event that no action of the specification explains, extra output)."""
        self._nval += 1
        path = os.path.join(self.tmp, "trace%d.ndjson" % self._nval)
        with open(path, "w") as f:
            for e in events:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        cfg = self._cfg(cfg or module + ".cfg", consts)
        rc, out = self.tlc(module, cfg, workers=1, env={"TRACE": path}, timeout=timeout, heap=heap)
        os.unlink(path)
        if rc == 0 and "Model checking completed. No error" in out:
            gen, dist = self._states(out)
            return True, len(events), out, dist
        m = re.search(r'<<"REJECTED", (\d+)>>', out)
        if m and not re.search(r"TLC threw|Attempted to|evaluating", out):
            return False, int(m.group(1)) - 1, out, 0
        inv = re.search(r"Invariant (\w+) is violated|Action property (\w+) is violated|property (\w+) .*violated", out)
        if inv:
            n = len(re.findall(r"^State \d+:", out, re.M))
            return False, max(n - 2, 0), out, 0
        # values the specification cannot even be evaluated on (a text where a number has to be, an index
        # that is not there) are no behaviour of it either; resource problems of TLC are not meant here
        if re.search(r"Attempted to |is not in the domain|was not in the domain|The (first|second|third) argument of|Evaluating assumption|applied to|Cannot (compare|evaluate)", out) \
                and not re.search(r"StackOverflow|OutOfMemory|heap space|undefined or not an operator|Parse Error|Semantic error|Unknown operator", out):
            ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
            return False, (int(ls[-1]) if ls else 1) - 1, out, 0
        short = "\n".join(x[:300] for x in out.splitlines()[-25:])
        raise MachineryError("trace validation %s failed (rc %d):\n%s" % (module, rc, short[-5000:]))

    def repeat(self, f):
        """f with the same random choices on every call as on the first."""
        st = []

        def g():
            if st:
                self.rnd.setstate(st[0])
            else:
                st.append(self.rnd.getstate())
            return f()
        return g

    def validate(self, module, events, traces=None, what="", cfg=None, recheck=None, timeout=800, consts=None, heap="6g"):
        """Validate; on rejection repeat (re-recording through recheck() if given) before reporting."""
        ok, idx, out, dist = self.validate_raw(module, events, cfg, timeout, consts=consts, heap=heap)
        if not ok:
            for again in range(3 if recheck else 1):
                ev2 = recheck() if recheck else events
                ok2, idx2, out, dist = self.validate_raw(module, ev2, cfg, timeout, consts=consts, heap=heap)
                if not ok2:
                    break
            if ok2:
                raise MachineryError("rejection of %s not repeatable (event %d)" % (module, idx))
            self.report(module, ev2, idx2, what)
        n = traces if traces is not None else sum(1 for e in events if e.get("e") == "begin") or 1
        self.cov["traces_validated_against_impl"] += n
        self.cov["evaluations"] += len(events)
        self.cov.setdefault("trace_states", 0)
        self.cov["trace_states"] += dist
        return out

    def control(self, module, events, mutate, cfg=None, consts=None):
        """Binding control: a corrupted copy of an accepted trace must be rejected."""
        ev = json.loads(json.dumps(events))
        ev = mutate(ev) or ev
        if ev == events:
            raise MachineryError("control mutation of %s changed nothing" % module)
        ok, idx, out, _ = self.validate_raw(module, ev, cfg, consts=consts)
        if ok:
            raise MachineryError("control: corrupted trace accepted by " + module)
        self.cov["binding_controls_rejected"] = self.cov.get("binding_controls_rejected", 0) + 1

    # ------------------------------------------------------------ results
    def sample(self, x, n=3):
        if len(self.cov["samples"]) < n:
            self.cov["samples"].append(x)

    def report(self, module, events, idx, what):
        b = idx
        while b > 0 and not (b < len(events) and events[b].get("e") == "begin"):
            b -= 1
        lo = b if idx - b < 200 else idx - 200
        end = idx + 1
        self.violation({"what": what, "spec": module, "rejected_event_index": idx,
                        "rejected_event": events[idx] if idx < len(events) else None,
                        "scenario_begin": events[b] if b < len(events) else None,
                        "scenario_events": events[lo:end + 3]})

    def violation(self, data):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (self.pid, hashlib.sha1(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:10]))
        data = dict(data, property=self.pid, seed=self.seed, tier=self.tier,
                    how="VERIF_SEED=%d VERIF_TIER=%s python3 checks/run.py %s" % (self.seed, self.tier, self.pid))
        with open(path, "w") as f:
            json.dump(data, f, indent=1, default=str)
        self.cov["violation"] = {k: str(data.get(k))[:400] for k in ("what", "rejected_event")}
        self.write_evidence(1)
        print("%s: %s" % (self.pid, str(data.get("what"))[:300]))
        if data.get("rejected_event") is not None:
            print("  rejected event: " + json.dumps(data["rejected_event"], default=str)[:600])
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        sys.stdout.flush()
        raise Violation()

    def finding(self, key):
        """A listed, genuine and unrepaired defect was met. Unlisted keys are violations."""
        for k in self.known:
            if k["key"] == key:
                if key not in self.known_seen:
                    self.known_seen.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                return
        self.violation({"what": "deviation not listed in known_findings: " + key})

    def write_evidence(self, violations=0):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    def finish(self):
        self.cov["known_findings_met"] = self.known_seen
        self.write_evidence(0)
        print("%s: held on everything explored (%d model states, %d traces, %d events, %.1fs)" % (
            self.pid, self.cov["states"], self.cov["traces_validated_against_impl"], self.cov["evaluations"], time.time() - self.t0))


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["known"] if k["property"] == pid]


def main(fn, pid, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
        c.finish()
        rc = 0
    except Violation:
        rc = 1
    except MachineryError as e:
        print("ERROR of the check itself (no verdict): %s" % e, file=sys.stderr)
        c.cov["error"] = str(e)[:2000]
        c.write_evidence(0)
        rc = 2
    sys.exit(rc)
