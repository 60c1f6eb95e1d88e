#!/usr/bin/env python3
"""check.py ID: decides one property.
 1. TLC explores each specification module of the property exhaustively within its configuration and
    emits one operation sequence per transition; the harness replays each into the real code.
 2. The harness drives the real code with generated sequences and logs every observation; TLC decides
    whether each log is a behaviour of the specification.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Exit 2: error of the check."""
import json, os, re, shutil, subprocess, sys, time, collections
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from props import PROPS
TLC_JAR = "/opt/veriftools/tla"
SPEC, BUILD, OUTD = V + "/spec", V + "/.build", V + "/out"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
PART = os.environ.get("VERIF_PART", "")      # "rec": only the recorded sessions (for sweeps over seeds by hand)
T0 = time.time()

class ToolError(Exception): pass

def say(*a): print(*a, flush=True)

def build(prop):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable")
    crate = PROPS[prop].get("crate", "harness")
    cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", BUILD + "/target", "--bin", PROPS[prop]["bin"]]
    p = subprocess.run(cmd, cwd=f"{V}/{crate}", env=env, capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError("harness build failed\n" + p.stderr[-4000:])
    return f"{BUILD}/target/debug/{PROPS[prop]['bin']}"

def classpath():
    for l in open(shutil.which("tlc") or "/usr/local/bin/tlc", errors="ignore"):
        m = re.search(r"-cp\s+(\S+)", l)
        if m: return m.group(1).strip('"').strip("'")
    return f"{TLC_JAR}/tla2tools.jar:{TLC_JAR}/CommunityModules-deps.jar"
CP = classpath()

def tlc(module, cfg, work, env=None, workers=1, timeout=3600, heap="6g", out=None):
    """Runs TLC; returns (exit, states, distinct, output path)."""
    out = out or f"{work}/{cfg}.out"
    meta = f"{work}/{cfg}.meta"
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-config", f"{cfg}.cfg", "-metadir", meta, "-noGenerateSpecTE", "-terse", module + ".tla"]
    with open(out, "w") as fh:
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=fh, stderr=subprocess.STDOUT, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -99
    shutil.rmtree(meta, ignore_errors=True)
    st = di = 0
    with open(out, errors="replace") as fh:
        for l in fh:
            if l[:1] == '"': continue
            m = re.match(r"(\d+) states generated, (\d+) distinct", l)
            if m: st, di = int(m.group(1)), int(m.group(2))
    return rc, st, di, out

def tail(path, n=60):
    ls = [l for l in open(path, errors="replace") if l[:1] != '"']
    return "".join(ls[-n:])

def run_bin(cmd, timeout, what):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError(f"{what}: driver ran out of its {timeout} s")
    return p

class Check:
    def __init__(self, prop):
        self.prop, self.cfg = prop, PROPS[prop]
        self.work = f"{BUILD}/work/{prop}"
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work); os.makedirs(OUTD, exist_ok=True)
        self.states = self.trans = self.traces = self.events = 0
        self.ops = collections.Counter(); self.samples = []; self.violations = []; self.parts = []
        self.known = []
        kf = V + "/known_findings.txt"
        if os.path.exists(kf):
            for l in open(kf):
                l = l.strip()
                if l.startswith("{"):
                    d = json.loads(l)
                    if d["property"] == prop and not d.get("fixed"): self.known.append(d)
        self.known_hit = {}

    def violation(self, kind, data):
        k = self.match_known(data)
        if k is not None:
            self.known_hit[k["id"]] = k; return
        self.violations.append((kind, data))

    def match_known(self, data):
        """A finding is identified by the exact last call (model, operation, arguments) and its observation."""
        ev = data["session"]["ev"][data.get("event", len(data["session"]["ev"])) - 1]
        for k in self.known:
            if k["model"] == data["model"] and k["op"] == ev["op"] and k["a"] == ev["a"] and k["r"] == ev["r"] and k["v"] == ev["v"]:
                return k
        return None

    # --- direction 1 ------------------------------------------------------------------------
    def explore(self, m, cfg):
        """Returns the file of emitted sequences."""
        base = cfg["cfg"] if isinstance(cfg, dict) else cfg
        if TIER == "thorough" and os.path.exists(f"{SPEC}/{base}_thorough.cfg"): base += "_thorough"
        mod = cfg.get("module") if isinstance(cfg, dict) else None
        rc, st, di, out = tlc(mod or m["spec"] + "MC", base, self.work, workers=m.get("workers", 4), timeout=m.get("tlc_timeout", 800 if TIER == "quick" else 7200))
        if rc != 0:
            raise ToolError(f"TLC on {base}: exit {rc}\n" + tail(out))
        tests = f"{self.work}/{base}.tests"
        n = 0
        with open(tests, "w") as fh:
            for l in open(out, errors="replace"):
                if l.startswith('"['):
                    t = json.loads(l)
                    if m.get("skip") and json.loads(t)[-1]["op"] in m["skip"]: continue
                    fh.write(t + "\n"); n += 1
        os.remove(out)
        self.states += di; self.trans += st
        if n == 0: raise ToolError(f"{base}: TLC emitted no test")
        say(f"  {base}: {di} states, {st} transitions, {n} sequences [{time.time()-T0:.0f}s]")
        return tests, n

    def replay(self, m, tests, ty):
        out = f"{tests}.{ty}.out"
        p = run_bin([self.bin, m["name"], "replay", tests, out, ty], 3000, "replay")
        if p.returncode == 3: raise ToolError(p.stderr[-2000:])
        if p.returncode != 0:
            self.violation("crash", dict(model=m["name"], type=ty, session=dict(id="replay", ev=[dict(op="process", a=[], r=f"exit {p.returncode}", v=[])]), stderr=p.stderr[-2000:], tests=tests))
            return
        for l in open(out):
            d = json.loads(l)
            if "mismatch" in d:
                if len(self.violations) < 20:
                    self.violation("replay", dict(model=m["name"], type=ty, session=d["mismatch"], expected=d["want"], spec=m["spec"]))
            else:
                self.traces += d["tests"]; self.events += d["events"]
        if len(self.samples) < 2:
            with open(tests) as fh:
                ls = fh.readlines()
            self.samples.append(dict(direction="specification->code", model=m["spec"], type=ty, sequence=json.loads(ls[len(ls) // 2])))

    # --- direction 2 ------------------------------------------------------------------------
    def record(self, m, ty, n):
        out = f"{self.work}/{m['name']}.{ty}.rec"
        p = run_bin([self.bin, m["name"], "record", str(SEED), str(n), out, ty, TIER], 3000, "record")
        return self.recorded(m, ty, p, out)

    def drive(self, m, tests, ty):
        out = f"{tests}.{ty}.rec"
        p = run_bin([self.bin, m["name"], "drive", tests, out, ty], 3000, "drive")
        return self.recorded(m, ty, p, out)

    def recorded(self, m, ty, p, out):
        if p.returncode == 3: raise ToolError(p.stderr[-2000:])
        if p.returncode != 0:
            self.violation("crash", dict(model=m["name"], type=ty, session=dict(id="record", ev=[dict(op="process", a=[], r=f"exit {p.returncode}", v=[])]), stderr=p.stderr[-2000:]))
        return out

    def validate(self, m, recs, label):
        sess = []
        for r in recs:
            if os.path.exists(r):
                for l in open(r, errors="replace"):
                    try: sess.append(json.loads(l))
                    except ValueError: pass
        for s in sess:       # pure observations that belong to another property
            if m.get("skip"): s["ev"] = [e for e in s["ev"] if e["op"] not in m["skip"]]
        sess = [s for s in sess if s["ev"]]
        if not sess: return
        for s in sess:
            for e in s["ev"]: self.ops[f"{m['name']}.{e['op']}:{e['r']}"] += 1
        # known findings are accepted call by call, and the rest of the session is dropped
        if self.known:
            for s in sess:
                for i, e in enumerate(s["ev"]):
                    k = self.match_known(dict(model=m["name"], session=dict(ev=s["ev"][:i + 1])))
                    if k: self.known_hit[k["id"]] = k; s["ev"] = s["ev"][:i]; break
        sess = [s for s in sess if s["ev"]]
        jobs = m.get("jobs", 1)
        chunks = [sess[i::jobs] for i in range(jobs)]
        with ThreadPoolExecutor(jobs) as ex:
            rs = list(ex.map(lambda c: self.validate_chunk(m, c[1], f"{label}{c[0]}", 8 // jobs), enumerate(chunks)))
        for ch, (rc, st, di) in zip(chunks, rs):
            self.states += di; self.trans += st
        self.traces += len(sess); self.events += sum(len(s["ev"]) for s in sess)
        say(f"  {m['spec']}Trace {label}: {len(sess)} sessions, {sum(len(s['ev']) for s in sess)} events [{time.time()-T0:.0f}s]")
        if len(self.samples) < 5:
            s = max(sess[:50], key=lambda s: len({e['op'] for e in s['ev']}))
            self.samples.append(dict(direction="code->specification", model=m["spec"], session=dict(id=s["id"], ev=s["ev"][:12])))

    def validate_chunk(self, m, sess, label, workers):
        if not sess: return 0, 0, 0
        tr = f"{self.work}/{m['name']}.{label}.ndjson"
        with open(tr, "w") as fh:
            for s in sess: fh.write(json.dumps(s) + "\n")
        rc, st, di, out = tlc(m["spec"] + "Trace", m["spec"] + "Trace", self.work, env=dict(TRACE=tr), workers=workers,
                              timeout=1500 if TIER == "quick" else 7200, out=f"{self.work}/{m['name']}.{label}.out")
        if rc == 0:
            # one state per consumed event plus one per session
            need = sum(len(s["ev"]) + 1 for s in sess)
            if di != need: raise ToolError(f"{label}: {di} states for {need} expected: trace not consumed\n" + tail(out))
            return rc, st, di
        txt = open(out, errors="replace").read()
        ms = re.findall(r"session = (\d+)|session \|-> (\d+)", txt); me = re.findall(r"event = (-?\d+)|event \|-> (-?\d+)", txt)
        inv = re.search(r"Invariant (\w+) is violated", txt)
        if inv and ms and me:
            si, ei = int("".join(ms[-1])), int("".join(me[-1]))
            ex = txt[txt.rfind("expected"):][:3000].split("\n\n")[0]
            self.violation("trace", dict(model=m["name"], spec=m["spec"], invariant=inv.group(1), session=sess[si - 1], event=ei,
                                         observed=sess[si - 1]["ev"][ei - 1] if ei >= 1 else None, expected=ex))
            return rc, st, di
        # an observation so far out that the specification's arithmetic is undefined on it
        at = re.findall(r"^(?:/\\ )?s = (\d+)\s*$", txt, re.M); al = re.findall(r"^(?:/\\ )?l = (\d+)\s*$", txt, re.M)
        if not at and ms and me: at, al = ["".join(ms[-1])], [str(int("".join(me[-1])) + 1)]
        if rc in (75, 76, 77, 151, 255) and at and al and "OutOfMemory" not in txt and "semantic" not in txt:
            si, ei = int(at[-1]), int(al[-1])
            if 1 <= si <= len(sess) and 1 <= ei <= len(sess[si - 1]["ev"]):
                self.violation("trace", dict(model=m["name"], spec=m["spec"], invariant="undefined", session=sess[si - 1], event=ei,
                                             observed=sess[si - 1]["ev"][ei - 1], expected=re.sub(r"\s+", " ", txt[txt.find("Error:"):])[:600]))
                return rc, st, di
        raise ToolError(f"TLC on {m['spec']}Trace: exit {rc}\n" + tail(out))

    def run(self):
        with ThreadPoolExecutor(4) as ex:
            fb = ex.submit(build, self.prop)
            exps = [(m, ex.submit(self.explore, m, c), c) for m in self.cfg["models"] for c in m.get("mc", []) if PART != "rec"]
            self.bin = fb.result()
            say(f"  built {self.prop} harness [{time.time()-T0:.0f}s]")
            for m, f, c in exps:
                tests, n = f.result()
                if isinstance(c, dict) and c.get("mode") == "drive":
                    self.validate(m, [self.drive(m, tests, ty) for ty in m.get("types", ["f64"])], "drive")
                else:
                    list(ex.map(lambda ty: self.replay(m, tests, ty), m.get("types", ["f64"])))
                if not self.violations: os.remove(tests)
        for m in self.cfg["models"]:
            n = m.get("n", {}).get(TIER, 0) or m.get("n", {}).get("quick", 0)
            if n:
                self.validate(m, [self.record(m, ty, n) for ty in m.get("types", ["f64"])], "rec")
        for want in self.cfg.get("must_see", []):
            if not any(re.fullmatch(want, k) for k in self.ops): raise ToolError(f"vacuous: no event matches {want}")

    def finish(self):
        for k in self.known:
            if k["id"] in self.known_hit: say(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces,
                                events_compared=self.events, events_by_operation_and_outcome=dict(sorted(self.ops.items())),
                                samples=self.samples or ["none"],
                                rule="exhaustive TLC configurations emit one sequence per transition, replayed into the real code; recorded sessions are validated by TLC"),
                  assumptions=self.cfg.get("assumptions", []), wall_s=round(time.time() - T0, 2), violations=len(self.violations))
        os.makedirs(V + "/evidence", exist_ok=True)
        with open(f"{V}/evidence/{self.prop}.json", "w") as fh: json.dump(ev, fh, indent=1)
        if self.violations:
            path = f"{OUTD}/{self.prop}-violation.json"
            with open(path, "w") as fh: json.dump([dict(kind=k, **d) for k, d in self.violations[:10]], fh, indent=1)
            kind, d = self.violations[0]
            say(f"violation ({kind}) in model {d.get('spec', d['model'])}: last event {json.dumps(d['session']['ev'][(d.get('event') or len(d['session']['ev'])) - 1])}; specification expects {d.get('expected')}")
            say(f"VIOLATION property={self.prop} replay={path}")
            return 1
        say(f"{self.prop}: held ({self.states} states, {self.traces} traces, {self.events} events, {time.time()-T0:.0f}s)")
        return 0

def main():
    prop = sys.argv[1]
    c = Check(prop)
    try:
        c.run()
    except ToolError as e:
        # a real mismatch found before the tool stopped still is a verdict
        if not c.violations:
            say("ERROR of the check:", e); sys.exit(2)
    rc = c.finish()
    shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)
main()
