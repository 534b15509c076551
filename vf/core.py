"""Driver plumbing: build the harness from /repo's working tree, run it, run TLC, write evidence.
No oracle lives here: every expected value is computed by TLC from the TLA+ specification."""
import hashlib, json, os, queue, random, re, shutil, subprocess, sys, tempfile, threading, time

ROOT = "/verif"
SPEC = ROOT + "/spec"
TARGET = ROOT + "/.build/target"
EVID = ROOT + "/evidence"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET,
             SSL_CERT_FILE=ROOT + "/harness/one_cert.pem", SSL_CERT_DIR="/nonexistent")  # the client of the SPARQL endpoint reads all of them
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def build(pkg):
    t = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"] + [x for p in pkg.split() for x in ("-p", p)], cwd=ROOT + "/harness", env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise ToolError("harness build failed for " + pkg)
    return time.time() - t


class Worker:
    """One harness process; reads commands, answers one JSON line each (after a start line)."""

    def __init__(self, binary, cwd):
        self.binary, self.cwd = binary, cwd
        self.start()

    def start(self):
        e = env()
        e["RUST_BACKTRACE"] = "0"
        e["RAYON_NUM_THREADS"] = e.get("RAYON_NUM_THREADS", "2")
        e["RUST_MIN_STACK"] = str(64 << 20)
        e["TMPDIR"] = self.cwd
        self.p = subprocess.Popen([self.binary], cwd=self.cwd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, bufsize=1)
        self.q = queue.Queue()
        threading.Thread(target=self._pump, args=(self.p, self.q), daemon=True).start()

    @staticmethod
    def _pump(p, q):
        for line in p.stdout:
            q.put(line)
        q.put(None)

    def run(self, cmd, timeout):
        try:
            self.p.stdin.write(json.dumps(cmd) + "\n")
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self.kill(); self.start()
            self.p.stdin.write(json.dumps(cmd) + "\n"); self.p.stdin.flush()
        end = time.time() + timeout
        while True:
            try:
                line = self.q.get(timeout=max(0.01, end - time.time()))
            except queue.Empty:
                self.kill(); self.start()
                return {"id": cmd["id"], "hang": True}
            if line is None:
                rc = self.p.wait()
                self.start()
                return {"id": cmd["id"], "crash": rc}
            d = json.loads(line)
            if "start" in d:
                continue
            if d.get("id") == cmd["id"]:
                return d

    def kill(self):
        try:
            self.p.kill(); self.p.wait()
        except Exception:
            pass


def run_harness(pkg, cmds, timeout=60, workers=None):
    """Runs commands on the real code, returns the list of answers in order."""
    binary = f"{TARGET}/debug/{pkg}"
    n = max(1, min(workers or NCPU, len(cmds)))
    res = [None] * len(cmds)
    idx = iter(range(len(cmds)))
    lock = threading.Lock()
    scratch = tempfile.mkdtemp(prefix="vf_scratch_")
    errs, hangs = [], [0]

    def loop():
        try:
            w = Worker(binary, scratch)
            while True:
                with lock:
                    i = next(idx, None)
                if i is None:
                    break
                c = dict(cmds[i]); c["id"] = i
                res[i] = w.run(c, timeout if hangs[0] < 30 else min(timeout, 2))
                hangs[0] += "hang" in res[i]
            w.kill()
        except Exception as ex:  # noqa
            errs.append(ex)

    ts = [threading.Thread(target=loop) for _ in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
    shutil.rmtree(scratch, ignore_errors=True)
    if errs:
        raise ToolError("harness driver: %r" % errs[0])
    return res


class TLCResult:
    def __init__(self):
        self.states = self.distinct = 0; self.rejects = []; self.out = ""; self.rc = 0; self.wall = 0.0


EVAL = (75, 76)       # TLC's exit codes for an evaluation that fails
TLC_TIMEOUT = int(os.environ.get("VF_TLC_TIMEOUT", "800"))


def run_tlc(module, cfg=None, envs=None, workers=None, timeout=TLC_TIMEOUT, extra=(), heap="12g", ok_codes=(0,), seed=None):
    r = TLCResult()
    timeout = timeout or TLC_TIMEOUT
    t = time.time()
    meta = tempfile.mkdtemp(prefix="vf_tlc_")
    e = env()
    e.update(envs or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers or NCPU),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or module + ".cfg", *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        r.out, r.rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as ex:
        raise ToolError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r.wall = time.time() - t
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out)
    if m:
        r.states, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    for line in r.out.splitlines():
        if "@@REJECT@@" in line:
            s = line.strip().strip('"')
            _, pos, rest = s.split(" ", 2)
            r.rejects.append((int(pos), rest.replace('\\"', '"')))
    r.rejects.sort()
    if r.rc not in ok_codes:
        sys.stderr.write(r.out[-5000:])
        raise ToolError(f"TLC failed on {module} rc={r.rc}")
    return r


CHUNK = 48 << 20     # bytes of trace that one TLC run is given


def judge(module, events, timeout=None, envs=None):
    """Validates recorded events with TLC; returns (TLCResult, rejected event indexes with what the spec wanted)."""
    total, first, t0 = None, 0, time.time()
    lines = (json.dumps(ev) + "\n" for ev in events)
    held = next(lines, None)
    while held is not None or total is None:
        d = tempfile.mkdtemp(prefix="vf_trace_")
        n = size = 0
        try:
            with open(d + "/trace.ndjson", "w") as o:
                while held is not None and (n == 0 or size + len(held) <= CHUNK):
                    o.write(held)
                    n, size = n + 1, size + len(held)
                    held = next(lines, None)
            r = run_tlc(module, envs={"TRACE": d + "/trace.ndjson", **(envs or {})}, timeout=timeout, ok_codes=(0, *EVAL))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if r.rc in EVAL:
            # an observation outside of what the specification can describe at all (a value of another kind, an unknown node)
            m = re.findall(r"pos = (\d+)", r.out)
            e = re.search(r"Error: (.*?)(?:\n\n|Error: The behavior)", r.out, re.S)
            if not m:
                sys.stderr.write(r.out[-5000:])
                raise ToolError(f"TLC failed on {module} rc={r.rc}")
            r.rejects.append((int(m[-1]), "no meaning in the specification: " + (e[1] if e else "")[:1000]))
            held = None
        r.rejects = [(first + k, w) for k, w in r.rejects]
        if total is None:
            total = r
        else:
            total.rejects += r.rejects
            total.states, total.distinct, total.wall = total.states + r.states, total.distinct + r.distinct, total.wall + r.wall
        first += n
        if total.rejects and time.time() - t0 > 200:
            break
    return total


def known_findings():
    out = []
    p = ROOT + "/known_findings.jsonl"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                out.append(json.loads(l))
    return out


class Check:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(f"{prop}:{self.seed}")
        self.t0 = time.time()
        self.viol = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.known = [k for k in known_findings() if k["property"] == prop]
        self.known_hit = {}
        self.parts = []

    quick = property(lambda s: s.tier == "quick")

    def pick(self, q, t):
        return q if self.quick else t

    def model(self, module, cfg=None, **kw):
        """Exhaustive check of a design-level theorem with TLC."""
        r = run_tlc(module, cfg=cfg, **kw)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states
        self.parts.append({"part": "model " + (cfg or module), "states": r.distinct, "wall_s": round(r.wall, 1)})
        return r

    def validate(self, part, module, events, replay=None, sig=None, timeout=None, envs=None, n_impl=None):
        """Judge implementation events with TLC. replay(i) gives the replay object, sig(i, want) a finding key."""
        if not events:
            raise ToolError("no events for " + part)
        r = judge(module, events, timeout=timeout, envs=envs)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states
        self.cov["traces_validated_against_impl"] += n_impl or len(events)
        if len(self.cov["samples"]) < 8:
            for k in (0, len(events) // 2):
                self.cov["samples"].append({"part": part, "event": events[k]})
        self.parts.append({"part": part, "events": len(events), "rejected": len(r.rejects), "tlc_wall_s": round(r.wall, 1)})
        for pos, want in r.rejects:
            ev = events[pos - 1]
            self.report(part, {"event": ev, "spec": want, "replay": replay(pos - 1) if replay else None},
                        sig(pos - 1, want) if sig else None)
        return r

    def report(self, part, detail, key=None):
        for k in self.known:
            if key is not None and k["key"] == key:
                self.known_hit.setdefault(key, k["what"])
                return
        self.viol.append({"part": part, "key": key, **detail})

    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(EVID, exist_ok=True)
        self.cov["parts"] = self.parts
        self.cov["rule"] = "every event recorded from the real code is replayed through the TLA+ specification by TLC"
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "wall_s": round(wall, 2), "violations": len(self.viol)}
        for key, what in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        rc = 0
        p = f"{EVID}/{self.prop}.violation.json"
        if os.path.exists(p):
            os.remove(p)
        if self.viol:
            with open(p, "w") as o:
                json.dump(self.viol[:500], o, indent=1)
            print(f"VIOLATION property={self.prop} replay={p}")
            for v in self.viol[:3]:
                print(json.dumps(v)[:300])
            rc = 1
        with open(f"{EVID}/{self.prop}.json", "w") as o:
            json.dump(ev, o, indent=1)
        print(f"{self.prop} {self.tier}: {len(self.viol)} violations, {wall:.1f}s, " + json.dumps(self.parts))
        return rc
