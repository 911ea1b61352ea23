"""Shared machinery of the checks: build the driver from /repo's working tree,
run it, run TLC, and turn TLC's verdict on recorded traces into the check's."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time, atexit, concurrent.futures, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
GO = "/opt/veriftools/go1.25.14"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """The check itself could not do its work: neither held nor violated."""


def goenv(**kw):
    e = dict(os.environ)
    e.update(HOME="/root", PATH=GO + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOWORK="off",
             GODEBUG="asynctimerchan=0")
    e.update({k: str(v) for k, v in kw.items()})
    return e


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        for f in glob.glob(os.path.join(VERIF, "replays", "%s-%d-*" % (prop, self.seed))):
            os.remove(f)
        self.dir = tempfile.mkdtemp(prefix="ckv-%s-" % prop)
        atexit.register(shutil.rmtree, self.dir, True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.model_runs = []

    def path(self, *a):
        return os.path.join(self.dir, *a)

    # ---- building and running the real code -------------------------------
    def modfile(self):
        """Builds with copies of go.mod and go.sum: none of them writes in the repository."""
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(REPO, f), self.path(f))
        return "-modfile=" + self.path("go.mod")

    def build_driver(self, race=False):
        out = self.path("race.test" if race else "drv.test")
        src = os.path.join(VERIF, "harness", "drv")
        repl = {os.path.join(REPO, "zzverif", "drv", f): os.path.join(src, f)
                for f in os.listdir(src) if f.endswith(".go")}
        ov = self.path("overlay.json")
        json.dump({"Replace": repl}, open(ov, "w"))
        t = time.time()
        r = subprocess.run(["go", "test", "-vet=off", self.modfile(), "-overlay", ov] + (["-race"] if race else []) +
                           ["-c", "-o", out, "./zzverif/drv"], cwd=REPO, env=goenv(CGO_ENABLED=1 if race else 0), capture_output=True, text=True)
        if r.returncode != 0:
            raise Broken("driver does not build:\n" + r.stdout[-3000:] + r.stderr[-6000:])
        self.notes["build_s"] = round(time.time() - t, 1)
        self.drv = out
        return out

    def build_binary(self, pkg, name):
        out = self.path(name)
        r = subprocess.run(["go", "build", self.modfile(), "-o", out, pkg], cwd=REPO, env=goenv(), capture_output=True, text=True)
        if r.returncode != 0:
            raise Broken("%s does not build:\n%s" % (pkg, r.stderr[-6000:]))
        return out

    def run_driver(self, mode, infile, outfile, timeout=600, **env):
        """Returns (rc, output tail). rc 0 = ran to the end."""
        log = outfile + ".log"
        with open(log, "w") as lf:
            p = subprocess.Popen([self.drv, "-test.run", "^TestDrive$", "-test.timeout", "0"],
                                 cwd=self.dir, stdout=lf, stderr=subprocess.STDOUT,
                                 env=goenv(VERIF_MODE=mode, VERIF_IN=infile, VERIF_OUT=outfile,
                                           VERIF_SEED=self.seed, VERIF_TIER=self.tier, GOTRACEBACK="all", **env))
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = -99
        return rc, open(log, errors="replace").read()[-60000:]

    def need_driver(self, mode, infile, outfile, timeout=600, **env):
        rc, tail = self.run_driver(mode, infile, outfile, timeout, **env)
        if rc != 0:
            raise Broken("driver %s ended with %s\n%s" % (mode, rc, tail[-6000:]))

    def drive(self, mode, infile, outfile, timeout=600, **env):
        """Runs a driver mode and returns its events as segments. A crash of the real
        code ends the last segment with a "crash" event, which no specification has."""
        dead = []
        segs = self._drive(mode, infile, outfile, timeout, dead, env)
        self.dead = dead[0] if dead else None
        if not segs:
            raise Broken(self.dead)
        return segs

    def _drive(self, mode, infile, outfile, timeout, dead, env):
        rc, tail = self.run_driver(mode, infile, outfile, timeout, **env)
        rows = []
        if os.path.exists(outfile):
            for l in open(outfile):
                try:
                    rows.append(json.loads(l))
                except ValueError:
                    break
        if rc != 0:
            m = re.search(r"^(panic: .*|fatal error: .*|WARNING: DATA RACE)", tail, re.M)
            # the stack of the goroutine that panicked: whose code is its innermost frame in this module?
            st = re.search(r"^goroutine .*?:\n(.*?)(\n\n|\Z)", tail[m.start():], re.M | re.S) if m else None
            fr = re.search(r"^github\.com/DaoCloud/ckube/(\S+)", st.group(1), re.M) if st else None
            inside = fr and not fr.group(1).startswith("zzverif")
            if m and "DATA RACE" in m.group(1):
                # two accesses; one of them made by code of the module itself
                inside = any(f and not f.group(1).startswith("zzverif") for f in
                             (re.search(r"^  github\.com/DaoCloud/ckube/(\S+)", b, re.M)
                              for b in tail[m.start():].split("Goroutine ")[0].split("\n\n")[:2]))
            if m and inside and "deadlock: main bubble" not in m.group(1) and rows:
                rows.append({"ev": "crash", "what": m.group(1)[:300], "stack": tail[m.start():][:6000]})
            else:
                dead.append("driver %s ended with %s\n%s" % (mode, rc, tail[-6000:]))
        return segments(rows)

    def drive_sharded(self, mode, rows, name, procs=6, timeout=700, **env):
        """drive() by several processes at once, each with its share of the scenarios."""
        dead = []

        def one(i):
            inp, out = self.path("%s-in.%d.ndjson" % (name, i)), self.path("%s-out.%d.ndjson" % (name, i))
            write_nd(inp, rows[i::procs])
            return self._drive(mode, inp, out, timeout, dead, dict(env, VERIF_SCRATCH=self.path("scratch.%d" % i)))
        procs = min(procs, len(rows))
        with concurrent.futures.ThreadPoolExecutor(procs) as ex:
            segs = [s for r in ex.map(one, range(procs)) for s in r]
        self.dead = dead[0] if dead else None
        if not segs:
            raise Broken(self.dead)
        return segs

    def alive(self):
        """After the judgement: a driver that died for no reason of the code decides nothing."""
        if self.dead and not self.violations:
            raise Broken(self.dead)

    # ---- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg, env=None, args=(), timeout=600, heap="3g", workers=1, cwd=None, ok_rc=(0,)):
        meta = tempfile.mkdtemp(dir=self.dir, prefix="meta")
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m", "-Xmx" + heap, "-cp", TLA_CP, "tlc2.TLC",
               "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg] + list(args) + [module]
        try:
            r = subprocess.run(cmd, cwd=cwd or SPEC, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on %s/%s" % (module, cfg))
        finally:
            shutil.rmtree(meta, True)
        return r.returncode, r.stdout + r.stderr

    def model_check(self, module, cfg, env=None, timeout=700, workers=4, heap="6g", args=()):
        """Exhaustive check of the design; a failure is an error of the machinery."""
        t = time.time()
        rc, out = self.tlc(module, cfg, env=env, timeout=timeout, workers=workers, heap=heap, args=list(args))
        if rc != 0:
            raise Broken("design model %s/%s is not clean (rc %d):\n%s" % (module, cfg, rc, (out[max(0, out.find("Error:")):][:1500] + " ... " + out[-1500:])))
        m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
        if not m:
            raise Broken("no state count from TLC on %s:\n%s" % (cfg, out[-2000:]))
        gen, dist = int(m[-1][0]), int(m[-1][1])
        self.states += dist
        self.transitions += gen
        self.model_runs.append({"module": module, "config": cfg, "distinct_states": dist,
                                "states_generated": gen, "wall_s": round(time.time() - t, 1)})
        return out

    def model_must_fail(self, module, cfg, what, env=None, timeout=300, workers=2, rcs=(12, 13)):
        """A deliberately broken design must be refuted (guards against vacuity)."""
        rc, out = self.tlc(module, cfg, env=env, timeout=timeout, workers=workers)
        if rc not in rcs or what not in out:
            raise Broken("broken design %s/%s was not refuted (rc %d):\n%s" % (module, cfg, rc, out[-3000:]))
        self.notes.setdefault("refuted_mutant_designs", []).append(cfg)

    def designs(self, right, wrong=()):
        """Several design models at once: [(module, cfg)] have to hold, [(module, cfg, what)] have to be refuted."""
        import concurrent.futures
        with concurrent.futures.ThreadPoolExecutor(3) as pool:
            fs = [pool.submit(self.model_check, m, c, timeout=900 if self.thorough else 400, workers=3) for m, c in right]
            fs += [pool.submit(self.model_must_fail, m, c, w) for m, c, w in wrong]
            for f in fs:
                f.result()

    def generate(self, module, cfg, num=None, depth=None, env=None, timeout=300, seed=None, exhaustive=False):
        """Behaviours printed by the specification as @@<json> lines."""
        args = []
        if not exhaustive:
            # TLC's -seed gives the same behaviours for the same seed
            args = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed if seed is not None else self.seed)]
        rc, out = self.tlc(module, cfg, env=env, args=args + ["-deadlock"], timeout=timeout)
        lines = []
        for l in out.splitlines():
            l = l.strip()
            if l.startswith('"@@') and l.endswith('"'):
                lines.append(json.loads(tla_unquote(l)[2:]))
        if rc != 0 or not lines:
            raise Broken("behaviour generation from %s failed (rc %d):\n%s" % (cfg, rc, out[-3000:]))
        if exhaustive:
            m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
            if m:
                self.states += int(m[-1][1])
                self.transitions += int(m[-1][0])
                self.model_runs.append({"module": module, "config": cfg, "distinct_states": int(m[-1][1]),
                                        "states_generated": int(m[-1][0])})
        return lines

    def judge(self, module, cfg, tracefile, env=None, timeout=700, heap="3g", args=()):
        """None if the specification accepts the trace, else the 1-based line it refuses."""
        n = sum(1 for _ in open(tracefile))
        if n == 0:
            raise Broken("empty trace " + tracefile)
        e = {"TRACE": tracefile}
        e.update(env or {})
        rc, out = self.tlc(module, cfg, env=e, timeout=timeout, heap=heap, args=["-deadlock"] + list(args))
        m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
        if m:
            self.states += int(m[-1][1])
            self.transitions += int(m[-1][0])
        acc = re.search(r'<<"ACCEPTED", (\d+)>>', out)
        rej = re.search(r'<<"REJECTED", (\d+)>>', out)
        if rc == 0 and acc and int(acc.group(1)) == n:
            return None
        if rej and rc in (0, 10, 11, 12, 13) or (rej and "Postcondition" in out):
            self.last_tlc = out
            return int(rej.group(1))
        raise Broken("TLC gave no verdict on %s (rc %d):\n%s" % (tracefile, rc, (out[max(0, out.find("Error:")):][:1500] + " ... " + out[-1500:])))

    def judge_sharded(self, module, cfg, segments, name, shards=4, env=None, timeout=700, heap="2g", stop_after=3):
        """segments: list of lists of event dicts, each starting with a reset-like event.
        Returns list of (segment, index of the refused event)."""
        segs = list(segments)
        buckets = [[] for _ in range(max(1, min(shards, len(segs))))]
        load = [0] * len(buckets)
        for s in sorted(segs, key=len, reverse=True):
            i = load.index(min(load))
            buckets[i].append(s)
            load[i] += len(s)
        bad = []

        def one(bi):
            b = buckets[bi]
            got = []
            while b and len(got) < stop_after:
                f = self.path("%s.%d.ndjson" % (name, bi))
                with open(f, "w") as fh:
                    for s in b:
                        for ev in s:
                            fh.write(json.dumps(ev, ensure_ascii=True) + "\n")
                line = self.judge(module, cfg, f, env=env, timeout=timeout, heap=heap)
                if line is None:
                    break
                pos = 0
                for si, s in enumerate(b):
                    if line <= pos + len(s):
                        got.append((s, line - pos - 1))
                        b = b[si + 1:]
                        break
                    pos += len(s)
                else:
                    raise Broken("refused line outside the trace")
            return got
        with concurrent.futures.ThreadPoolExecutor(len(buckets)) as ex:
            for r in ex.map(one, range(len(buckets))):
                bad += r
        self.traces += len(segs)
        return bad

    # ---- verdict -------------------------------------------------------------
    def violation(self, what, data, suffix="json"):
        if len(self.violations) >= 3:       # three replays are enough
            self.more = getattr(self, "more", 0) + 1
            return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d-%d.%s" % (self.prop, self.seed, len(self.violations) + 1, suffix))
        with open(p, "w") as f:
            if isinstance(data, str):
                f.write(data)
            else:
                json.dump({"property": self.prop, "what": what, "data": data}, f, indent=1)
        self.violations.append((what, p))

    def report_bad(self, bad, describe=None):
        for seg, i in bad:
            ev = seg[i]
            what = describe(seg, i) if describe else "event %d not allowed by the specification: %s" % (i, json.dumps(ev)[:600])
            self.violation(what, {"refused_event_index": i, "refused_event": ev, "segment": seg[:i + 1]})

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def finish(self, level="model_checking"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples,
               "model_runs": self.model_runs}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, p in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  " + what[:500].replace("\n", " "))
        print("%s %s seed=%d: %d states, %d transitions, %d traces, %.1fs -> %s" % (
            self.prop, self.tier, self.seed, self.states, self.transitions, self.traces, time.time() - self.t0,
            "VIOLATED" if self.violations else "held"))
        sys.stdout.flush()
        return 1 if self.violations else 0


def tla_unquote(l):
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t"}.get(m.group(1), m.group(1)), l[1:-1])


def read_nd(path):
    return [json.loads(l) for l in open(path)]


def write_nd(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, ensure_ascii=True) + "\n")


def segments(rows, first="reset"):
    out = []
    for r in rows:
        if r.get("ev") == first:
            out.append([])
        out[-1].append(r)
    return out
