"""Shared machinery: build a harness, run scripts through the real code, let TLC judge the recorded traces."""
import json, os, random, re, resource, shutil, subprocess, sys, tempfile, time, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(ROOT, "specs")
EVID = os.path.join(ROOT, "evidence")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"


# What TLC says when evaluating an invariant on a record has no result: in trace validation the record is not one the specification describes.
EVAL_ERRORS = ("Attempted to ", "out of the domain", "which is not in the domain", "CHOOSE x \\in S: P, but no element", "CASE conditions", "no element of S satisfied", "Overflow", "was not in the domain")
INFRA = ("OutOfMemoryError", "StackOverflowError", "Parsing or semantic analysis failed", "GC overhead", "NoClassDefFoundError", "Java heap space", "FileNotFoundException")


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, data):
        super().__init__(what)
        self.what, self.data = what, data


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random(f"{prop}/{seed}")
        self.t0 = time.time()
        base = os.path.join(ROOT, ".tmp")
        os.makedirs(base, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix=f"{prop}-", dir=base)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "models": []}
        self.events = 0
        self.generated = 0
        self.samples = []
        self.notes = []
        self.known = []

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        return os.path.join(self.tmp, name)

    def finding(self, key, shown, data=None):
        """A defect of the real code, demonstrated just now: listed in known-findings.txt, or a violation."""
        if not shown:
            return
        with open(os.path.join(ROOT, "known-findings.txt")) as f:
            for l in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == self.prop and m.group(2) == key:
                    t = f"key={key} {m.group(3)}"
                    if t not in self.known:
                        self.known.append(t)
                    return
        raise Violation(f"the real code fails on {key}", {"key": key, "script": data})

    def probe(self, exe, mode, script, seconds=4):
        """Run one script on its own: "crash", "hang" or its result."""
        inp, out = self.path("probe.in"), self.path("probe.trace")
        with open(inp, "w") as f:
            f.write(json.dumps(script) + "\n")
        try:
            p = subprocess.run([exe, mode, inp, out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=seconds, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30)))
        except subprocess.TimeoutExpired:
            return "hang"
        return "crash" if p.returncode else json.loads(open(out).read())

    # ---- building and running the real code
    def build(self, crate, features=()):
        env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        d = os.path.join(ROOT, "harness", crate)
        target = os.path.join(d, "target")
        cmd = ["cargo", "build", "--offline", "--locked", "--target-dir", target]
        if features:
            cmd += ["--features", ",".join(features)]
        p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if p.returncode != 0:
            raise ToolError("harness does not build:\n" + p.stdout[-6000:])
        return os.path.join(target, "debug", crate)

    def drive(self, exe, mode, scripts, name=None, timeout=None):
        """Run scripts (list of json) through the harness; returns the path of the trace file and its lines."""
        name = name or mode
        inp, out = self.path(name + ".in"), self.path(name + ".trace")
        with open(inp, "w") as f:
            for s in scripts:
                f.write(json.dumps(s, separators=(",", ":")) + "\n")
        try:
            p = subprocess.run([exe, mode, inp, out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout or self.n(240, 1800))
            rc = p.returncode
            err = p.stderr.decode("utf8", "replace")[-800:]
        except subprocess.TimeoutExpired:
            rc, err = "timeout", ""
        if rc != 0:
            cur = None
            for ext in (".stuck", ".current"):
                if os.path.exists(out + ext):
                    try:
                        cur = json.loads(open(out + ext, errors="replace").read().split("\n")[0])
                    except Exception:
                        cur = open(out + ext, errors="replace").read()[:2000]
                    break
            if rc == 97:
                raise Violation("the real code does not terminate on this script", {"mode": mode, "script": cur})
            if isinstance(rc, int) and rc < 0:
                raise Violation(f"the real code crashed (signal {-rc}) on this script", {"mode": mode, "script": cur, "stderr": err})
            raise ToolError(f"harness {mode} failed rc={rc}: {err} script={str(cur)[:500]}")
        lines = open(out).read().splitlines()
        if len(lines) != len(scripts):
            raise ToolError(f"harness {mode}: {len(lines)} results for {len(scripts)} scripts")
        return out, lines

    # ---- TLC
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=None, dead=True, extra=(), mem="6g"):
        cfg = cfg or module + ".cfg"
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xmx" + mem, "-Xss256m", "-XX:+UseParallelGC", "-cp", JAR + ":" + CM, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg]
        if not dead:
            cmd.append("-deadlock")
        cmd += list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout or self.n(400, 5400))
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module}/{cfg}")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        o = p.stdout.decode("utf8", "replace")
        r = {"out": o, "ok": p.returncode == 0 and "No error has been found" in o, "rc": p.returncode}
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", o)
        if m:
            r["states"], r["distinct"] = int(m[-1][0]), int(m[-1][1])
            self.cov["states"] += r["distinct"]
            self.cov["transitions"] += r["states"]
        m = re.search(r"Invariant (\w+) is violated", o)
        r["inv"] = m.group(1) if m else None
        r["dead"] = "Deadlock reached" in o
        if not r["ok"] and not r["inv"] and not r["dead"]:
            m = re.search(r"Temporal properties were violated|Action property (\w+)", o)
            if m:
                r["inv"] = "temporal"
            elif any(x in o for x in EVAL_ERRORS) and not any(x in o for x in INFRA):
                r["inv"] = "the recorded event is outside the domain of the specification"
            else:
                raise ToolError(f"TLC failed on {module}/{cfg} rc={p.returncode}:\n" + o[-5000:])
        return r

    def model(self, module, cfg=None, **kw):
        """Exhaustively check a design specification; a violation here is an error of the specification itself."""
        r = self.tlc(module, cfg, **kw)
        if not r["ok"]:
            raise ToolError(f"design model {module}/{cfg} violated: {r['inv'] or 'deadlock'}\n" + r["out"][-6000:])
        self.cov["models"].append({"module": module, "cfg": cfg or module + ".cfg", "states": r.get("states"), "distinct": r.get("distinct")})

    def gen(self, module, cfg=None, **kw):
        """Enumerate behaviours: TLC prints one line `"@@<json>"` per generated script."""
        kw.setdefault("workers", 1)
        r = self.tlc(module, cfg, **kw)
        if not r["ok"]:
            raise ToolError(f"generator {module} failed\n" + r["out"][-4000:])
        res = []
        for l in r["out"].splitlines():
            if l.startswith('"@@'):
                res.append(json.loads(json.loads(l)[2:]))
        if not res:
            raise ToolError(f"generator {module} printed nothing\n" + r["out"][-3000:])
        self.generated += len(res)
        self.cov["models"].append({"module": module, "cfg": cfg or module + ".cfg", "states": r.get("states"), "distinct": r.get("distinct")})
        return res

    def validate(self, module, trace, lines, cfg=None, mode=None, var="r", chunk=None, env=None, weight=None, scripts=None):
        """Check recorded traces against the trace specification (one record per line)."""
        chunk = chunk or 20000
        for c in range(0, len(lines), chunk):
            part = lines[c:c + chunk]
            path = trace
            if len(lines) > chunk:
                path = self.path(f"chunk{c}.ndjson")
                with open(path, "w") as f:
                    f.write("\n".join(part) + "\n")
            e = {"TRACE": path}
            e.update(env or {})
            r = self.tlc(module, cfg, env=e)
            if not r["ok"]:
                rec = None
                m = re.findall(r"^(?:/\\ )?" + var + r" = (\d+)", r["out"], re.M)
                if m:
                    rec = json.loads(part[int(m[-1]) - 1])
                if rec is None:
                    rec = self.locate(module, cfg, e, part)
                data = {"module": module, "mode": mode, "record": rec, "invariant": r["inv"]}
                if scripts and rec is not None:
                    k = next((i for i, l in enumerate(part) if json.loads(l) == rec), None)
                    if k is not None:
                        data["script"] = scripts[c + k]
                tail = r["out"]
                i = tail.find("Error:")
                raise Violation(f"recorded behaviour is not allowed by {module}: {r['inv'] or 'no action of the specification matches the recorded event'}",
                                {**data, "tlc": tail[i:i + 3000]})
            if path != trace:
                os.remove(path)
            self.cov["traces_validated_against_impl"] += len(part)
            self.events += sum(weight(json.loads(l)) for l in part) if weight else len(part)

    def locate(self, module, cfg, env, part):
        """TLC does not name the record when evaluating an initial state fails: search for it."""
        path = self.path("locate.ndjson")
        end = time.time() + 90
        while len(part) > 1 and time.time() < end:
            half = part[:len(part) // 2]
            with open(path, "w") as f:
                f.write("\n".join(half) + "\n")
            try:
                bad = not self.tlc(module, cfg, env={**env, "TRACE": path})["ok"]
            except ToolError:
                return None
            part = half if bad else part[len(part) // 2:]
        return json.loads(part[0]) if len(part) == 1 else None

    def check(self, exe, mode, module, scripts, cfg=None, name=None, **kw):
        """drive + validate"""
        trace, lines = self.drive(exe, mode, scripts, name=name)
        if lines:
            k = min(len(lines), 3)
            for i in self.rng.sample(range(len(lines)), k):
                if len(self.samples) < 12:
                    self.samples.append(json.loads(lines[i]) if len(lines[i]) < 3000 else {"truncated": lines[i][:1500]})
        self.validate(module, trace, lines, cfg=cfg, mode=mode, scripts=scripts, **kw)
        return lines

    # ---- results
    def evidence(self, level, what, bounds):
        os.makedirs(EVID, exist_ok=True)
        cov = dict(self.cov)
        cov["samples"] = self.samples
        if self.events != cov["traces_validated_against_impl"]:
            cov["events_validated"] = self.events
        if self.generated:
            cov["scripts_generated_by_tlc"] = self.generated
        cov["what"] = what
        cov["bounds"] = bounds
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        if self.known:
            cov["known_findings"] = self.known
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        try:
            os.rmdir(os.path.join(ROOT, ".tmp"))
        except OSError:
            pass


def main(checks, argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = checks[prop]
    ctx = Ctx(prop, tier, seed)
    rc = 2
    try:
        c["run"](ctx)
        rc = 0
        for k in ctx.known:
            print(f"KNOWN-FINDING: property={prop} {k}")
        print(f"OK property={prop} tier={tier} traces={ctx.cov['traces_validated_against_impl']} states={ctx.cov['states']} wall={time.time() - ctx.t0:.1f}s")
    except Violation as v:
        os.makedirs(EVID, exist_ok=True)
        blob = json.dumps({"property": prop, "what": v.what, "seed": seed, "tier": tier, **v.data}, indent=1)
        p = os.path.join(EVID, f"replay-{prop}-{hashlib.sha1(blob.encode()).hexdigest()[:10]}.json")
        with open(p, "w") as f:
            f.write(blob + "\n")
        print(v.what)
        for k in v.data:
            print(f"  {k}: " + (v.data[k] if isinstance(v.data[k], str) else json.dumps(v.data[k], separators=(",", ":")))[:1600])
        print(f"VIOLATION property={prop} replay={p}")
        rc = 1
        ctx.samples.append({"violation": v.what})
    except ToolError as e:
        print(f"TOOL-ERROR property={prop}: {e}")
        rc = 2
    finally:
        try:
            ctx.evidence(c["level"], c["what"], c["bounds"])
        finally:
            ctx.close()
    return rc
