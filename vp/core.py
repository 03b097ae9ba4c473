"""Common machinery of the checks: building drivers from /repo's working tree,
running TLC, keeping evidence, reporting violations.

A check ends in exactly three ways:
  exit 0                 the property held on everything explored
  exit 1 + VIOLATION     a violation, confirmed by a second run
  exit 3                 the check itself could not give an answer
"""
import os, sys, json, time, hashlib, subprocess, shutil, tempfile, re, random, atexit, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRIVERS = os.path.join(VERIF, "drivers")
CACHE = os.path.join(VERIF, ".build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BASE_FLAGS = ["-std=gnu++98", "-pipe", "-D_LARGEFILE64_SOURCE", "-w",
              "-I" + REPO, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "daemon"),
              "-I" + DRIVERS]
LIBS = ["-lboost_system", "-lboost_thread", "-lpthread", "-lstatgrab", "-lboost_filesystem",
        "-lboost_iostreams", "-lboost_date_time", "-lz"]
JOBS = int(os.environ.get("VP_JOBS", "8"))


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ---------------------------------------------------------------- building

_hdr_hash = None


def _headers_hash():
    global _hdr_hash
    if _hdr_hash is None:
        h = hashlib.sha256()
        for d in ("include/istat", "daemon", "lib", "."):
            full = os.path.join(REPO, d)
            for f in sorted(os.listdir(full)):
                if f.endswith((".h", ".inl", ".hpp")):
                    h.update(f.encode())
                    h.update(open(os.path.join(full, f), "rb").read())
        for f in sorted(os.listdir(DRIVERS)):
            if f.endswith(".h"):
                h.update(open(os.path.join(DRIVERS, f), "rb").read())
        _hdr_hash = h.hexdigest()
    return _hdr_hash


def _obj(src, flags):
    h = hashlib.sha256()
    h.update(_headers_hash().encode())
    h.update(" ".join(flags).encode())
    h.update(src.encode())
    h.update(open(src, "rb").read())
    out = os.path.join(CACHE, "obj", h.hexdigest()[:32] + ".o")
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    r = sh(["g++"] + flags + ["-c", src, "-o", tmp], cwd=REPO)
    if r.returncode != 0:
        raise CheckError("cannot compile %s:\n%s" % (src, "\n".join(l for l in r.stdout.splitlines() if "error" in l)[-4000:]))
    os.rename(tmp, out)
    return out


def repo_sources(*dirs, exclude=("main.cpp",)):
    out = []
    for d in dirs:
        full = os.path.join(REPO, d)
        for f in sorted(os.listdir(full)):
            if f.endswith(".cpp") and f not in exclude:
                out.append(os.path.join(full, f))
    return out


SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]


def build(name, sources, opt=("-O0", "-g1"), san=True, extra=()):
    """Compile sources and link them into an executable, from /repo's current tree."""
    flags = BASE_FLAGS + list(opt) + (SAN if san else []) + list(extra)
    with ThreadPoolExecutor(JOBS) as ex:
        # the longest ones first
        fut = {s: ex.submit(_obj, s, flags) for s in sorted(sources, key=lambda s: (s.startswith(REPO + "/lib"), -os.path.getsize(s)))}
        objs = [fut[s].result() for s in sources]
    h = hashlib.sha256(("".join(objs) + " ".join(flags)).encode()).hexdigest()[:24]
    exe = os.path.join(CACHE, "bin", name + "-" + h)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh(["g++"] + flags + objs + ["-o", tmp] + LIBS)
        if r.returncode != 0:
            raise CheckError("cannot link %s:\n%s" % (name, r.stdout[-4000:]))
        os.rename(tmp, exe)
    return exe


def lib_driver(name, **kw):
    """A driver that needs lib/ only (plus IRecorder helpers)."""
    return build(name, [os.path.join(DRIVERS, name + ".cpp")] + repo_sources("lib", exclude=("main.cpp",)), **kw)


# parts of the daemon a driver does without; if the code has come to need one after all, everything is built
_UPPER = {"HttpServer.cpp", "RequestInFlight.cpp", "AdminServer.cpp", "Settings.cpp", "PduProtocol.cpp", "ReplicaOf.cpp",
          "ReplicaPdus.cpp", "ReplicaServer.cpp", "Argument.cpp", "PromServer.cpp"}
_SERVER = {"StatServer.cpp", "EagerConnection.cpp", "EagerConnectionFactory.cpp", "Blacklist.cpp", "PromExporter.cpp", "Bucketizer.cpp"}
_PDU = {"AdminServer.cpp", "PduProtocol.cpp", "ReplicaOf.cpp", "ReplicaPdus.cpp", "ReplicaServer.cpp", "Argument.cpp", "PromServer.cpp"}
_WORKERS = {"DeleteCountersWorker.cpp", "DeletePatternsWorker.cpp"}
WITHOUT = {"drv_counter": _UPPER | _SERVER | _WORKERS, "drv_store": _UPPER | _SERVER | _WORKERS, "drv_server": _UPPER,
           "drv_conn": _UPPER | _WORKERS,
           "drv_http": _PDU, "drv_settings": _PDU}


def daemon_driver(name, **kw):
    sources = [os.path.join(DRIVERS, name + ".cpp")] + repo_sources("lib", "daemon")
    skip = WITHOUT.get(name, set())
    if skip:
        try:
            return build(name, [s for s in sources if os.path.basename(s) not in skip], **kw)
        except CheckError as x:
            if "cannot link" not in str(x):
                raise
    return build(name, sources, **kw)


def tool(name, san=False):
    return build(name, [os.path.join(REPO, "tool", name + ".cpp")] + repo_sources("lib", "daemon"), opt=("-O0", "-g1"), san=san)


def daemon_binary(san=False):
    return build("istatd", [os.path.join(REPO, "daemon", "main.cpp")] + repo_sources("lib", "daemon"), opt=("-O0", "-g1"), san=san)


# ---------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self):
        self.ok = False
        self.violation = False
        self.states = 0          # generated
        self.distinct = 0
        self.depth = 0
        self.output = ""
        self.error = ""
        self.actions = {}


def tlc(module, cfg, workdir, workers=None, heap="4g", timeout=800, simulate=None, depth=None, seed=None,
        coverage=False, env=None, dfs_queue=False, deadlock_ok=True, extra=()):
    """Run TLC on SPEC/module.tla with the given cfg (path, or text)."""
    os.makedirs(workdir, exist_ok=True)
    if "\n" in cfg:
        cfgp = os.path.join(workdir, module + "_%d.cfg" % random.SystemRandom().randrange(1 << 30))
        open(cfgp, "w").write(cfg)
    else:
        cfgp = os.path.join(SPEC, cfg)
    meta = tempfile.mkdtemp(prefix="meta", dir=workdir)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + meta]
    if dfs_queue:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-config", cfgp,
            "-workers", str(workers or JOBS)]
    if deadlock_ok:
        cmd.append("-deadlock")
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
    if depth:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(extra)
    cmd.append(os.path.join(SPEC, module + ".tla"))
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=timeout, cwd=workdir, env=e)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.output = out
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    if m:
        r.states = int(m[-1][0].replace(",", ""))
        r.distinct = int(m[-1][1].replace(",", ""))
    else:
        m = re.findall(r"The number of states generated: (\d+)", out)
        if m:
            r.states = int(m[-1])
    m = re.findall(r"depth of the complete state graph search is (\d+)", out)
    if m:
        r.depth = int(m[-1])
    for m in re.finditer(r"^<(\w+) line \d+.*?>: (\d+):(\d+)", out, re.M):
        a = r.actions.setdefault(m.group(1), [0, 0])
        a[0] = max(a[0], int(m.group(2)))
        a[1] = max(a[1], int(m.group(3)))
    if re.search(r"Error: (Invariant|Action property|Temporal propert|The postcondition|Property)", out) or \
       "is violated" in out:
        r.violation = True
    elif "Model checking completed. No error has been found" in out or \
         (simulate and "Error:" not in out and rc == 0):
        r.ok = True
    else:
        r.error = out[-6000:]
    return r


def tlc_counterexample(out):
    """The last state TLC printed, as text."""
    i = out.rfind("\nState ")
    j = out.find("\n\n", i + 1)
    return out[i:j if j > 0 else None].strip()


# ---------------------------------------------------------------- checks

class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        self.work = tempfile.mkdtemp(prefix="vp-%s-" % prop, dir=base)
        os.chmod(self.work, 0o755)
        atexit.register(lambda: shutil.rmtree(self.work, ignore_errors=True))
        self.known = load_known(prop)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, *p):
        full = os.path.join(self.work, *p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        return full

    def log(self, msg):
        print("[%s %6.1fs] %s" % (self.prop, time.time() - self.t0, msg), flush=True)

    def add_states(self, r):
        self.cov["states"] += r.distinct or r.states
        self.cov["transitions"] += r.states

    def model_check(self, module, cfg, name=None, expect_actions=(), **kw):
        """Exhaustive check of the design. A failure here is an error of the model, not of the code."""
        r = tlc(module, cfg, self.path("mc", "x")[:-2], coverage=bool(expect_actions), **kw)
        self.add_states(r)
        if not r.ok:
            raise CheckError("model %s does not satisfy its own properties:\n%s" % (module, r.output[-5000:]))
        for a in expect_actions:
            if r.actions.get(a, [0, 0])[1] == 0 and r.actions.get(a, [0, 0])[0] == 0:
                raise CheckError("model %s: action %s is never taken (vacuous)" % (module, a))
        self.cov.setdefault("models", []).append(
            {"module": module, "config": name or (cfg if "\n" not in cfg else "inline"), "distinct": r.distinct,
             "generated": r.states, "depth": r.depth,
             "actions": {k: v[1] or v[0] for k, v in r.actions.items()} if expect_actions else {}})
        self.log("model %s (%s): %d distinct states, depth %d" % (module, name or "", r.distinct, r.depth))
        return r

    def model_refutes(self, module, cfg, invariant, name):
        """The model with one mechanism left out must break the invariant: the check of it is not vacuous."""
        r = tlc(module, cfg, self.path("mc", "x")[:-2])
        self.add_states(r)
        if not r.violation or invariant not in r.output:
            raise CheckError("model %s (%s): %s was expected to fail\n%s" % (module, name, invariant, r.output[-3000:]))
        self.cov.setdefault("refuted_without_mechanism", []).append({"module": module, "without": name, "invariant": invariant})

    # -- violations
    def violation(self, what, replay_obj, signature=""):
        """Record a (confirmed) violation. `signature` identifies the failing input for known findings."""
        for k in self.known:
            if k["match"] and k["match"] in signature:
                self.known_hits.append(k)
                return False
        d = os.path.join(VERIF, "out", self.prop)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "violation-%d-%d.json" % (self.seed, len(self.violations)))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "signature": signature, "replay": replay_obj}, f, indent=1, default=str)
        self.violations.append((what, p))
        return True

    def finish(self):
        for k in {x["match"]: x for x in self.known_hits}.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            for what, p in self.violations[:5]:
                print("  " + what.replace("\n", "\n  ")[:3000])
            for what, p in self.violations[:5]:
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            sys.stdout.flush()
            return 1
        self.log("held; states=%d traces=%d" % (self.cov.get("states", 0), self.cov.get("traces_validated_against_impl", 0)))
        return 0


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) match=\[\[(.*?)\]\] (.*)", line)
            if m and m.group(1) == prop:
                out.append({"match": m.group(2), "what": m.group(3)})
    return out


# ---------------------------------------------------------------- running drivers

def run_driver(exe, text, timeout=120, env=None, args=(), cwd=None):
    """Feed the program text to the driver; return (rc, list of json lines, stderr)."""
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"
    e["TZ"] = "UTC"
    e.update(env or {})
    p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd)
    try:
        so, se = p.communicate(text.encode() if isinstance(text, str) else text, timeout=timeout)
    except subprocess.TimeoutExpired:
        try:    # where it hangs
            kids = sh(["pgrep", "-P", str(p.pid)]).stdout.split()
            bt = sh(["gdb", "-p", (kids or [str(p.pid)])[-1], "-batch", "-ex", "thread apply all bt 14"], timeout=60).stdout
        except Exception as x:
            bt = str(x)
        p.kill()
        so, se = p.communicate()
        return ("timeout", _lines(so), se.decode(errors="replace")[-500:] + "\nHANGS AT\n" + bt)
    return (p.returncode, _lines(so), se.decode(errors="replace"))


def _lines(b):
    out = []
    for l in b.decode(errors="replace").splitlines():
        if l.startswith("{"):
            try:
                out.append(json.loads(l))
            except ValueError:
                out.append({"unparsable": l})
    return out


def main(fn, prop, level="model_checking"):
    c = Check(prop, level)
    try:
        fn(c)
        rc = c.finish()
    except CheckError as x:
        print("CHECK-ERROR %s: %s" % (prop, x))
        rc = 3
        if c.violations:
            rc = c.finish()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 3
        if c.violations:
            rc = c.finish()
    sys.stdout.flush()
    shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)
