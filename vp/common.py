"""Building the code under test, running TLC, replaying behaviours, reporting."""
import threading, concurrent.futures as cf
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
EVID = os.path.join(ROOT, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 4)


class Broken(Exception):
    """The check itself could not do its work (neither held nor violated)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# --------------------------------------------------------------------- build
def _walk(d, ext):
    for p, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(ext):
                yield os.path.join(p, f)


LIBDIR = os.path.join(REPO, "src/DRAMPower/DRAMPower")
CLIDIR = os.path.join(REPO, "src/cli/lib")
CLIMAIN = os.path.join(REPO, "src/cli/main")
INC = ["-I" + os.path.join(REPO, "src/DRAMPower"), "-I" + os.path.join(ROOT, "shim/include"), "-I" + os.path.join(REPO, "lib")]
CFLAGS = ["-std=c++17", "-O0", "-g0", "-DNDEBUG", "-w"]


def targets(name):
    """sources, extra flags of a driver"""
    lib = [f for f in _walk(LIBDIR, ".cpp")]
    drv = os.path.join(ROOT, "driver")
    if name == "sim":
        return lib + [drv + "/sim.cpp"], []
    if name == "util":
        names = ("command/Command.cpp", "command/Pattern.cpp", "util/extensions.cpp", "util/bus.cpp", "standards/lpddr6/LPDDR6Command.cpp",
                 "standards/lpddr6/LPDDR6Pattern.cpp", "dram/Interface.cpp", "dram/Rank.cpp", "data/energy.cpp")
        return [f for f in lib if any(f.endswith(n) for n in names)] + [drv + "/util.cpp"], []
    if name == "cli":
        cli = list(_walk(CLIDIR, ".cpp")) + list(_walk(CLIMAIN, ".cpp"))
        return lib + cli + [drv + "/cli.cpp"], ["-I" + CLIDIR, "-I" + CLIMAIN, "-DDRAMPOWER_VERSION_STRING=\"5\""]
    raise Broken("no target " + name)


def build(name, flags=None, cxx="g++"):
    """Compile a driver with the sources of the working tree; returns the binary."""
    t0 = time.time()
    srcs, extra = targets(name)
    flags = (flags or CFLAGS) + extra + INC
    h = hashlib.sha256((cxx + " ".join(flags)).encode())
    deps = list(_walk(os.path.join(REPO, "src"), (".cpp", ".h", ".hpp"))) + list(_walk(os.path.join(ROOT, "shim"), ".h")) + \
        list(_walk(os.path.join(ROOT, "driver"), (".cpp", ".h")))
    for f in deps:
        h.update(f.encode()); h.update(open(f, "rb").read())
    key = h.hexdigest()[:20]
    out = os.path.join(BUILD, f"{name}-{key}")
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    old = sorted((f for f in os.listdir(BUILD) if f.startswith(name + "-") and not f.endswith(".d")), key=lambda f: os.path.getmtime(os.path.join(BUILD, f)))
    for f in old[:-6]:
        try: os.remove(os.path.join(BUILD, f))
        except OSError: pass
    work = tempfile.mkdtemp(prefix=f"{name}-", suffix=".d", dir=BUILD)
    try:
        for attempt in ("", "-all") if name == "util" else ("",):
            if attempt:      # the component's code has moved to other files: take them all
                srcs = list(_walk(LIBDIR, ".cpp")) + [os.path.join(ROOT, "driver", "util.cpp")]
            try:
                return _compile(name, cxx, flags, srcs, work, out, t0)
            except Broken:
                if name != "util" or attempt: raise
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _compile(name, cxx, flags, srcs, work, out, t0):
    def one(i_f):
        i, f = i_f
        o = os.path.join(work, f"{i}.o")
        r = subprocess.run([cxx, *flags, "-c", f, "-o", o], capture_output=True, text=True)
        if r.returncode:
            raise Broken(f"{f} does not compile:\n{r.stderr[:3000]}")
        return o
    jobs = sorted(enumerate(srcs), key=lambda x: 0 if "/driver/" in x[1] else 1)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(one, jobs))
    exe = os.path.join(work, "exe")
    src = [f for _, f in jobs]

    def link(pick, to):
        r = subprocess.run([cxx, *[f for f in flags if f.startswith("-fsan")], *[o for f, o in zip(src, objs) if pick(f)], "-o", exe, "-lpthread"]
                           + (["-lfmt"] if name == "cli" else []), capture_output=True, text=True)
        if r.returncode:
            raise Broken("driver does not link:\n" + r.stderr[:3000])
        os.replace(exe, to)
    if name == "cli":        # and the program itself
        link(lambda f: "/driver/" not in f, out + "-prog")
    link(lambda f: not f.startswith(CLIMAIN), out)
    log(f"[build] {name}: {time.time() - t0:.1f} s")
    return out


# --------------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self):
        self.docs = []; self.states = 0; self.distinct = 0; self.violated = None; self.out = ""; self.transitions = 0; self.depth = 0


def _tlc(args, env, timeout, heap="2g"):
    meta = tempfile.mkdtemp(prefix="tlc-", dir="/tmp")
    e = dict(os.environ); e.update({k: str(v) for k, v in env.items()})
    try:
        p = subprocess.Popen(["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseSerialGC", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
                              "-noGenerateSpecTE", "-metadir", meta + "/m", *args],
                             cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        timer = threading.Timer(timeout, lambda: os.killpg(p.pid, signal.SIGKILL)); timer.start()
        parts, size = [], 0
        try:
            while x := p.stdout.read(1 << 20):
                parts.append(x); size += len(x)
                if size > 1 << 30: os.killpg(p.pid, signal.SIGKILL); break      # an endless error report
            rc = p.wait()
        finally:
            timer.cancel()
        out = "".join(parts)
        return rc, out
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tlc_gen(module, env, num, depth, seed, timeout=400):
    """Simulation mode: behaviours printed by the module, one JSON document each."""
    args = ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed), "-workers", "1", "-config", module + ".cfg", module + ".tla"]
    for attempt in range(2):
        rc, out = _tlc(args, env, timeout)
        r = TLCResult(); r.out = out
        for line in out.splitlines():
            if line.startswith('"'):
                r.docs.append(json.loads(json.loads(line)))
            elif line.startswith("The number of states generated:"):
                r.states = int(line.split(":")[1].replace(",", ""))
        if r.docs and rc == 0:
            return r
    raise Broken(f"TLC produced no behaviours for {module} {env} (rc {rc}):\n" + "\n".join(l for l in out.splitlines() if not l.startswith(("Pars", "Sem", "Prog")))[-3000:])


def tlc_check(module, cfg, env=None, workers=4, timeout=600, heap="6g", expect_violation=False, extra=()):
    """Exhaustive check of a finite instance."""
    import re
    args = ["-workers", str(workers), "-config", cfg, *extra, module + ".tla"]
    rc, out = _tlc(args, env or {}, timeout, heap)
    r = TLCResult(); r.out = out
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m:
        r.transitions = int(m[-1][0].replace(",", "")); r.distinct = int(m[-1][1].replace(",", ""))
    r.states = r.distinct
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m: r.depth = int(m.group(1))
    if "Model checking completed. No error has been found." in out:
        return r
    m = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated|Deadlock reached", out)
    if m:
        r.violated = m.group(0)
        return r
    raise Broken(f"TLC failed on {module}/{cfg} (rc {rc}):\n" + "\n".join(l for l in out.splitlines() if not l.startswith(("Pars", "Sem", "Lint")))[-3000:])


# --------------------------------------------------------------------- replay
def run_driver(exe, lines, args=(), timeout=None):
    """Feed behaviours (list of JSON-able objects with unique 'id'); returns {id: result}.
    A behaviour that kills the driver gets {"crash": ...}."""
    res = {}
    run = ["sh", "-c", 'ulimit -v 6291456; exec "$0" "$@"', exe, *args]      # a runaway run must not take the machine's memory
    if timeout is None: timeout = 700 if os.environ.get("VERIF_TIER") == "thorough" else 150

    def chunk(ls):
        got = {}
        deaths = 0
        todo = list(ls)
        while todo:
            p = subprocess.Popen(run, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            try:
                out, err = p.communicate("".join(json.dumps(l) + "\n" for l in todo).encode(), timeout=timeout)
                why = f"exit status {p.returncode}"
            except subprocess.TimeoutExpired:
                p.kill(); out, err = p.communicate()
                why = "no answer"
            n = 0
            for l in out.decode("utf-8", "replace").splitlines():
                try: o = json.loads(l)
                except ValueError: break
                got[o["id"]] = o; n += 1
            if n >= len(todo):
                if p.returncode:
                    got[todo[-1]["id"]] = {"crash": why + " " + err.decode("utf-8", "replace")[-500:]}
                break
            # isolate the behaviour that brought it down
            bad = todo[n]
            p = subprocess.Popen(run, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            try:
                out, err = p.communicate((json.dumps(bad) + "\n").encode(), timeout=30)
                why = f"exit status {p.returncode}"
            except subprocess.TimeoutExpired:
                p.kill(); out, err = p.communicate(); why = "no answer within 30 s"
            ls2 = out.decode("utf-8", "replace").splitlines()
            ok = False
            if ls2 and p.returncode == 0:
                try: got[bad["id"]] = json.loads(ls2[0]); ok = True
                except ValueError: pass
            if not ok:
                got[bad["id"]] = {"crash": why + " " + err.decode("utf-8", "replace")[-500:]}
                deaths += 1
            todo = todo[n + 1:]
            if deaths > 2:           # no need to see them all
                got.update({l["id"]: {"crash": "not tried after three crashes"} for l in todo})
                break
        return got

    if not lines:
        return res
    n = max(1, min(NPROC, len(lines) // 20 + 1))
    with cf.ThreadPoolExecutor(n) as ex:
        for g in ex.map(chunk, [lines[i::n] for i in range(n)]):
            res.update(g)
    return res


# --------------------------------------------------------------------- reporting
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = 0; self.transitions = 0; self.traces = 0; self.samples = 0
        self.detail = {}; self.violations = []; self.assumptions = []; self.sample_list = []
        self.known = load_known(prop)
        self.known_hit = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def add(self, key, n=1):
        self.detail[key] = self.detail.get(key, 0) + n

    def violation(self, what, replay_obj):
        """what: one line; replay_obj: everything needed to see it again"""
        self.violations.append((what, replay_obj))

    def finish(self):
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        paths = []
        for i, (what, obj) in enumerate(self.violations[:5]):
            p = os.path.join(EVID, "replay", f"{self.prop}-{i}.json")
            with open(p, "w") as f:
                json.dump({"property": self.prop, "what": what, "seed": self.seed, "replay": obj}, f, indent=1, default=str)
            paths.append(p)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "samples": self.sample_list[:8] or [self.samples], "detail": self.detail},
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations), "assumptions": self.assumptions}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        for (what, _), p in zip(self.violations[:5], paths):
            log(f"  {what}")
            print(f"VIOLATION property={self.prop} replay={p}")
        if not self.violations:
            log(f"[{self.prop}] held: {self.states} states, {self.traces} behaviours against the implementation, {time.time() - self.t0:.1f} s {self.detail}")
        return 1 if self.violations else 0


KNOWN = os.path.join(ROOT, "known_findings.txt")


def load_known(prop):
    """lines "finding: property=<id> key=<key> <what fails>" (lines "fixed: ..." suppress nothing)"""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("finding: property=%s " % prop):
                rest = l.strip().split(" ", 2)[2]
                key, what = rest.split(" ", 1)
                r[key[4:]] = what
    return r
