#!/usr/bin/env python3
"""mutate.py N [seed] [substring of file...]: N random small changes of the sources, each in a scratch copy; prints the ones no quick check reports.
Behaviours are generated once per seed and kept; only the replay runs per change."""
import concurrent.futures as cf, hashlib, os, pickle, random, re, shutil, subprocess, sys, time
N, SEED = (0, 1) if sys.argv[1] == "seeds" else (int(sys.argv[1]), int(sys.argv[2]) if len(sys.argv) > 2 else 1); FILES = sys.argv[3:]
W = os.environ.get("MUTDIR", "/tmp/mut"); K = os.environ.get("MUTID", "0"); COPY = f"{W}/w{K}"
os.makedirs(W + "/obj", exist_ok=True); os.makedirs(W + "/docs", exist_ok=True)
shutil.rmtree(COPY, ignore_errors=True); os.makedirs(COPY)
subprocess.run(["cp", "-a", "/repo/src", COPY + "/src"], check=True)
if os.path.isdir("/repo/lib"): os.symlink("/repo/lib", COPY + "/lib")
os.environ["VERIF_REPO"] = COPY
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vp import common as C, core, registry
C.BUILD = COPY + "/build"; os.makedirs(C.BUILD)
C.log = lambda *a: None

gen0, chk0 = C.tlc_gen, C.tlc_check


def cached(name, f):
    def g(*a, **k):
        mods, todo = set(), [a[0]]
        while todo:
            x = todo.pop()
            if x in mods or not os.path.exists(f"{C.SPEC}/{x}.tla"): continue
            mods.add(x)
            todo += re.findall(r"\w+", " ".join(re.findall(r"(?:EXTENDS|INSTANCE)([^\n]*(?:,\n[^\n]*)*)", open(f"{C.SPEC}/{x}.tla").read())))
        spec = b"".join(open(f"{C.SPEC}/{x}.tla", "rb").read() for x in sorted(mods)) + open(f"{C.SPEC}/{a[0]}.cfg", "rb").read()
        key = hashlib.sha256(pickle.dumps((name, a, sorted(k.items()))) + spec).hexdigest()[:24]
        p = f"{W}/docs/{key}"
        if not os.path.exists(p):
            r = f(*a, **k)
            r.out = ""
            with open(p + f".{os.getpid()}", "wb") as h: pickle.dump(r, h)
            os.replace(p + f".{os.getpid()}", p)
        with open(p, "rb") as h: return pickle.load(h)
    return g


if not os.environ.get("MUTLOOPS"): core.loops = lambda *a: None     # too slow here
C.tlc_gen = cached("gen", gen0); C.tlc_check = cached("check", chk0)


def h(path): return hashlib.sha256(open(path, "rb").read()).hexdigest()


def compile_cached(name, cxx, flags, srcs, work, out, t0):
    memo = {}

    def hh(p):
        if p not in memo: memo[p] = h(p)
        return memo[p]

    def one(f):
        ident = hashlib.sha256((f.replace(COPY, "") + " ".join(flags).replace(COPY, "")).encode()).hexdigest()[:20]
        idx = f"{W}/obj/{ident}.idx"
        cands = pickle.load(open(idx, "rb")) if os.path.exists(idx) else []
        for deps, o in cands:
            if all(os.path.exists(p.replace("@", COPY)) and hh(p.replace("@", COPY)) == d for p, d in deps) and os.path.exists(o): return o
        o = f"{W}/obj/{ident}-{os.getpid()}-{time.time_ns()}.o"
        r = subprocess.run([cxx, *flags, "-MMD", "-MF", o + ".d", "-c", f, "-o", o], capture_output=True, text=True)
        if r.returncode: raise C.Broken("does not compile: " + r.stderr[:300])
        ds = open(o + ".d").read().split(":", 1)[1].replace("\\\n", " ").split()
        deps = [(os.path.normpath(p).replace(COPY, "@"), hh(os.path.normpath(p))) for p in ds if not p.startswith("/usr/")]
        deps.sort(key=lambda x: not x[0].startswith("@"))
        cands = ([cands[0]] if cands else []) + [(deps, o)] + cands[1:3]
        with open(idx + f".{os.getpid()}", "wb") as g: pickle.dump(cands, g)
        os.replace(idx + f".{os.getpid()}", idx)
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sorted(srcs, key=lambda f: "/driver/" not in f)))
    src = sorted(srcs, key=lambda f: "/driver/" not in f)

    def link(pick, to):
        r = subprocess.run([cxx, *[o for f, o in zip(src, objs) if pick(f)], "-o", to, "-lpthread"] + (["-lfmt"] if name == "cli" else []), capture_output=True, text=True)
        if r.returncode: raise C.Broken("does not link: " + r.stderr[:300])
    if name == "cli": link(lambda f: "/driver/" not in f, out + "-prog")
    link(lambda f: not f.startswith(C.CLIMAIN), out)
    return out


C._compile = compile_cached


class Killed(Exception): pass


class Check(C.Check):
    def violation(self, what, obj): raise Killed(what)


def run(p):
    k = Check(p, "quick", 1)
    registry.CHECKS[p](k)


PAIRS = [("read", "write"), ("Read", "Write"), ("reads", "writes"), ("ones", "zeroes"), ("act", "pre"), ("Act", "Pre"), ("rank", "bank"), ("min", "max"), ("true", "false"), ("begin", "end"),
         ("start", "end"), ("first", "last"), ("push_back", "push_front"), ("front", "back"), ("ones_to_zeroes", "zeroes_to_ones"), ("row", "column"), ("bankGroup", "bank"), ("tRP", "tRCD"),
         ("fallingEdge", "risingEdge"), ("E_act", "E_pre"), ("counter", "cycles"), ("controller", "dram"), ("dynamicEnergy", "staticEnergy"), ("VDD1", "VDD2"), ("tRFC", "tRAS"), ("RD", "WR"), ("ACT", "PRE"),
         ("L", "H"), ("numberOfBanks", "numberOfBankGroups"), ("numberOfRanks", "numberOfDevices"), ("dataRate", "burstLength"), ("lower_bound", "upper_bound"), ("previous", "current")]


def mutants(line):
    code = line.split("//")[0]
    if not code.strip() or code.lstrip().startswith(("#", "*", "/*", "using", "assert", "static_assert", "template", "namespace")): return
    for op, alts in (("<=", ["<"]), (">=", [">"]), ("==", ["!="]), ("!=", ["=="]), ("&&", ["||"]), ("||", ["&&"]), ("+=", ["-=", "="]), ("-=", ["+="]), (" + ", [" - "]), (" - ", [" + "]), (" * ", [" / ", " + "]), (" / ", [" * "]),
                     (" < ", [" <= ", " > "]), (" > ", [" >= ", " < "]), ("++", ["--"]), (" % ", [" / "]), ("<<", [">>"]), (">>", ["<<"]), (" & ", [" | "]), (" | ", [" & "]), ("|=", ["&=", "="]), ("^=", ["|="]), ("if (", ["if (!("]), ("if(", ["if(!("])):
        for m in re.finditer(re.escape(op), code):
            if op in ("<<", ">>") and ("std::" in code or "template" in code): continue
            if op == " > " or op == " < ":
                if "template" in code or "typename" in code: continue
            for a in alts:
                if op.startswith("if"):
                    # negate the whole condition
                    i = m.end(); d = 1; j = i
                    while j < len(code) and d:
                        d += {"(": 1, ")": -1}.get(code[j], 0); j += 1
                    if d or "constexpr" in code: continue
                    yield code[:m.start()] + a + code[i:j] + ")" + code[j:]
                else: yield code[:m.start()] + a + code[m.end():]
    for m in re.finditer(r"(?<![\w.\"'<])(\d+)(?![\w.\"'>])", code):
        v = int(m.group(1))
        for a in {v + 1, max(v - 1, 0)} - {v}: yield code[:m.start()] + str(a) + code[m.end():]
    for a, b in PAIRS:
        for x, y in ((a, b), (b, a)):
            for m in re.finditer(r"(?<![A-Za-z0-9])" + x + r"(?![a-z0-9])" if len(x) > 2 else r"\b" + x + r"\b", code):
                yield code[:m.start()] + y + code[m.end():]
    if re.match(r"\s+[\w:.>\[\]()-]+(\s*(=|\+=|-=)\s*.+|\(.*\));\s*$", code) and not re.match(r"\s*(return|delete|const|auto|using|break)\b", code): yield re.match(r"\s*", code).group(0) + ";"
    if re.match(r"\s*(break|continue);", code): yield code.replace("break;", ";").replace("continue;", ";")
    m = re.match(r"(\s*)return (.+);\s*$", code)
    if m and m.group(2) in ("true", "false"): yield m.group(1) + "return " + ("false" if m.group(2) == "true" else "true") + ";"


def main():
    rng = random.Random(SEED)
    files = [f for f in C._walk(COPY + "/src", (".h", ".hpp", ".cpp")) if "csv.hpp" not in f and (not FILES or any(x in f for x in FILES))]
    pool = []
    for f in files:
        for i, l in enumerate(open(f, errors="replace").read().split("\n")):
            for m in dict.fromkeys(mutants(l) or ()):
                if m != l: pool.append((f, i, m))
    rng.shuffle(pool)
    # no more than a few per line
    order = sorted(registry.CHECKS)
    seen, todo = {}, []
    for f, i, m in pool:
        if seen.get((f, i), 0) < 1: seen[(f, i)] = seen.get((f, i), 0) + 1; todo.append((f, i, m))
    print(f"{len(pool)} changes of {len(seen)} lines; trying {min(N, len(todo))}", flush=True)
    score = {p: 0 for p in order}
    kills = alive = bad = 0
    for f, i, m in todo[:N]:
        src = open(f, errors="replace").read(); L = src.split("\n"); old = L[i]; L[i] = m
        open(f, "w").write("\n".join(L))
        t0 = time.time()
        verdict = None
        try:
            recent = sorted(order, key=lambda p: -score[p])
            for p in recent:
                try: run(p)
                except Killed as e: verdict = f"killed by {p}: {str(e)[:90]}"; score[p] = score[p] * 0.9 + 1; kills += 1; break
                except C.Broken as e:
                    verdict = "does not build" if "not compile" in str(e) or "not link" in str(e) else f"broken {p}: {e}"; bad += 1; break
                except Exception as e:
                    verdict = f"broken {p}: {type(e).__name__} {e}"; bad += 1; break
            if verdict is None: verdict = "SURVIVED"; alive += 1
        finally:
            open(f, "w").write(src)
            for x in os.listdir(C.BUILD):
                x = C.BUILD + "/" + x
                shutil.rmtree(x, ignore_errors=True) if os.path.isdir(x) else os.remove(x)
            objs = sorted((os.path.getmtime(W + "/obj/" + x), x) for x in os.listdir(W + "/obj") if x.endswith((".o", ".d")))
            idxs = set()
            for x in os.listdir(W + "/obj"):
                if x.endswith(".idx"):
                    try: idxs |= {o for _, o in pickle.load(open(W + "/obj/" + x, "rb"))}
                    except Exception: pass
            for mt, x in objs:
                o = W + "/obj/" + x
                if time.time() - mt > 200 and o not in idxs and o[:-2] not in idxs:
                    try: os.remove(o)
                    except OSError: pass
        print(f"{verdict.split(' ')[0] if verdict == 'SURVIVED' else verdict[:140]} | {f.replace(COPY + '/src/', '')}:{i + 1} | {old.strip()[:110]} -> {m.strip()[:110]} | {time.time() - t0:.0f} s", flush=True)
    print(f"{kills} killed, {alive} survived, {bad} did not build", flush=True)


def seeds():
    """mutate.py seeds [ID...]: which of all checks see each planted bug."""
    for b in sys.argv[2:] or sorted(os.listdir(ROOT + "/seeded")):
        diff = f"{ROOT}/seeded/{b}/patch.diff"
        subprocess.run(["patch", "-p1", "-s", "-i", diff], cwd=COPY, check=True)
        seen = []
        for p in sorted(registry.CHECKS):
            try: run(p)
            except Killed: seen.append(p)
            except Exception as e: seen.append(f"{p}?{type(e).__name__}")
        subprocess.run(["patch", "-R", "-p1", "-s", "-i", diff], cwd=COPY, check=True)
        shutil.rmtree(C.BUILD); os.makedirs(C.BUILD)
        print(b, " ".join(seen), flush=True)


seeds() if sys.argv[1] == "seeds" else main()
