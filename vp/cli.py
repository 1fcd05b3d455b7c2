"""C27: the command line program."""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, tempfile
from . import common as C, core, util
from .binding import STDS, memspec, simcfg
from .energy import rel

COMPONENTS = ["ACT", "PRE", "BG_ACT", "BG_PRE", "RD", "WR", "RDA", "WRA", "PRE_RDA", "PRE_WRA", "REF_AB", "REF_PB", "REF_SB", "REF_2B", "REF_DB"]
SHARED = ["E_bg_act_shared", "E_PDNA", "E_PDNP", "E_sref", "E_dsm", "E_refab"]
LARGEST = 10_000_000        # bytes the reader takes at a time


def text(rows, style, quote=0):
    """the file: ~ is a tab; style is end of line, end of the last line, blank lines"""
    eol = {"lf": "\n", "crlf": "\r\n"}[style[0]]
    out = []
    for i, r in enumerate(rows):
        f = [x.replace("~", "\t") for x in r]
        if quote: f = [f'"{x}"' if (i + k) % 3 == 0 and x and x.strip(" \t") == x else x for k, x in enumerate(f)]
        out.append(",".join(f))
        if style[2] and style[0] == 'lf' and i % 7 == style[2]: out.append("")
    s = eol.join(out)
    return (s + (eol if style[1] else "")).encode()


def want(exp):
    """expected rows as the driver prints them; None: the file is refused"""
    if exp == ["malformed"]: return None
    return [[e[0], *[int(x) for x in e[1:7]], None if e[7] == "none" else e[7]] for e in exp]


def files(chk, exe, docs, tmp, tag):
    lines, meta = [], {}
    for d in docs:
        n = len(lines)
        p = f"{tmp}/{tag}-{n}.csv"
        with open(p, "wb") as f: f.write(d["text"] if "text" in d else text(d["rows"], d["style"], n % 2))
        lines.append({"id": n, "file": p}); meta[n] = d
    res = C.run_driver(exe, lines)
    for n, d in meta.items():
        o = res.get(n) or {"crash": "no answer"}
        w = d["want"] if "want" in d else want(d["exp"])
        got = o["rows"] if o.get("ok") == 1 else None
        bad = None
        if "crash" in o: bad = f"the reader died: {o['crash']}"
        elif w is None:
            if got is not None: bad = "a file with a malformed row was accepted"
        elif got is None: bad = f"a well-formed file was refused: {o.get('exc', 'false')}"
        elif got != w:
            k = next((i for i, (x, y) in enumerate(zip(w, got)) if x != y), min(len(w), len(got)))
            bad = f"row {k + 1}: written {str(w[k:k + 1])[:150]}, read {str(got[k:k + 1])[:150]} ({len(w)} rows written, {len(got)} read)"
        if bad:
            data = open(lines[n]["file"], "rb").read()
            chk.violation("command list file: " + bad, {"driver": "cli", "file": data[:100000].decode(), "expected": w and w[:200]})
        chk.add("rows", len(d.get("rows", ())) or d.get("n", 0))
        os.remove(lines[n]["file"])
    chk.traces += len(lines)


def big(docs, size, rng):
    """many rows of the behaviours after each other: a file read in several pieces"""
    good = [d for d in docs if d["exp"] != ["malformed"]]
    rows, exp, n = [], [], 0
    while n < size:
        d = rng.choice(good)
        rows += d["rows"]; exp += d["exp"]
        n += sum(len(f) + 1 for r in d["rows"] for f in r)
    k = len(exp)
    return {"text": text(rows, rng.choice([["lf", 1, 0], ["crlf", 0, 0]])), "want": want(exp), "n": k}


# ------------------------------------------------------------------ end to end
def payload(d):
    m = d["m"]
    return m["BL"] * m["W"] * m["ND"] // 8 if d["std"] != "LPDDR6" else 32


def base(std, over):
    s = json.load(open(f"{C.ROOT}/data/{std.lower()}.json"))
    for sec, v in over.items():
        for f, x in v.items(): s["memspec"][sec][f] = x
    return s


def commands(d):
    """the commands of the behaviour, every data command with data"""
    r = []
    for o in d["ops"]:
        if o[0] != "c": continue
        o = core.strip(o)[:9]
        if o[1] in ("RD", "WR", "RDA", "WRA") and not (len(o) == 9 and isinstance(o[8], list)):
            o = o[:8] + [["B"] + [(17 * i + len(r)) % 256 for i in range(payload(d))]]
        r.append(o)
    return r


def csv(ops, rng):
    rows = []
    for o in ops:
        _, ty, t, r, bg, ba, row, col = o[:8]
        f = [str(t), ty, str(r), str(bg), str(ba), str(row), str(col)]
        if len(o) == 9:
            f.append(rng.choice(["", "0x"]) + "".join(rng.choice(("%02x", "%02X")) % b for b in o[8][1:]))
        rows.append(f)
    return text(rows, ["lf", 1, 0])


def numbers(s):
    return [float(x) for x in re.findall(r"(?<![\w.])[-+]?\d+(?:\.\d+)?(?:e[-+]?\d+)?(?![\w.])", s)]


def printed(out, e):
    """first difference between the printed result and the energies e"""
    L = out.splitlines()
    r, d, b = e["arch"]
    head = "Rank,Device,Bank -> bank_energy:"
    if head not in L: return "no bank energies printed"
    k = L.index(head) + 1
    for i in range(r):
        for j in range(d):
            for n in range(b):
                m = re.match(r"(\d+),(\d+),(\d+) -> (.*)", L[k]) if k < len(L) else None
                if not m or tuple(map(int, m.groups()[:3])) != (i, j, n): return f"line {k}: expected the energies of {i},{j},{n}, printed {L[k][:80] if k < len(L) else 'nothing'}"
                got = dict((x, float(y)) for x, y in re.findall(r"(\w+): ([-+.\deE]+)", m.group(4)))
                exp = dict(zip(COMPONENTS, e["c"]["b"][(i * d + j) * b + n]))
                for c in got:
                    if c in exp and not near(exp[c], got[c]): return f"bank {i},{j},{n}: {c} is {exp[c]}, printed {got[c]}"
                for c in COMPONENTS:
                    if c not in got and not c.startswith("PRE_") and exp[c] != 0: return f"bank {i},{j},{n}: {c} ({exp[c]}) is not printed"
                k += 1
    tail = "\n".join(L[k:])
    m = re.search(r"Total Energy -> ([-+.\deE]+)", tail)
    if not m or not near(e["c"]["tot"] + e["i"][4], float(m.group(1))): return f"total energy {e['c']['tot'] + e['i'][4]}, printed {m and m.group(1)}"
    m = re.search(r"Cumulated bank energy with bg_act_shared -> (.*)", tail)
    got = dict((x, float(y)) for x, y in re.findall(r"(\w+): ([-+.\deE]+)", m.group(1))) if m else {}
    for c, x in zip(COMPONENTS, e["c"]["agg"]):
        if (c in got and not near(x, got[c])) or (c not in got and not c.startswith("PRE_") and x != 0): return f"cumulated {c} is {x}, printed {got.get(c)}"
    m = re.search(r"Shared energy -> (.*)", tail)
    bad = labelled("shared energies", m.group(1) if m else "", "", dict(zip(SHARED, e["c"]["s"])))
    if bad: return bad
    m = re.search(r"Interface Energy:\n((?:.*\n)*?)Total Energy", tail)
    body = m.group(1) if m else ""
    for who, other, a in (("Controller", "DRAM", 0), ("DRAM", "Total", 2)):
        m = re.search(rf"{who}:((?:.|\n)*?)(?:{other}|$)", body)
        bad = labelled(f"{who} interface energies", m.group(1) if m else "", body, {"dynamicEnergy": e["i"][a], "staticEnergy": e["i"][a + 1]})
        if bad: return bad
    m = re.search(rf"Total: ({NUMBER})", body)
    if m and not near(e["i"][4], float(m.group(1))): return f"total interface energy {e['i'][4]}, printed {m.group(1)}"
    return None


NUMBER = r"[-+]?\d+(?:\.\d+)?(?:e[-+]?\d+)?"


def labelled(what, text, more, exp):
    """every value under its own label; without the labels, at least present"""
    got = dict((k, float(v)) for k, v in re.findall(rf"(\w+): ({NUMBER})", text))
    loose = numbers(text + more)
    for c, x in exp.items():
        if c in got:
            if not near(x, got[c]): return f"{what}: {c} is {x}, printed {got[c]}"
        elif x and not any(near(x, y) for y in loose): return f"{what}: {c} ({x}) is not printed"
    return None


def near(x, y):
    return abs(x - y) <= 1e-2 * max(abs(x), abs(y), 1e-300) or (abs(x) < 1e-300 and abs(y) < 1e-300)


def written(j, e):
    """first difference between the result file and the energies e"""
    r, d, b = e["arch"]
    if [j.get("RankCount"), j.get("DeviceCount"), j.get("BankCount")] != [r, d, b]: return f"counts of ranks, devices, banks {[r, d, b]}, written {[j.get('RankCount'), j.get('DeviceCount'), j.get('BankCount')]}"
    if not rel(j.get("TotalEnergy"), e["c"]["tot"] + e["i"][4]): return f"total energy {e['c']['tot'] + e['i'][4]}, written {j.get('TotalEnergy')}"
    core_, iface = j.get("CoreEnergy"), j.get("InterfaceEnergy")
    if not isinstance(core_, dict) or not isinstance(iface, dict): return "no energies written"
    for c, x in zip(SHARED, e["c"]["s"]):
        if not rel(core_.get(c), x): return f"{c} is {x}, written {core_.get(c)}"
    banks = core_.get("BankEnergy")
    if not isinstance(banks, list) or len(banks) != r * d * b: return f"{r * d * b} banks, written {banks and len(banks)}"
    seen = {}
    for x in banks:
        seen.setdefault((x.get("Rank"), x.get("Device"), x.get("Bank")), x)
    for i in range(r):
        for k in range(d):
            for n in range(b):
                x = seen.get((i, k, n))
                if x is None: return f"no energies of bank {i},{k},{n} written"
                for c, y in zip(COMPONENTS, e["c"]["b"][(i * d + k) * b + n]):
                    if not rel(x.get(c), y): return f"bank {i},{k},{n}: {c} is {y}, written {x.get(c)}"
    for who, a in (("controller", 0), ("dram", 2)):
        for c, k in (("dynamicEnergy", 0), ("staticEnergy", 1)):
            if not rel(iface.get(who, {}).get(c), e["i"][a + k]): return f"{who} {c} is {e['i'][a + k]}, written {iface.get(who, {}).get(c)}"
    return None


# where the result is asked for: what the name is, and which file then holds the result
TARGETS = ["fresh", "existing", "console", "fresh", "link", "link-fresh", "rel-link", "rel-link-elsewhere", "chain"]


NOWHERE = ["directory", "no-directory", "below-a-file", "link-to-directory", "link-nowhere", "link-to-itself"]


def outside(d, rng):
    """a row for a rank or bank that the memory does not have, or that it can not carry out"""
    m, rank, bank = d["m"], 0, 0
    wide = ["PREA", "REFA", "SREFEN", "SREFEX", "PDEA", "PDEP", "PDXA", "PDXP"]
    if rng.random() < 0.5: rank, c = m.get("NR", 1) + rng.choice([0, 1, 50]), rng.choice(wide + ["ACT", "RD", "RDA", "WRA"])
    else: bank, c = m["NB"] + rng.choice([0, 1, 1000]), rng.choice(["ACT", "PRE", "RD", "WR", "RDA", "WRA"] + {"DDR4": [], "DDR5": ["REFSB", "PRESB"], "LPDDR4": ["REFB"], "LPDDR5": ["REFB", "REFP2B"], "LPDDR6": ["REFDB"]}[d["std"]])
    return f"9999999,{c},{rank},0,{bank},1,8{',0x' + '5a' * 64 if c in ('RD', 'WR', 'RDA', 'WRA') else ''}\n".encode()


def target(kind, box):
    """(argument, file holding the result) in the scratch directory"""
    os.makedirs(box + "/sub"); os.makedirs(box + "/cwd")
    a, real = box + "/out.json", box + "/out.json"
    if kind == "existing": open(a, "w").write("x" * 100000)
    elif kind != "fresh":
        real = box + "/sub/real.json"
        if kind == "link": open(real, "w").write("old"); os.symlink(real, a)
        elif kind == "link-fresh": os.symlink(real, a)
        elif kind == "rel-link": real = box + "/real.json"; open(real, "w").write("old"); os.symlink("real.json", a)
        elif kind == "rel-link-elsewhere": os.symlink("sub/real.json", a)
        elif kind == "directory": os.makedirs(a)                                  # no place for a result: from here on
        elif kind == "no-directory": a = box + "/missing/out.json"
        elif kind == "below-a-file": open(box + "/sub/f", "w").write("x"); a = box + "/sub/f/out.json"
        elif kind == "link-to-directory": os.symlink(box + "/sub", a)
        elif kind == "link-nowhere": os.symlink(box + "/missing/real.json", a)
        elif kind == "link-to-itself": os.symlink(a, a)
        elif kind == "chain": open(real, "w").write("old"); os.symlink(real, box + "/l1"); os.symlink(box + "/l1", a)
    return a, real


def one(prog, box, trace, spec, config, kind):
    shutil.rmtree(box, ignore_errors=True); os.makedirs(box)
    for n, x in (("t.csv", trace), ("m.json", json.dumps(spec).encode()), ("c.json", config)):
        with open(f"{box}/{n}", "wb") as f: f.write(x)
    a, real = target(kind, box)
    args = ["-c", box + "/c.json", "-t", box + "/t.csv", "-m", box + "/m.json"] + ([] if kind == "console" else ["-j", a])
    if kind in ("no-c", "no-t", "no-m"): i = args.index(kind[2:]); args[i:i + 2] = []
    elif kind == "-x": args.append("-x")
    elif kind == "empty-m": os.remove(box + "/m.json")
    r = subprocess.run([prog] + args,
                       capture_output=True, text=True, timeout=120, cwd=box + "/cwd")
    res = None
    if kind != "console":
        try: res = json.load(open(real))
        except (OSError, ValueError): pass
    return r, res


def end_to_end(chk, cli, sim, docs, tmp, faults=True):
    rng = random.Random(chk.seed)
    prog = cli + "-prog"
    lines, jobs = [], []
    for i, d in enumerate(docs):
        if d["m"].get("RAS") == 0: continue      # the activation current is undefined
        ops = commands(d)
        if not ops: continue
        use = rng.random() < 0.5
        s = simcfg(d.get("sim") or None)
        given = s or (simcfg([3, 5, 7, 9, "H", "Z"]) if rng.random() < 0.4 else None)
        if use and not given: given = simcfg([rng.randrange(17) for _ in range(4)] + [rng.choice("HLZ"), rng.choice("HLZ")])
        config = {"useToggleRate": use}
        config["simconfig"] = given or {}
        fault = rng.choice(["toggle", "trace", "nop", "spec", "config", "notjson", "outside", "outside", "nowhere", "nowhere", "arguments"]) if faults and i % 3 == 2 else None
        place = rng.choice(NOWHERE) if fault == "nowhere" else "fresh"
        trace, spec, conf = csv(ops, rng), base(d["std"], memspec(d["std"], d["m"])), json.dumps(config).encode()
        if fault == "toggle": conf = json.dumps({"useToggleRate": True, "simconfig": {}}).encode()
        elif fault == "trace": trace += rng.choice([b"12,ACT,0,0,0,x,0\n", b"12,ACT,0,0,0,1\n", b"999999,RD,0,0,0,1,1\n", b"999999,WR,0,0,0,1,1,0x123\n", b"1.5,PRE,0,0,0,1,1\n", b"-3,PRE,0,0,0,1,1\n"])
        elif fault == "nop":         # a name that stands for no command, the end of the simulation
            w = rng.choice(["NOP", "ACTIVATE", "END", "END_OF_SIMULATION"])
            trace += f"999999,{w},0,0,0,0,0\n".encode()
            ops = ops + [["c", "END" if w.startswith("END") else "NOP", 999999, 0, 0, 0, 0, 0]]; fault = None
        elif fault == "outside": trace += outside(d, rng)
        elif fault == "arguments": place = rng.choice(["no-c", "no-t", "no-m", "-x", "empty-m"])
        elif fault == "spec": del spec["memspec"]["memtimingspec"]
        elif fault == "config": conf = b"{}"
        elif fault == "notjson": conf = b"useToggleRate"
        n = len(lines)
        l = {"id": n, "std": d["std"], "ms": memspec(d["std"], d["m"]), "want": [], "ops": ops + [["el"]]}
        if use: l["sim"] = given
        lines.append(l); jobs.append((n, d, trace, spec, conf, fault, place if fault else TARGETS[(n // 3 * 2 + n % 3) % len(TARGETS)] if faults else ("fresh", "console")[n % 2]))
    lib = C.run_driver(sim, lines, [C.ROOT + "/data"])
    with cf.ThreadPoolExecutor(C.NPROC) as ex:
        runs = list(ex.map(lambda j: one(prog, f"{tmp}/run{j[0]}", *j[2:5], j[6]), jobs))
    for (n, d, trace, spec, conf, fault, kind), (r, res) in zip(jobs, runs):
        rep = {"driver": "prog", "trace": trace.decode(), "memspec": spec, "config": conf.decode(), "output": kind, "library": lines[n]}
        o = lib.get(n)
        bad = None
        chk.add("program runs " + (fault or kind))
        if fault:
            if r.returncode == 0 or res is not None: bad = f"the program accepted a {fault} it cannot use"
        elif o is None or "out" not in o: bad = f"the library died on a legal history: {str(o)[:200]}"
        elif isinstance(o["out"][-2], dict) and "exc" in o["out"][-2]:
            if r.returncode == 0: bad = f"the program accepted a command the library refuses: {o['out'][-2]}"
        elif isinstance(o["out"][-1], dict) and "exc" in o["out"][-1]: bad = f"the library refused a legal history: {o['out'][-1]}"
        elif r.returncode: bad = f"the program failed on a legal command list ({kind}): {(r.stdout + r.stderr)[-200:]}"
        elif kind == "console": bad = printed(r.stdout, o["out"][-1])
        elif res is None: bad = f"no result in the file asked for ({kind})"
        else: bad = written(res, o["out"][-1])
        if bad: chk.violation(f"{d['std']}: {bad}", rep)
        shutil.rmtree(f"{tmp}/run{n}", ignore_errors=True)
    chk.traces += len(lines)


def c27(chk):
    num, steps, sizes, hist = ((3000, 40, [11, 25, 45], (400, 50)) if chk.thorough else (250, 25, [11], (60, 30)))
    tmp = tempfile.mkdtemp(prefix="cli-", dir=C.BUILD if os.path.isdir(C.BUILD) else None)
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            fb, fs = ex.submit(lambda: (C.build("cli"), C.build("sim"))), None
            g = [ex.submit(C.tlc_gen, "CliGen", {"STEPS": n, "BADNESS": b}, num * k // 4, n + 10, chk.seed * 1000 + n + b, 800) for n, b, k in ((steps, 100000, 1), (3, 4, 4), (1, 2, 4))]
            fh = ex.submit(core.gen_all, "FullGen", "query", *hist, chk.seed + 900)
            docs = []
            for f in g:
                r = f.result(); docs += r.docs
                chk.states += r.states; chk.transitions += r.states - len(r.docs)
            hs = []
            for s, r in fh.result():
                hs += r.docs
                chk.states += r.states; chk.transitions += r.states - len(r.docs)
            cli, sim = fb.result()
        chk.detail["malformed files"] = sum(d["exp"] == ["malformed"] for d in docs)
        chk.sample_list = [{"rows": d["rows"][:2], "exp": d["exp"][:2]} for d in docs[:4]]
        files(chk, cli, docs, tmp, "f")
        rng = random.Random(chk.seed)
        for mb in sizes: files(chk, cli, [big(docs, mb * 1000 * 1000, rng)], tmp, "b")
        end_to_end(chk, cli, sim, hs, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def c28(chk):
    """the records themselves, then the reports of whole runs"""
    hist = (600, 50) if chk.thorough else (60, 25)
    tmp = tempfile.mkdtemp(prefix="cli-", dir=C.BUILD if os.path.isdir(C.BUILD) else None)
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            fb = [ex.submit(C.build, "cli"), ex.submit(C.build, "sim")]
            fh = ex.submit(core.gen_all, "FullGen", "query", *hist, chk.seed + 2800)
            util.run(chk, [("records", (400, 40), (4000, 60))])
            hs = []
            for s, r in fh.result():
                hs += r.docs
                chk.states += r.states; chk.transitions += r.states - len(r.docs)
            cli, sim = fb[0].result(), fb[1].result()
        end_to_end(chk, cli, sim, hs, tmp, faults=False)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(j):
    tmp = tempfile.mkdtemp(prefix="cli-", dir=C.BUILD)
    try:
        exe = C.build("cli")
        if j["driver"] == "cli":
            with open(tmp + "/f.csv", "wb") as f: f.write(j["file"].encode())
            print(json.dumps(C.run_driver(exe, [{"id": 0, "file": tmp + "/f.csv"}])))
        else:
            r, res = one(exe + "-prog", tmp + "/r", j["trace"].encode(), j["memspec"], j["config"].encode(), j["output"])
            print(r.returncode, r.stdout, r.stderr, json.dumps(res, indent=1))
            print(json.dumps(C.run_driver(C.build("sim"), [j["library"]], [C.ROOT + "/data"])))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 0
