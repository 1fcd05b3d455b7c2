"""C01-C06, C08: the array side, generated behaviours replayed and compared."""
import concurrent.futures as cf
import json
import random
from . import common as C
from .binding import STDS, memspec, simcfg, KTIME

OBS = ("q", "g", "last", "qw", "e", "tot", "isser", "isdbi", "getmeta", "has", "ser", "ifstate")


NARGS = {"q": 2, "g": 1, "last": 1, "ser": 1, "isser": 1, "dbi": 3, "isdbi": 1, "getmeta": 1, "has": 1, "ifstate": 1, "cx": 9}   # words before the expected observation


def strip(op):
    """an operation without the expected observation"""
    return op[:NARGS[op[0]]] if op[0] in NARGS else op


def expected(op):
    n = NARGS.get(op[0])
    return op[n] if n is not None and len(op) > n else None


def shape(doc):
    """what a generated behaviour is, for coverage counts"""
    return tuple(o[1] for o in doc["ops"] if o[0] in ("c", "cc", "ci"))


def variants(doc, i):
    """the plain behaviour, the behaviour far from time 0, and with huge durations"""
    yield {}
    if "idle" in doc:
        if i % 4 == 1: yield {"_shift": 64 * ((1 << 34) + i)}
        return
    if i % 4 == 1:
        yield {"T0": (1 << 40) + i}
    if i % 4 == 2 and not any(c in ("RDA", "WRA") for c in shape(doc)):
        yield {"K": (1 << 33) + 1, "ktime": KTIME[doc["std"]]}


def shift_ok(v, t0):
    return v


def shifted(doc, var, op):
    """a copy of the operation var["_shift"] cycles later, the memory idle before"""
    n = var.get("_shift")
    if not n: return op
    op = list(op)
    i = {"q": 1, "qw": 1, "e": 1, "tot": 1, "dbi": 1, "ion": 1, "ioff": 1, "last": 1, "c": 2, "cc": 2, "ci": 2}.get(op[0])
    if i: op[i] += n
    if op[0] == "q" and len(op) > 2:
        op[2] = [[a + n // 64 * b for a, b in zip(x, y)] if x and not isinstance(x[0], list) else x for x, y in zip(op[2], doc["idle"])]
    return op


def compare(doc, var, out):
    """first difference between what the specification says and what was reported, or None"""
    for k, op in enumerate(doc["ops"]):
        op = shifted(doc, var, op)
        e = expected(op)
        if e is None:
            if isinstance(out[k], dict) and "exc" in out[k]:
                return k, op, "refused: " + str(out[k]["exc"])
            continue
        if out[k] != e:
            return k, strip(op), f"expected {e} reported {out[k]}"
    return None


def diff(want, e, o):
    """short description of the first differing entry"""
    try:
        for w, a, b in zip(want, e, o):
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    return f"{w}[{i}]: expected {x}, reported {y}"
    except TypeError:
        pass
    return f"expected {str(e)[:120]}, reported {str(o)[:120]}"


def line(doc, ident, var, ops=None):
    l = {"id": ident, "std": doc["std"], "ms": memspec(doc["std"], doc["m"]), "want": doc["want"],
         "ops": [strip(shifted(doc, var, o)) for o in (ops if ops is not None else doc["ops"])]}
    if doc.get("sim"): l["sim"] = simcfg(doc["sim"])
    l.update({k: v for k, v in var.items() if k[0] != "_"})
    return l


def gen_all(module, profile, num, steps, seed, stds=STDS, env=None, timeout=500):
    def one(a):
        i, s = a
        e = {"STD": s, "PROFILE": profile, "STEPS": steps}
        e.update(env or {})
        return s, C.tlc_gen(module, e, num, steps + 10, seed * 1000 + i * 7 + 1, timeout)
    with cf.ThreadPoolExecutor(5) as ex:
        return list(ex.map(one, enumerate(stds)))


def judge(chk, exe, docs, with_variants=True, post=None):
    """replay every document (and variants), report mismatches"""
    lines, meta = [], {}
    for i, d in enumerate(docs):
        for v in (variants(d, i) if with_variants else [{}]):
            n = len(lines)
            lines.append(line(d, n, v)); meta[n] = (d, v)
    res = C.run_driver(exe, lines, [C.ROOT + "/data"])
    for n, (d, v) in meta.items():
        o = res.get(n)
        bad = None
        if o is None or "crash" in o:
            bad = f"{d['std']}: the simulation died on a legal history: {o and o['crash']}"
        elif "err" in o:
            bad = f"{d['std']}: the specification was refused: {o['err']}"
        else:
            c = compare(d, v, o["out"])
            if c:
                k, op, why = c
                e = expected(shifted(d, v, d["ops"][k]))
                bad = f"{d['std']} step {k} {op}: " + (diff(d['want'], e, o['out'][k]) if op[0] in ('q', 'g') else why) + (f" with {v}" if v else "")
        if bad:
            chk.violation(bad, {"driver": "sim", "line": lines[n], "expected": [expected(x) for x in d["ops"]]})
    chk.traces += len(lines)
    chk.add("observations", sum(1 for d, v in meta.values() for o in d["ops"] if expected(o) is not None))
    return res


def loops(chk, exe, docs, rounds, many):
    """histories that end where they began, repeated very often: every number is that of one round times the rounds"""
    best = {}
    for d in docs:
        n = len(set(shape(d)))
        if d.get("again") and n and not any(o[0] in ("dbi", "meta", "par", "ion", "ioff") for o in d["ops"]): best.setdefault(d["std"], []).append((n, -len(d["ops"]), len(best.get(d["std"], ())), d))
    lines, meta = [], {}
    for s, l in best.items():
        for _, _, _, d in sorted(l, reverse=True, key=lambda x: x[:3])[:many]:
            p, per, q = d["again"]; k = rounds // per
            ln = line(d, len(lines), {}, [["loop", rounds, p, [o for o in d["ops"] if o[0] in ("c", "cc", "ci")]], ["q", rounds * p]])
            meta[len(lines)] = (d, [[[k * v for v in y] if isinstance(y, list) else k * y for y in x] for x in q])
            lines.append(ln)
    res = C.run_driver(exe, lines, [C.ROOT + "/data"])
    for n, (d, w) in meta.items():
        o = res.get(n) or {"crash": "no answer"}
        bad = None
        if "out" not in o: bad = f"the simulation died on a legal history: {o}"
        elif isinstance(o["out"][0], dict): bad = f"refused: {o['out'][0]}"
        elif o["out"][1] != w: bad = diff(d["want"], w, o["out"][1])
        if bad: chk.violation(f"{d['std']}: {rounds} rounds of a history: {bad}", {"driver": "sim", "line": lines[n], "expected": [None, w]})
    chk.traces += len(lines)
    chk.add("histories repeated %d times" % rounds, len(lines))


def project_rank(doc, r):
    """the same memory, only the commands of rank r"""
    ops = []
    for o in doc["ops"]:
        if o[0] in ("c", "cc") and o[3] != r: continue
        if o[0] in ("g", "last"): continue
        ops.append(o)
    return ops


def mc_runner(quick, deep):
    """exhaustive instances of CoreMC: every legal history of a tiny memory up to a horizon"""
    def go(chk):
        base = dict(NRK=1, NBG=1, BPG=1, SLOW=0, CPC=1, CM="all")
        for e in (list(quick) + list(deep) if chk.thorough else quick):
            e = dict(base, **e)
            r = C.tlc_check("CoreMC", "CoreMC.cfg", e, workers=4 if chk.thorough else 2, timeout=800)
            if r.violated:
                raise C.Broken("the specification contradicts itself: " + r.violated + "\n" + r.out[-3000:])
            chk.states += r.states; chk.transitions += r.transitions
            chk.detail.setdefault("exhaustive instances", []).append({**e, "states": r.states, "transitions": r.transitions, "depth": r.depth})
    return [go]


def ifmc_runner(quick, deep):
    """exhaustive instances of IfMC: every waveform of a small bus, and the facts about inversion, frame and truth tables"""
    def go(chk):
        for bw, tmax, lb in (list(quick) + list(deep) if chk.thorough else quick):
            r = C.tlc_check("IfMC", "IfMC.cfg", {"BW": bw, "TMAX": tmax, "LB": lb}, workers=4 if chk.thorough else 2, timeout=800)
            if r.violated:
                raise C.Broken("the specification contradicts itself: " + r.violated + "\n" + r.out[-3000:])
            chk.states += r.states; chk.transitions += r.transitions
            chk.detail.setdefault("exhaustive instances", []).append({"lines": bw, "beats": tmax, "longest burst": lb, "states": r.states, "transitions": r.transitions, "depth": r.depth})
    return [go]


def run(chk, profile, quick=(250, 40), thorough=(2500, 60), want_types=None, module="CoreGen", mc=None, post=None, stds=STDS, with_variants=True):
    num, steps = thorough if chk.thorough else quick
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(C.build, "sim")
        fm = [ex.submit(f, chk) for f in (mc or [])]
        fg = ex.submit(gen_all, module, profile, num, steps, chk.seed, stds, None, 800)
        fl = ex.submit(gen_all, module, profile, *((8, 4000) if chk.thorough else (1, 1500)), chk.seed + 5000, stds, None, 800)
        fs = ex.submit(gen_all, module, profile, *((400, 14) if chk.thorough else (60, 9)), chk.seed + 6000, stds, None, 800) if module != "FullGen" else None
        exe = fb.result(); gens = fg.result()
        long = fl.result(); short = fs.result() if fs else []
        mcs = [f.result() for f in fm]
    docs = []
    for s, g in gens:
        docs += g.docs
        chk.states += g.states; chk.transitions += g.states - len(g.docs)
        chk.add("behaviours " + s, len(g.docs))
    seen = {}
    for d in docs:
        for c in shape(d): seen[c] = seen.get(c, 0) + 1
    chk.detail["commands"] = seen
    chk.detail["distinct command sequences"] = len({(d["std"], shape(d)) for d in docs})
    chk.sample_list = [{"std": d["std"], "m": d["m"], "ops": [strip(o) for o in d["ops"]]} for d in docs[:2]]
    judge(chk, exe, docs, with_variants)
    long = [d for s, g in long for d in g.docs]
    chk.add("long behaviours", len(long)); chk.states += sum(len(d["ops"]) for d in long)
    judge(chk, exe, long, False)
    if short: loops(chk, exe, [d for s, g in short for d in g.docs], 2048 if profile in ("data", "dbi", "frame") else 70016, 8 if chk.thorough else 2)
    if post: post(chk, exe, docs)
    return docs


def c08_post(chk, exe, docs):
    """each rank alone gives the same numbers for that rank"""
    lines, meta = [], {}
    for d in docs:
        if d["m"]["NR"] < 2: continue
        nb = d["m"]["NB"]
        for r in range(d["m"]["NR"]):
            ops = project_rank(d, r)
            n = len(lines)
            lines.append(line(d, n, {}, ops)); meta[n] = (d, r, ops)
    res = C.run_driver(exe, lines, [C.ROOT + "/data"])
    for n, (d, r, ops) in meta.items():
        o = res.get(n)
        if o is None or "out" not in o:
            chk.violation(f"{d['std']}: rank {r} alone: {o}", {"driver": "sim", "line": lines[n]}); continue
        nb = d["m"]["NB"]
        for k, op in enumerate(ops):
            if op[0] != "q": continue
            for w, e, g in zip(d["want"], op[2], o["out"][k]):
                lo, hi = (r * nb, r * nb + nb) if w in ("cnt", "cyc") else (r, r + 1)
                if e[lo:hi] != g[lo:hi]:
                    chk.violation(f"{d['std']}: {w} of rank {r} alone at {op[1]} is {g[lo:hi]}, together with the other ranks {e[lo:hi]}", {"driver": "sim", "line": lines[n]})
                    break
    chk.traces += len(lines)
    chk.add("rank projections", len(lines))


FINAL = ["json"] + ["cnt", "cyc", "rcyc", "prepos", "cmd", "rd", "wr", "ck", "wck", "rdbi", "wdbi", "rtog", "wtog", "rdqs", "wdqs"]


def c07_post(chk, exe, docs):
    """no question asked on the way changes any later answer, and the same question gets the same answer"""
    lines, meta = [], {}
    for d in docs:
        T = d["ops"][-1][1]
        end = [["qw", T, FINAL], ["e", T], ["tot", T], ["last"], ["isser"], ["qw", T, FINAL], ["e", T]]
        plain, noisy = [], []
        i = 0
        for o in d["ops"][:-1]:
            o = strip(o)
            if o[0] in ("c", "cc", "ci", "dbi", "meta", "par"):
                plain.append(o); noisy.append(o)
                i += 1
                if o[0] == "c":
                    noisy += [["last"], ["isser"], ["isdbi"], ["arch"]]
                    if i % 2: noisy += [["g"], ["g"]]
            elif o[0] == "q":
                t = o[1]
                noisy += [["qw", t, FINAL], ["e", t], ["tot", t], ["isser"], ["qw", t, FINAL], ["e", t], ["tot", t]]
        # the noisy history again, to see that every repeated question is answered alike
        for kind, ops in (("plain", plain + end), ("noisy", noisy + end)):
            n = len(lines)
            lines.append(line(d, n, {}, ops)); meta[n] = (d, kind, ops)
    res = C.run_driver(exe, lines, [C.ROOT + "/data"])
    for n in range(0, len(lines), 2):
        d, _, ops = meta[n]
        a, b = res.get(n), res.get(n + 1)
        if not a or not b or "out" not in a or "out" not in b:
            chk.violation(f"{d['std']}: {str(a)[:200]} / {str(b)[:200]}", {"driver": "sim", "line": lines[n + 1]}); continue
        if a["out"][-7:] != b["out"][-7:]:
            k = next(i for i in range(-7, 0) if a["out"][i] != b["out"][i])
            chk.violation(f"{d['std']}: what {ops[k][0]} at {ops[-1][1]} says depends on earlier questions", {"driver": "sim", "line": lines[n + 1], "other": lines[n]})
            continue
        for o, ops in ((a["out"], meta[n][2]), (b["out"], meta[n + 1][2])):
            before = {}
            for k, op in enumerate(ops):
                if op[0] in ("c", "cc", "ci", "dbi", "meta", "par"): before = {}
                else:
                    key = str(op)
                    if key in before and before[key] != o[k]:
                        chk.violation(f"{d['std']} step {k}: the same question {op[:2]} is answered differently the second time", {"driver": "sim", "line": lines[n + 1]})
                        break
                    if op[0] not in ("last", "isser"): before[key] = o[k]     # these two are about what has been processed so far
                if op[0] == "e" and k + 1 < len(ops) and ops[k + 1][0] == "tot" and isinstance(o[k], dict) and "c" in o[k]:
                    if o[k]["c"]["tot"] is None or o[k]["i"][4] is None or o[k + 1] is None or abs(o[k]["c"]["tot"] + o[k]["i"][4] - o[k + 1]) > 1e-9 * abs(o[k + 1]):
                        chk.violation(f"{d['std']} step {k}: total energy {o[k+1]} is not the sum of its parts", {"driver": "sim", "line": lines[n + 1]}); break
    chk.traces += len(lines)
    chk.add("histories replayed with and without questions", len(lines) // 2)


def c21_post(chk, exe, docs):
    """the recorded finding: extension objects and their callbacks stay bound to the object copied from"""
    d = json.load(open(C.ROOT + "/data/finding_c21.json"))
    res = C.run_driver(exe, [dict(l, id=i) for i, l in enumerate(d["lines"])], [C.ROOT + "/data"])
    for i, l in enumerate(d["lines"]):
        if res.get(i, {}).get("out") != l["right"] and l["key"] in chk.known:
            chk.known_hit.append(chk.known[l["key"]])
