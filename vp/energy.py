"""C17-C19, C26, C28: statistics priced by the specification, parameters derived by it."""
import concurrent.futures as cf
from fractions import Fraction
from . import common as C, core
from .binding import STDS, memspec, simcfg

# names of the supplies' measured currents
SUF = {"DDR4": ("idd", "ipp"), "DDR5": ("idd", "ipp"), "LPDDR4": ("1", "2"), "LPDDR5": ("1", "2h", "2l"), "LPDDR6": ("1", "2c", "2d")}
CUR = {"DDR4": {"i0": "0", "i2n": "2n", "i3n": "3n", "i4r": "4r", "i4w": "4w", "i5a": "5B", "i5f2": "5F2", "i5f4": "5F4", "i6": "6n", "i2p": "2p", "i3p": "3p"},
       "DDR5": {"i0": "0", "i2n": "2n", "i3n": "3n", "i4r": "4r", "i4w": "4w", "i5a": "5b", "i5f2": "5f", "i5p": "5c", "i6": "6n", "i2p": "2p", "i3p": "3p"},
       "LPDDR4": {"i0": "0", "i2n": "2n", "i3n": "3n", "i4r": "4r", "i4w": "4w", "i5a": "5", "i5p": "5pb", "i6": "6", "i2p": "2p", "i3p": "3p"},
       "LPDDR5": {"i0": "0", "i2n": "2n", "i3n": "3n", "i4r": "4r", "i4w": "4w", "i5a": "5", "i5p": "5pb", "i6": "6", "i6ds": "6ds", "i2p": "2p", "i3p": "3p"},
       "LPDDR6": {"i0": "0", "i2n": "2n", "i3n": "3n", "i4r": "4r", "i4w": "4w", "i5a": "5", "i5p": "5pdb", "i6": "6", "i6ds": "6ds", "i2p": "2p", "i3p": "3p"}}
PP = (("read_zeroes", "rz", 2), ("write_zeroes", "wz", 2), ("read_ones", "ro", 2), ("write_ones", "wo", 2), ("read_zeroes_to_ones", "re", 1),
      ("write_zeroes_to_ones", "we", 1), ("read_ones_to_zeroes", "rf", 1), ("write_ones_to_zeroes", "wf", 1), ("readMinTccd", "rccd", 1), ("writeMinTccd", "wccd", 1))


def overrides(std, m):
    """the memory specification with everything that energy depends on"""
    r = memspec(std, m)
    r["memtimingspec"]["tCK"] = m["TCK"]
    pw = {"vddq": m["VDDQ"]}
    for p, s in zip(m["PW"], SUF[std]):
        if std in ("DDR4", "DDR5"):
            v = {"idd": "vdd", "ipp": "vpp"}[s]
            pw[v] = p["v"]
            for k, f in CUR[std].items(): pw[s + f] = p[k]
        else:
            v = "vdd" + s
            pw[v] = p["v"]
            for k, f in CUR[std].items(): pw["idd" + f + s] = p[k]
        pw["iBeta_" + v] = p["ibx"] if p["ibgiven"] else None
    r["mempowerspec"] = pw
    r["memimpedancespec"] = {f"{k}_{a}": v for k, i in m["IMP"].items() for a, v in (("termination", bool(i["t"])), ("R_eq", i["r"]), ("dyn_E", i["e"]))}
    if m["RHOGIVEN"] == "nosection": r["bankwisespec"] = None
    else:
        b = {"factRho": float(Fraction(*m["RHOX"])) if m["RHOGIVEN"] == "given" else None}
        if std == "LPDDR4":
            p = m["PASR"]
            if p["given"]: b.update(factSigma=p["sigma"], pasrMode=p["mode"] if p["mode"] < 8 else "unknown", hasPASR=bool(p["on"]))
            else: b.update(factSigma=None, pasrMode=None, hasPASR=None)
        r["bankwisespec"] = b
    if std == "DDR4": r["prepostamble"] = {f: m["PP"][k] / d for f, k, d in PP}
    if std == "DDR5": r["dataratespec"] = {"ca_bus_rate": 3, "dq_bus_rate": 5, "dqs_bus_rate": m["DQSR"]} if "DQSR" in m else None
    return r


def close(e, g, tol):
    if not isinstance(g, (int, float)) or isinstance(g, bool): return False
    return abs(float(e) - g) <= tol * max(1.0, abs(float(e)))


def is_q(e):
    return isinstance(e, list) and len(e) == 2 and all(isinstance(x, int) for x in e) and e[1] > 0


def differ(e, g, path, exact=()):
    """first place where the report g is not the expected e; rationals are pairs"""
    if isinstance(e, dict):
        for k in e:
            if not isinstance(g, dict) or k not in g: return f"{path}.{k} is missing"
            r = differ(e[k], g[k], f"{path}.{k}", exact)
            if r: return r
        return None
    if isinstance(e, list) and not (is_q(e) and not isinstance(g, list)):
        if not isinstance(g, list) or len(g) != len(e): return f"{path}: expected {len(e)} entries, reported {str(g)[:80]}"
        for i, (x, y) in enumerate(zip(e, g)):
            r = differ(x, y, f"{path}[{i}]", exact)
            if r: return r
        return None
    if is_q(e):
        f = Fraction(e[0], e[1])
        return None if close(f, g, 1e-9) else f"{path}: expected {float(f)}, reported {g}"
    return None if e == g else f"{path}: expected {e}, reported {g}"


NAMES = ["E_act", "E_pre", "E_bg_act", "E_bg_pre", "E_RD", "E_WR", "E_RDA", "E_WRA", "E_pre_RDA", "E_pre_WRA", "E_ref_AB", "E_ref_PB", "E_ref_SB", "E_ref_2B", "E_ref_DB", "total"]


def named(d, why):
    for i in range(15, -1, -1): why = why.replace(f".b[", ".bank[") if ".b[" in why else why
    return f"{d['std']}: {why}"


def judge(chk, exe, docs):
    lines, meta = [], {}
    for d in docs:
        n = len(lines)
        lines.append({"id": n, "std": d["std"], "ms": overrides(d["std"], d["m"]), "want": [], "ops": [o[:2] if o[0] in ("ecs", "eis") else o[:1] for o in d["ops"]]})
        meta[n] = d
    res = C.run_driver(exe, lines, [C.ROOT + "/data"])
    obs = 0
    for n, d in meta.items():
        o = res.get(n)
        if o is None or "out" not in o:
            chk.violation(f"{d['std']}: no answer to a legal specification: {str(o)[:300]}", {"driver": "sim", "line": lines[n]}); continue
        for k, op in enumerate(d["ops"]):
            obs += 1
            w = differ(op[-1], o["out"][k], {"ecs": "core energy", "eis": "interface energy (controller dyn, stat, memory dyn, stat, total)", "spec": "parameter"}[op[0]])
            if w:
                chk.violation(named(d, w), {"driver": "sim", "line": lines[n], "expected": [x[-1] for x in d["ops"]]}); break
    chk.traces += len(lines); chk.add("observations", obs)


def gen(chk, profile, num, steps):
    docs = []
    for s, g in core.gen_all("EnergyGen", profile, num, steps, chk.seed, timeout=800):
        docs += g.docs
        chk.states += g.states; chk.transitions += g.states - len(g.docs)
        chk.add(f"memory specifications {s}", len(g.docs))
    return docs


def run(chk, profile, quick, thorough, post=None, mc=None):
    num, steps = thorough if chk.thorough else quick
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(C.build, "sim")
        fm = ex.submit(mc, chk) if mc else None
        docs = gen(chk, profile, num, steps)
        exe = fb.result()
        if fm: fm.result()
    chk.sample_list = [{"std": d["std"], "m": d["m"], "ops": d["ops"][:1]} for d in docs[:2]]
    judge(chk, exe, docs)
    if post: post(chk, exe, docs)
    return docs


def mc_runner(quick, deep):
    """exhaustive instances of EnergyMC"""
    def go(chk):
        for s, mode, n in (list(quick) + list(deep) if chk.thorough else quick):
            r = C.tlc_check("EnergyMC", "EnergyMC.cfg", {"STD": s, "MODE": mode, "N": n}, workers=4 if chk.thorough else 2, timeout=800)
            if r.violated:
                raise C.Broken("the specification contradicts itself: " + r.violated + "\n" + r.out[-3000:])
            chk.states += r.states; chk.transitions += r.transitions
            chk.detail.setdefault("exhaustive instances", []).append({"standard": s, "of": mode, "events": n, "states": r.states, "transitions": r.transitions})
    return go


def rel(a, b, eps=1e-12):
    """a and b are the same report up to rounding"""
    if isinstance(a, dict): return isinstance(b, dict) and a.keys() == b.keys() and all(rel(a[k], b[k], eps) for k in a)
    if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(rel(x, y, eps) for x, y in zip(a, b))
    if a is None or b is None: return False
    return a == b or abs(a - b) <= eps * max(abs(a), abs(b))


def walk(a, b, path=""):
    if isinstance(a, dict):
        for k in a: yield from walk(a[k], b[k], path + "." + k)
    elif isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)): yield from walk(x, y, f"{path}[{i}]")
    else: yield path, a, b


def histories(chk, module, profiles, quick, thorough, stds=STDS):
    """behaviours of the memory, every observation replaced by a question for energies"""
    num, steps = thorough if chk.thorough else quick
    r = []
    for p in profiles:
        for s, g in core.gen_all(module, p, num, steps, chk.seed + 500, stds=stds, timeout=800):
            chk.states += g.states; chk.transitions += g.states - len(g.docs)
            chk.add("histories " + s, len(g.docs))
            r += g.docs
    return r


def live(chk, exe, docs, which, monotone=False):
    """energies of a running memory are those of its statistics; totals are sums; nothing decreases"""
    lines, meta = [], {}
    for d in docs:
        if d["m"].get("RAS") == 0: continue      # the activation current is undefined
        ops = []
        for o in d["ops"]:
            o = core.strip(o)
            if o[0] in ("c", "cc", "ci", "dbi", "meta"): ops.append(o)
            elif o[0] == "q": ops.append(["ew", o[1]])
        n = len(lines)
        lines.append(core.line(d, n, {}, ops)); meta[n] = (d, ops)
    res = C.run_driver(exe, lines, [C.ROOT + "/data"])
    obs = 0
    for n, (d, ops) in meta.items():
        o = res.get(n)
        rep = {"driver": "sim", "line": lines[n]}
        if o is None or "out" not in o:
            chk.violation(f"{d['std']}: died on a legal history: {str(o)[:300]}", rep); continue
        last = None
        for k, op in enumerate(ops):
            if op[0] != "ew": continue
            obs += 1
            g = o["out"][k]
            if not isinstance(g, list): chk.violation(f"{d['std']} step {k}: {str(g)[:200]}", rep); break
            a, b = g
            bad = next((f"{what} energy reported at {op[1]} is not that of the statistics reported at {op[1]}" for x, what in (("c", "core"), ("i", "interface")) if x in which and not rel(a[x], b[x])), None)
            if "t" in which and not bad:
                c = a["c"]
                bank = [sum(x[i] for x in c["b"]) for i in range(16)]
                agg = list(c["agg"])
                if not rel(a["t"], c["tot"] + a["i"][4], 1e-9): bad = f"total {a['t']} at {op[1]} is not core {c['tot']} plus interface {a['i'][4]}"
                elif not rel(a["t"], b["t"], 1e-9): bad = f"total {a['t']} at {op[1]} is not that of the statistics, {b['t']}"
                elif not rel(c["tot"], bank[15] + sum(c["s"]), 1e-9): bad = f"core total {c['tot']} at {op[1]} is not the sum of its parts {bank[15] + sum(c['s'])}"
                elif not rel(a["i"][4], sum(a["i"][:4]), 1e-9): bad = f"interface total {a['i'][4]} at {op[1]} is not the sum of its parts {a['i'][:4]}"
                elif any(not rel(x, y + (c["s"][0] if i in (2, 15) else 0), 1e-9) for i, (x, y) in enumerate(zip(agg, bank))): bad = f"aggregated bank energy {agg} at {op[1]} is not the sum over the banks {bank}"
            if monotone and not bad:
                for path, x, y in walk(a, a):
                    if x < 0: bad = f"energy {path} at {op[1]} is negative: {x}"; break
                if last and not bad:
                    for path, x, y in walk(last[1], a):
                        if y < x - 1e-9 * abs(x): bad = f"energy {path} decreases from {x} at {last[0]} to {y} at {op[1]}"; break
                last = (op[1], a)
            if bad:
                chk.violation(f"{d['std']} step {k}: {bad}", rep); break
    chk.traces += len(lines); chk.add("questions to running memories", obs)


def c17(chk):
    return run(chk, "core", (300, 2), (4000, 3), mc=mc_runner([("LPDDR5", "core", 2)], [(s, "core", n) for s in STDS for n in (1, 2)]),
               post=lambda k, exe, docs: live(k, exe, histories(k, "CoreGen", ["time"], (40, 30), (500, 60)), "c"))


def c18(chk):
    return run(chk, "iface", (500, 4), (6000, 6), mc=mc_runner([("DDR4", "iface", 2)], [(s, "iface", n) for s in STDS for n in (2, 3)][:9]),
               post=lambda k, exe, docs: live(k, exe, histories(k, "IfGen", ["bus", "tog"], (40, 30), (500, 60)), "i"))


def c19(chk):
    def post(k, exe, docs):
        judge(k, exe, gen(k, "iface", *((2000, 3) if k.thorough else (100, 2))))
        live(k, exe, histories(k, "CoreGen", ["time", "ranks"], (60, 40), (500, 60)) + histories(k, "IfGen", ["bus", "data"], (60, 40), (500, 60)), "t", monotone=True)
    return run(chk, "core", (100, 2), (2000, 3), post=post, mc=mc_runner([("DDR5", "core", 1), ("LPDDR6", "iface", 1)], [(s, "core", 1) for s in STDS]))


def c26(chk):
    return run(chk, "spec", (1500, 1), (15000, 1))
