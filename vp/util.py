"""C22-C25 and the deferred-command queue: component histories replayed on the components alone."""
import concurrent.futures as cf
from . import common as C

# words of an operation before the expected observation, per kind
NARGS = {
    "bits": {"d": 2, "oob": 3, "eq": 3, "eqv": 3},
    "sub": {"d": 2, "oob": 3, "eq": 3, "eqv": 3, "big": 2},
    "interval": {"iv": 2, "close": 2},
    "queue": {"proc": 2},
    "names": {"all": 1, "from": 2, "num": 2, "data": 2, "router": 2, "exec": 3, "coord": 8},
    "dyn": {"has": 2, "put": 3, "get": 2, "hook": 2, "ser": 1},
    "stat": {"has": 2, "get": 2, "hook": 3},
    "records": {"json": 3, "read": 3, "add": 4, "eq": 4, "ser": 3, "mul": 3, "total": 3, "agg": 2},
    "lines": {"pq": 3, "pser": 3, "bq": 2, "dq": 2, "dmode": 1, "cq": 2, "tq": 2, "tget": 1, "bser": 3, "dser": 2, "cser": 2, "tser": 1},
    "dbi": {"dup": 4, "drst": 2, "dser": 1, "dinv": 1, "dst": 1},
    "encode": {"enc": 6, "word": 6, "unset": 2, "level": 2, "ser": 1},
    "settings": {"enable": 3, "isen": 1, "dser": 1, "mget": 1, "mser": 1, "mset": 3},
}


def nargs(kind, op):
    return NARGS["sub" if kind.startswith("sub") else "stat" if kind.startswith("stat") else kind].get(op[0])


def expected(kind, op):
    n = nargs(kind, op)
    return op[n] if n is not None and len(op) > n else None


def strip(kind, op):
    n = nargs(kind, op)
    return op if n is None else op[:n]


MODULE = {"records": "ReportGen", "sums": "ReportGen", "lines": "LinesGen", "encode": "EncodeGen", "dbi": "InversionGen"}
T0S = {"interval": [0, 1 << 40], "queue": [0, 1 << 40]}


def shifts(d):
    """Times a history is replayed at: a line group that is off at the start may start anywhere."""
    if d["kind"] == "lines":
        o = d["ops"][0]
        if o[0] == "pin": return [0]
        off = o[2] if o[0] == "clk" else 1 - o[-1]
        return [0, 1 << 40] if off and o[0] != "data" else [0]
    return T0S.get(d["kind"], [0])


def judge(chk, exe, docs):
    lines, meta = [], {}
    for i, d in enumerate(docs):
        for t0 in shifts(d):
            n = len(lines)
            l = {"id": n, "kind": d["kind"], "ops": [strip(d["kind"], o) for o in d["ops"]]}
            if t0: l["T0"] = t0 + i
            lines.append(l); meta[n] = d
    res = C.run_driver(exe, lines)
    obs = 0
    for n, d in meta.items():
        o = res.get(n)
        if o is None or "out" not in o:
            chk.violation(f"{d['kind']}: died on a legal history: {str(o)[:300]}", {"driver": "util", "line": lines[n]}); continue
        for k, op in enumerate(d["ops"]):
            e = expected(d["kind"], op); g = o["out"][k]
            if e is None:
                if isinstance(g, dict) and "exc" in g:
                    chk.violation(f"{d['kind']} step {k} {op}: refused: {g['exc']}", {"driver": "util", "line": lines[n]}); break
                continue
            obs += 1
            if g != e:
                chk.violation(f"{d['kind']} step {k} {strip(d['kind'], op)}: expected {str(e)[:200]}, reported {str(g)[:200]}",
                              {"driver": "util", "line": lines[n], "expected": [expected(d["kind"], x) for x in d["ops"]]}); break
    chk.traces += len(lines); chk.add("observations", obs)


def mc_runner(quick, deep, module="UtilMC"):
    def go(chk):
        for e in (list(quick) + list(deep) if chk.thorough else quick):
            r = C.tlc_check(module, module + ".cfg", e, workers=4 if chk.thorough else 2, timeout=800)
            if r.violated:
                raise C.Broken("the specification contradicts itself: " + r.violated + "\n" + r.out[-3000:])
            chk.states += r.states; chk.transitions += r.transitions
            chk.detail.setdefault("exhaustive instances", []).append({**e, "states": r.states, "transitions": r.transitions, "depth": r.depth})
    return go


def run(chk, profiles, mc=None):
    """profiles: list of (name, (histories, steps) quick, (histories, steps) thorough)"""
    def gen(a):
        i, (p, q, t) = a
        num, steps = t if chk.thorough else q
        return p, C.tlc_gen(MODULE.get(p, "UtilGen"), {"PROFILE": p, "STEPS": steps}, num, steps + 10, chk.seed * 1000 + 17 * i + 3, 800)
    with cf.ThreadPoolExecutor(6) as ex:
        fb = ex.submit(C.build, "util")
        fm = ex.submit(mc, chk) if mc else None
        gens = list(ex.map(gen, enumerate(profiles)))
        exe = fb.result()
        if fm: fm.result()
    docs = []
    for p, g in gens:
        docs += g.docs
        chk.states += g.states; chk.transitions += g.states - len(g.docs)
        chk.add("behaviours " + p, len(g.docs))
    chk.detail["distinct operation sequences"] = len({(d["kind"], tuple(o[0] for o in d["ops"])) for d in docs})
    chk.sample_list = [{"kind": d["kind"], "ops": d["ops"]} for d in docs[:2]]
    judge(chk, exe, docs)
    return docs
