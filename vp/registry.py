"""property -> check"""
import subprocess, os
from . import common as C
from . import core, util, energy, cli
from .core import STDS

M = core.mc_runner
IM = core.ifmc_runner
CHECKS = {
    "C01": lambda k: core.run(k, "count", mc=M([dict(STD="LPDDR5", TMAX=5, CM="acc"), dict(STD="DDR5", TMAX=4, NBG=2)],
                                              [dict(STD=s, TMAX=6) for s in STDS] + [dict(STD="DDR5", TMAX=4, NBG=2, BPG=2, CM="ref")])),
    "C02": lambda k: core.run(k, "time", mc=M([dict(STD="LPDDR4", TMAX=4, BPG=2), dict(STD="LPDDR6", TMAX=5)],
                                             [dict(STD=s, TMAX=7) for s in STDS] + [dict(STD=s, TMAX=6, SLOW=1) for s in STDS] + [dict(STD="LPDDR4", TMAX=5, BPG=2)])),
    "C03": lambda k: core.run(k, "autopre", mc=M([dict(STD="DDR4", TMAX=6, CM="acc"), dict(STD="LPDDR5", TMAX=6, CM="acc", SLOW=1)],
                                                [dict(STD=s, TMAX=8, CM="acc") for s in STDS] + [dict(STD=s, TMAX=6, BPG=2, CM="acc") for s in STDS])),
    "C04": lambda k: core.run(k, "refresh", mc=M([dict(STD="DDR5", TMAX=4, NBG=2, BPG=2, CM="ref"), dict(STD="LPDDR4", TMAX=5, BPG=2, CM="ref")],
                                                [dict(STD=s, TMAX=7, BPG=2, CM="ref") for s in STDS])),
    "C05": lambda k: core.run(k, "pd", mc=M([dict(STD="LPDDR4", TMAX=6, CM="low"), dict(STD="DDR4", TMAX=5, BPG=2, CM="low")],
                                           [dict(STD=s, TMAX=8, CM="low") for s in STDS] + [dict(STD=s, TMAX=6, BPG=2, CM="low") for s in STDS])),
    "C06": lambda k: core.run(k, "sref", mc=M([dict(STD="LPDDR5", TMAX=6, CM="low"), dict(STD="DDR5", TMAX=5, CM="low", SLOW=1)],
                                             [dict(STD=s, TMAX=9, CM="low") for s in STDS] + [dict(STD=s, TMAX=7, CM="low", SLOW=1) for s in STDS])),
    "C08": lambda k: core.run(k, "ranks", post=core.c08_post, mc=M([dict(STD="DDR4", TMAX=2, NRK=2), dict(STD="LPDDR4", TMAX=2, NRK=2)],
                                                                   [dict(STD=s, TMAX=3, NRK=2) for s in STDS] + [dict(STD="LPDDR4", TMAX=2, NRK=2, CPC=2)])),
    "C09": lambda k: core.run(k, "pattern", module="IfGen", quick=(300, 50), thorough=(4000, 70), mc=IM([(1, 5, 2)], [(1, 9, 3), (2, 6, 2)]),
                              post=lambda c, exe, docs: util.run(c, [("encode", (400, 60), (6000, 90))])),
    "C10": lambda k: core.run(k, "bus", module="IfGen", quick=(300, 50), thorough=(4000, 70), mc=IM([(1, 6, 3), (2, 4, 2)], [(1, 10, 3), (2, 6, 2), (3, 4, 2)])),
    "C11": lambda k: core.run(k, "data", module="IfGen", quick=(200, 40), thorough=(2500, 60), mc=IM([(2, 4, 2)], [(1, 9, 4), (2, 6, 2)])),
    "C12": lambda k: core.run(k, "tog", module="IfGen", quick=(300, 40), thorough=(4000, 60)),
    "C13": lambda k: core.run(k, "clock", module="IfGen", quick=(300, 40), thorough=(4000, 60)),
    "C14": lambda k: core.run(k, "dbi", module="IfGen", quick=(200, 40), thorough=(2000, 60), mc=IM([(1, 4, 2)], [(1, 9, 4)]),
                              post=lambda c, exe, docs: util.run(c, [("dbi", (300, 50), (5000, 80))], util.mc_runner(
                                  [dict(N=3, CS=2, PINS=1, M=2), dict(N=2, CS=3, PINS=0, M=2)],
                                  [dict(N=5, CS=2, PINS=1, M=2), dict(N=5, CS=3, PINS=0, M=2), dict(N=4, CS=3, PINS=1, M=2), dict(N=1, CS=2, PINS=2, M=2)], "InversionMC"))),
    "C15": lambda k: core.run(k, "frame", module="IfGen", quick=(400, 40), thorough=(5000, 60), stds=["LPDDR6"], mc=IM([(1, 4, 2)], [(1, 9, 4)])),
    "C16": lambda k: core.run(k, "prepos", module="IfGen", quick=(1000, 40), thorough=(10000, 60), stds=["DDR4"]),
    "C07": lambda k: core.run(k, "query", module="FullGen", quick=(150, 40), thorough=(2000, 60), with_variants=False, post=core.c07_post),
    "C20": lambda k: core.run(k, "ser", module="FullGen", quick=(200, 50), thorough=(2500, 70), with_variants=False),
    "C22": lambda k: util.run(k, [("bits", (400, 60), (6000, 90)), ("sub", (300, 60), (4000, 90))], util.mc_runner([dict(MODE="bits", N=5)], [dict(MODE="bits", N=7)])),
    "C23": lambda k: util.run(k, [("interval", (500, 60), (8000, 90))], util.mc_runner([dict(MODE="interval", N=6)], [dict(MODE="interval", N=9)])),
    "C24": lambda k: util.run(k, [("dyn", (300, 60), (4000, 90)), ("stat", (300, 60), (4000, 90)), ("settings", (200, 60), (2000, 90))], util.mc_runner([dict(MODE="registry", N=3)], [dict(MODE="registry", N=4)])),
    "C25": lambda k: util.run(k, [("names", (600, 60), (8000, 90))], util.mc_runner([dict(MODE="registry", N=2)], [])),
    "C29": lambda k: util.run(k, [("queue", (500, 60), (8000, 90))], util.mc_runner([dict(MODE="queue", N=3)], [dict(MODE="queue", N=4)])),
    "C17": energy.c17, "C18": energy.c18, "C19": energy.c19, "C26": energy.c26, "C27": cli.c27,
    "C28": cli.c28,
    "C30": lambda k: util.run(k, [("lines", (700, 60), (8000, 90))], util.mc_runner(
        [dict(MODE="bus", N=2, DR=2, W=1), dict(MODE="data", N=2, DR=2, W=1), dict(MODE="tog", N=3, DR=2, W=1), dict(MODE="clock", N=6, DR=2, W=1), dict(MODE="pin", N=4, DR=1, W=1)],
        [dict(MODE="bus", N=3, DR=1, W=2), dict(MODE="bus", N=2, DR=2, W=2), dict(MODE="bus", N=5, DR=1, W=1), dict(MODE="bus", N=3, DR=2, W=1), dict(MODE="tog", N=4, DR=2, W=1),
         dict(MODE="tog", N=5, DR=1, W=1), dict(MODE="data", N=3, DR=1, W=2), dict(MODE="data", N=2, DR=2, W=2), dict(MODE="clock", N=9, DR=4, W=1), dict(MODE="pin", N=5, DR=2, W=1), dict(MODE="pin", N=8, DR=1, W=1)], "LinesMC")),
    "C31": lambda k: core.run(k, "split", module="FullGen", quick=(150, 60), thorough=(2000, 80), with_variants=False),
    "C32": lambda k: core.run(k, "refuse", module="FullGen", quick=(150, 60), thorough=(2000, 80), with_variants=False),
    "C21": lambda k: core.run(k, "copy", module="FullGen", quick=(200, 50), thorough=(2500, 70), with_variants=False, post=core.c21_post),
}


def setup():
    for tool in ("g++", "java"):
        if subprocess.run(["which", tool], capture_output=True).returncode:
            print("missing", tool); return 1
    os.makedirs(C.BUILD, exist_ok=True)
    return 0

TECH = {}
NOTE = {"*": "TLC generates legal behaviours of the TLA+ specification with the expected observations; each is replayed through the public API of the current sources and compared exactly. Bounded by the number and length of generated behaviours and the parameter ranges in the generator."}
NA = {}
