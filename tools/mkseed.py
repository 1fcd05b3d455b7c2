#!/usr/bin/env python3
"""mkseed.py <id>...: builds /verif/seeded/<id>/ from tools/seeds/<id>.py and validates it in a scratch copy.
A seed file defines PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (C++ main), SRC ("all" or list of sources)."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); WORK = "/tmp/seedwork"
SH = '''#!/bin/bash
# exit 0: behaves as the property says; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -r "$w"' EXIT
inc="-I src/DRAMPower -I $here/shim/include -I lib %(inc)s"
srcs="%(srcs)s"
printf '%%s\\n' $srcs | xargs -P 8 -I@ sh -c 'g++ -std=c++17 -O0 -w -DNDEBUG %(defs)s '"$inc"' -c @ -o '"$w"'/$(echo @ | tr / _).o' || exit 3
g++ -std=c++17 -O0 -w -DNDEBUG %(defs)s -I "$here" $inc "$here/demo.cpp" "$w"/*.o -o "$w/demo" -lpthread %(libs)s 2>"$w/err" || { head -20 "$w/err"; exit 3; }
cd "$w" && DEMO_DATA="$here/shim/data" timeout 60 ./demo
'''

def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)

def main():
    keep = not os.path.exists(WORK)
    for sid in sys.argv[1:]:
        s = runpy.run_path(f"{V}/tools/seeds/{sid}.py")
        d = f"{V}/seeded/{sid}"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        if not os.path.exists(WORK + "/repo"):
            os.makedirs(WORK, exist_ok=True); sh(f"cp -a /repo {WORK}/repo")
        w = WORK + "/repo"
        sh("git checkout -q -- . && git fetch -q ${MKREPO:-/repo} HEAD && git reset -q --hard FETCH_HEAD", w)
        src = s.get("SRC", "all")
        if src == "all":
            srcs = "$(find src/DRAMPower/DRAMPower -name '*.cpp' | sort)"
        elif src == "cli":
            srcs = "$(find src/DRAMPower/DRAMPower src/cli/lib -name '*.cpp' | sort)"
        else:
            srcs = " ".join(src)
        with open(d + "/demo.sh", "w") as f:
            f.write(SH % dict(srcs=srcs, libs="-lfmt" if src == "cli" else "", defs='-DDRAMPOWER_VERSION_STRING=\\"5\\"' if src == "cli" else "", inc="-I src/cli/lib" if src == "cli" else ""))
        shutil.copytree(V + "/shim/include", d + "/shim/include")
        shutil.copytree(V + "/data", d + "/shim/data")
        shutil.copy(V + "/tools/seeds/demo.h", d + "/demo.h"); open(d + "/demo.cpp", "w").write(s["DEMO"].lstrip())
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        r = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
        if r.returncode:
            print(sid, "DEMO FAILS ON UNCHANGED", r.returncode, r.stdout[-600:], r.stderr[-600:]); continue
        bad = False
        for f, old, new in s["EDITS"]:
            t = open(f"{w}/{f}").read()
            if t.count(old) != 1:
                print(sid, "EDIT MATCHES", t.count(old), f); bad = True; break
            open(f"{w}/{f}", "w").write(t.replace(old, new))
        if bad: continue
        open(d + "/patch.diff", "w").write(sh("git diff", w).stdout)
        # stable tests, in the copy
        r = sh("rm -rf _t; cmake -S /opt/vp/cmake -B _t -G Ninja -DREPO=%s -DCMAKE_BUILD_TYPE=RelWithDebInfo >/dev/null && cmake --build _t -j8 2>&1 | tail -3 && ctest --test-dir _t 2>&1 | tail -3" % w, w)
        if "100% tests passed" not in r.stdout:
            print(sid, "TESTS", r.stdout[-1500:]); continue
        r2 = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
        extra = ""
        if os.path.exists("/tmp/full/CMakeLists.txt") and "--full" in sys.argv: pass
        print(sid, "OK" if r2.returncode not in (0, 3) else f"NOT DETECTED BY DEMO {r2.returncode}", r2.stdout.strip()[-200:], r2.stderr[-300:] if r2.returncode == 3 else "")
        sh("git checkout -q -- .; rm -rf _t", w)

main()
