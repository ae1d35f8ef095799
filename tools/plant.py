#!/usr/bin/env python3
"""Confirm a planted bug (seeded/<id>/) in a scratch copy of /repo bound over /repo in a private mount namespace.

plant.py new SPEC.py        write patch.diff/demo/meta from a spec (list BUGS of dicts)
plant.py confirm ID...      demo passes unpatched; patched: builds, stable tests pass, demo fails; then runs the property's quick check
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant/repo"
DEMO = r'''#!/bin/bash
# builds demo.cpp against the libraries of the build in /repo/_build and runs it in a scratch directory
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"; B="$R/_build"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
I="-I$R/bland/bland/include -I$R/bland/external/dlpack -isystem /usr/include/hdf5/serial"
for d in core file_types drift_search estimators flaggers preprocess rfi; do I="$I -I$R/bliss/$d/include"; done
L="$B/bliss/file_types/libfile_types.a $B/bliss/file_types/libbliss_serialization.a $B/bliss/drift_search/libdrift_search.a $B/bliss/drift_search/libdrift_search_kernels.a $B/bliss/flaggers/libflaggers.a $B/bliss/estimators/libestimators.a $B/bliss/preprocess/libbliss_preprocess.a $B/bliss/core/libbliss_core.a $B/bland/bland/libbland.a"
g++ -std=c++17 -O1 -w -DFMT_HEADER_ONLY=1 -DFMT_DEPRECATED_OSTREAM -DBLISS_USE_CAPNP=1 $I "$D/demo.cpp" -o "$T/demo" -Wl,--start-group $L -Wl,--end-group -lfftw3f -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5 -lcapnp -lkj -lpthread -ldl || exit 3
cd "$T" && timeout 120 ./demo
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    os.makedirs("/tmp/plant", exist_ok=True)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if not os.path.exists(W) or sh(f"git -C {W} rev-parse HEAD").stdout.strip() != head:
        shutil.rmtree(W, ignore_errors=True)
        sh(f"cp -a /repo {W}")
        print(inside("bash /opt/vp/build.sh").stdout[-200:])
    sh(f"git -C {W} checkout -q -- .")


def inside(cmd, **kw):
    return sh(["unshare", "-Urm", "bash", "-c", f"mount --bind {W} /repo && cd /repo && {cmd}"], **kw)


def new(spec):
    ns = {}
    exec(open(spec).read(), ns)
    fresh()
    for b in ns["BUGS"]:
        d = f"{V}/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[-1]
        orig = False
        for f, a, z in b["edits"]:
            p = f"{W}/{f}"
            s = open(p).read()
            n = s.count(a)
            assert n == 1 or b.get("all"), (b["id"], f, n)
            # which lines disappear
            at = s[:s.index(a)].count("\n") + 1
            bl = sh(f"git -C {W} blame -s -L {at},{at + a.rstrip(chr(10)).count(chr(10))} HEAD -- {f}").stdout
            subj = [sh(f"git -C {W} log -1 --format=%s {l.split()[0].lstrip('^')}").stdout for l in bl.splitlines()]
            orig |= any(not x.startswith("fix:") for x in subj)
            open(p, "w").write(s.replace(a, z))
        if not orig:
            print("WARNING", b["id"], "touches only lines of fix commits")
        open(f"{d}/patch.diff", "w").write(sh(f"git -C {W} diff").stdout)
        sh(f"git -C {W} checkout -q -- .")
        demo_sh = b.get("demo_sh", DEMO)
        if demo_sh == "PYH5":      # demo.cpp makes a recording, demo.py looks at it
            demo_sh = DEMO + '[ $? = 0 ] && PYTHONPATH="$B/bliss/python/blissdedrift" timeout 120 python3-vt "$D/demo.py"\n'
        if "PROGRAM" in b.get("demo", ""):
            demo_sh = demo_sh.replace('cd "$T"', 'export PROGRAM="$B/bliss/bliss_find_hits"; cd "$T"')
        open(f"{d}/demo.sh", "w").write(demo_sh)
        if "demo_py" in b:
            open(f"{d}/demo.py", "w").write(b["demo_py"])
        os.chmod(f"{d}/demo.sh", 0o755)
        if "demo" in b:
            open(f"{d}/demo.cpp", "w").write(b["demo"])
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
        print("wrote", b["id"])


def confirm(ids, check=True):
    fresh()
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    inside("bash /opt/vp/build.sh")
    for i in ids:
        d = f"{V}/seeded/{i}"
        p = json.load(open(f"{d}/meta.json"))["property"]
        res = [i]
        r = inside(f"bash {d}/demo.sh")
        res.append("clean-demo=%d" % r.returncode)
        if r.returncode:
            print(r.stdout[-1500:])
        a = sh(f"git -C {W} apply {d}/patch.diff")
        if a.returncode:
            print(i, "DOES NOT APPLY", a.stdout); continue
        r = inside("bash /opt/vp/build.sh")
        res.append("build=%d" % r.returncode)
        if r.returncode:
            print(r.stdout[-1500:])
        r = inside("bash /opt/vp/test.sh /tmp/plant/t.json")
        t = open("/tmp/plant/t.json").read()
        j = json.loads(t)
        passed = set(j.get("passed", []))
        res.append("stable-missing=%s" % (sorted(stable - passed) if passed else t[:300]))
        r = inside(f"bash {d}/demo.sh")
        res.append("patched-demo=%d" % r.returncode)
        if check:
            r = inside(f"cd {V} && python3 check.py {p} quick")
            res.append("check=%d" % r.returncode)
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "  [" in l]
            res.append(" | ".join(v)[:300])
            keys = [l.split()[0][4:] for l in r.stdout.splitlines() if l.startswith("  key=")]
            f = f"{V}/tools/planted.json"
            log = json.load(open(f)) if os.path.exists(f) else {}
            log[i] = dict(property=p, caught=r.returncode == 1 and bool(v), keys=keys[:4], runs=log.get(i, {}).get("runs", []) + [r.returncode])
            json.dump(log, open(f, "w"), indent=1, sort_keys=True)
        sh(f"git -C {W} checkout -q -- .")
        print(*res, sep="  ", flush=True)
    inside("bash /opt/vp/build.sh")


if __name__ == "__main__":
    if sys.argv[1] == "new":
        new(sys.argv[2])
    else:
        confirm(sys.argv[2:])
