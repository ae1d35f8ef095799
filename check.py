#!/usr/bin/env python3
"""Driver: builds /repo's current sources with one harness, enumerates its spaces on 8 shards, judges, writes evidence.

usage: check.py PROPERTY [quick|thorough]      check.py --replay FILE      check.py --setup
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BLISS_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = os.cpu_count() or 8
sys.path.insert(0, VERIF)
from design import D
from props import PROPS  # id -> dict(harness=[...], libs="bland"|"bliss", ...)

CXX = "clang++"
CFLAGS = ("-O0 -gline-tables-only -fsanitize=address -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -D_GLIBCXX_ASSERTIONS "
          "-std=gnu++17 -w -Wno-c++11-narrowing -DFMT_HEADER_ONLY=1 -DFMT_DEPRECATED_OSTREAM -DBLISS_USE_CAPNP=1").split()
LIBS = "-lfftw3f -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5 -lcapnp -lkj -lstdc++fs -lpthread -ldl".split()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class BuildError(Exception):
    pass


def includes(gen):
    r = REPO
    inc = [gen, f"{r}/bland/bland/include", f"{r}/bland/bland/internal/include", f"{r}/bland/bland", f"{r}/bland/external/dlpack",
           f"{VERIF}/harness"]
    inc += [f"{r}/bliss/{d}/include" for d in ("core", "file_types", "drift_search", "estimators", "flaggers", "preprocess", "rfi")]
    inc += [f"{r}/bliss/file_types", f"{r}/bliss/drift_search", f"{r}/bliss", f"{gen}/file_types"]
    return [f"-I{i}" for i in inc] + ["-isystem", "/usr/include/hdf5/serial"]


def lib_sources(kind):
    """every C++ file of the libraries that is part of a CPU-only build (no tests, programs, python modules, CUDA)"""
    out = []
    base = f"{REPO}/bland/bland"
    for p in sorted(glob.glob(f"{base}/**/*.cpp", recursive=True)):
        rel = os.path.relpath(p, base)
        if rel == "demo.cpp" or "cuda" in rel or "/test" in rel or rel.startswith("test"):
            continue
        out.append(p)
    if kind == "bliss":
        for d in ("core", "file_types", "drift_search", "estimators", "flaggers", "preprocess", "rfi"):
            for p in sorted(glob.glob(f"{REPO}/bliss/{d}/**/*.cpp", recursive=True)):
                rel = os.path.relpath(p, f"{REPO}/bliss/{d}")
                if "cuda" in rel or "test" in os.path.dirname(rel):
                    continue
                out.append(p)
    return out


def compile_one(args):
    src, obj, extra, gen, cxx = args
    flags = CFLAGS if cxx == CXX else [{"-gline-tables-only": "-g1", "-Wno-c++11-narrowing": "-Wno-narrowing"}.get(f, f) for f in CFLAGS]
    cmd = [cxx] + flags + includes(gen) + extra + ["-c", src, "-o", obj]
    env = dict(os.environ)
    if shutil.which("ccache") and os.environ.get("VERIF_NO_CCACHE") is None:
        cmd = ["ccache"] + cmd
        env.update(CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="2G", CCACHE_NOHASHDIR="1", CCACHE_SLOPPINESS="")
    r = sh(cmd, env=env, cwd=BUILD)
    if r.returncode and cmd[0] == "ccache":
        r = sh(cmd[1:], cwd=BUILD)
    return src, r.returncode, r.stdout


def listed_in_cmake(src):
    """is this file named by some CMakeLists (a stray, unbuilt file must not break the check)"""
    d = os.path.dirname(src)
    while d.startswith(REPO):
        f = os.path.join(d, "CMakeLists.txt")
        if os.path.exists(f) and os.path.basename(src) in open(f, errors="replace").read():
            return True
        d = os.path.dirname(d)
    return False


def build(pid):
    try:
        return build_with(pid, CXX if os.environ.get("VERIF_CXX") is None else os.environ["VERIF_CXX"])
    except BuildError as e:
        # the repository is built with GCC, which accepts some code that Clang rejects
        if not shutil.which("g++"):
            raise
        print("note: building with g++, since clang++ rejects the current tree")
        try:
            return build_with(pid, "g++")
        except BuildError:
            raise e


def build_with(pid, cxx):
    p = PROPS[pid]
    os.makedirs(BUILD, exist_ok=True)
    tag = p["harness"][0].split(".")[0]
    out = os.path.join(BUILD, f"b_{tag}_{os.getpid()}")
    if os.path.exists(out):
        shutil.rmtree(out)
    os.makedirs(out)
    gen = os.path.join(out, "gen")
    os.makedirs(f"{gen}/generated")
    with open(f"{gen}/generated/bland_cuda_archs.hpp", "w") as f:
        f.write("#pragma once\n#include <array>\n\n\nconstexpr std::array<int, 0> compiled_archs = {};\n")
    jobs = []
    srcs = lib_sources(p["libs"])
    if p["libs"] == "bliss":
        os.makedirs(f"{gen}/file_types")
        for cap in glob.glob(f"{REPO}/bliss/file_types/*.capnp"):
            r = sh(["capnp", "compile", f"-oc++:{gen}/file_types", f"--src-prefix={REPO}/bliss/file_types", cap])
            if r.returncode:
                raise BuildError("capnp compile failed: " + r.stdout)
        for cc in glob.glob(f"{gen}/file_types/*.capnp.c++"):
            dst = cc[:-3] + "cpp"
            os.rename(cc, dst)
            srcs.append(dst)
    i = 0
    heavy = []
    for h in p["harness"] + ["mc.cpp"]:
        jobs.append((f"{VERIF}/harness/{h}", f"{out}/h{i}.o", [e.replace("{REPO}", REPO) for e in p.get("cflags", [])], gen, cxx)); i += 1
    renames = {}
    for s, extra, newmain in p.get("extra_sources", []):
        if newmain is None:
            jobs.append((s.replace("{REPO}", REPO), f"{out}/h{i}.o", [e.replace("{REPO}", REPO) for e in extra], gen, cxx)); i += 1
            continue
        renames[f"{out}/h{i}.o"] = newmain
        # an exported name of its own, from which the sanitizer derives the module's identity
        with open(f"{gen}/{newmain}.hpp", "w") as f:
            f.write('extern "C" { extern int %s_object; int %s_object = 1; }\n' % (newmain, newmain))
        extra = extra + ["-include", f"{gen}/{newmain}.hpp"]
        jobs.append((s.replace("{REPO}", REPO), f"{out}/h{i}.o", extra, gen, cxx)); i += 1
    for s in srcs:
        jobs.append((s, f"{out}/o{i}.o", [], gen, cxx)); i += 1
    objs, errors = [], []
    # big files first
    jobs.sort(key=lambda j: (0 if "/harness/" in j[0] else 1, -os.path.getsize(j[0])))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for (job, (src, rc, log)) in zip(jobs, ex.map(compile_one, jobs)):
            if rc:
                if src.startswith(REPO) and not listed_in_cmake(src):
                    continue
                errors.append(f"{src}:\n{log[-3000:]}")
            else:
                objs.append(job[1])
    if errors:
        raise BuildError("\n".join(errors))
    for o, newmain in renames.items():
        r = sh(["objcopy", "--redefine-sym", f"main={newmain}", o])
        if r.returncode:
            raise BuildError("objcopy: " + r.stdout)
    exe = f"{out}/mc"
    hobjs = [o for o in objs if os.path.basename(o).startswith("h")]
    lobjs = [o for o in objs if os.path.basename(o).startswith("o")]
    r = sh(["ar", "rcs", f"{out}/libunder.a"] + lobjs)
    r = sh([cxx, "-fsanitize=address"] + (["-fuse-ld=lld"] if cxx == CXX else []) + [ "-o", exe] + hobjs + p.get("ldflags", []) + ["-Wl,--start-group", f"{out}/libunder.a", "-Wl,--end-group"]
           + LIBS)
    if r.returncode:
        r = sh([cxx, "-fsanitize=address", "-o", exe] + hobjs + p.get("ldflags", []) + ["-Wl,--start-group", f"{out}/libunder.a", "-Wl,--end-group"] + LIBS)
    if r.returncode:
        raise BuildError("link: " + r.stdout[-4000:])
    return out, exe


def run_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:handle_abort=0:handle_sigfpe=0:max_malloc_fill_size=1048576:malloc_fill_byte=190:"
                           "free_fill_byte=189:max_free_fill_size=1048576:exitcode=99:allocator_may_return_null=0:quarantine_size_mb=16:"
                           "malloc_context_size=6:detect_stack_use_after_return=0:symbolize=1:log_path=stderr:alloc_dealloc_mismatch=1")
    sym = shutil.which("llvm-symbolizer-18") or shutil.which("llvm-symbolizer")
    if sym:
        env["ASAN_SYMBOLIZER_PATH"] = sym
    env["HDF5_USE_FILE_LOCKING"] = "FALSE"
    env["KJ_CLEAN_SHUTDOWN"] = "0"
    env["MC_REPO"] = REPO
    env["MC_HARNESS"] = f"{VERIF}/harness"
    env["MC_SITE"] = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["PYTHONMALLOC"] = "malloc"
    return env


def run_shards(exe, pid, tier, out, deadline, hard):
    procs = []
    for s in range(JOBS):
        sc = f"{out}/scratch{s}"
        os.makedirs(sc, exist_ok=True)
        err = open(f"{out}/err{s}", "w")
        procs.append(subprocess.Popen([exe, f"--property={pid}", f"--out={out}/r{s}.json", f"--tier={tier}", f"--shard={s}/{JOBS}",
                                       f"--deadline={deadline}", f"--scratch={sc}"], stdout=subprocess.DEVNULL, stderr=err,
                                      env=run_env(), cwd=sc, start_new_session=True))
    t0 = time.time()
    codes = []
    for pr in procs:
        try:
            codes.append(pr.wait(timeout=max(1, hard - (time.time() - t0))))
        except subprocess.TimeoutExpired:
            os.killpg(pr.pid, signal.SIGKILL)
            pr.wait()
            codes.append(-9)
    return codes


def replay(exe, pid, tier, out, space, path, n):
    sc = f"{out}/rscratch{n}"
    os.makedirs(sc, exist_ok=True)
    res = f"{out}/replay{n}.json"
    err = open(f"{out}/replay{n}.err", "w")
    try:
        subprocess.run([exe, f"--property={pid}", f"--out={res}", f"--tier={tier}", f"--scratch={sc}", f"--replay-space={space}",
                        "--replay-path=" + ",".join(map(str, path))], stdout=subprocess.DEVNULL, stderr=err, env=run_env(), cwd=sc, timeout=180)
    except subprocess.TimeoutExpired:
        pass
    try:
        d = json.load(open(res))
    except Exception:
        return None, open(f"{out}/replay{n}.err").read()
    return d, open(f"{out}/replay{n}.err").read()


def asan_summary(err):
    m = re.search(r"ERROR: AddressSanitizer: .*", err)
    frames = [f for f in re.findall(r"#\d+ \S+ in (.*?) (/\S+:\d+)", err)]
    s = m.group(0) if m else ""
    for fn, loc in frames[:8]:
        s += f"\n    {fn} {loc}"
    return s


def known_findings(pid):
    out = {}
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main():
    if sys.argv[1:] == ["--setup"]:
        for t in (CXX, "capnp", "ar", "objcopy"):
            if not shutil.which(t):
                print("missing tool", t)
                return 3
        print("nothing persistent to build: every check compiles /repo's current sources itself")
        return 0
    if sys.argv[1] == "--replay":
        rp = json.load(open(sys.argv[2]))
        out, exe = build(rp["property"])
        try:
            d, err = replay(exe, rp["property"], rp["tier"], out, rp["space"], rp["path"], 0)
            print(json.dumps(d, indent=1))
            print(asan_summary(err))
            return 1 if d and d["violations"] else 0
        finally:
            shutil.rmtree(out, ignore_errors=True)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    p = PROPS[pid]
    try:
        out, exe = build(pid)
    except BuildError as e:
        print(str(e))
        print(f"check error: property={pid} the harness could not be built against the current tree")
        return 3
    keep = os.environ.get("VERIF_KEEP")
    try:
        return decide(pid, tier, p, out, exe, t0)
    finally:
        if not keep:
            shutil.rmtree(out, ignore_errors=True)
        else:
            print("kept", out)


def decide(pid, tier, p, out, exe, t0):
    build_s = time.time() - t0
    deadline = p.get("deadline", 400) if tier == "quick" else p.get("thorough_deadline", 700)
    codes = run_shards(exe, pid, tier, out, deadline, deadline + 120)
    spaces, viol, samples, errors = {}, {}, [], []
    states, outcomes = set(), set()
    for s in range(JOBS):
        try:
            d = json.load(open(f"{out}/r{s}.json"))
        except Exception:
            errors.append(f"shard {s} left no result (exit {codes[s]}): " + open(f"{out}/err{s}").read()[-1500:])
            continue
        if d["error"]:
            errors.append(f"shard {s}: {d['error']}")
        for sp in d["spaces"]:
            e = spaces.setdefault(sp["name"], dict(executions=0, transitions=0, complete=True, pruned=0, slowest_shard_s=0.0))
            e["executions"] += sp["executions"]
            e["transitions"] += sp["steps"]
            e["complete"] &= sp["complete"]
            e["slowest_shard_s"] = max(e["slowest_shard_s"], sp["seconds"])
        samples += d["samples"][:2]
        for v in d["violations"]:
            k = v["key"]
            if k not in viol or len(v["path"]) < len(viol[k]["path"]):
                c = viol.get(k, {}).get("count", 0)
                viol[k] = v
                viol[k]["count"] += c
        for n, dst in (("states", states), ("outcomes", outcomes)):
            try:
                b = open(f"{out}/r{s}.json.{n}", "rb").read()
                dst.update(struct.unpack(f"<{len(b)//8}Q", b))
            except FileNotFoundError:
                pass
    known = known_findings(pid)
    rc = 0
    reported = []
    real = {}
    for i, (k, v) in enumerate(sorted(viol.items(), key=lambda kv: len(kv[1]["path"]))[:25]):
        d, err = replay(exe, pid, tier, out, v["space"], v["path"], i)
        rv = (d or {}).get("violations") or []
        if d is None or not rv:
            errors.append(f"violation {k} in space {v['space']} did not reproduce in a fresh process: {v['msg']} path={v['path']}")
            continue
        rv[0]["key"] = rv[0]["key"] if rv[0]["key"] else k
        rv[0]["asan"] = asan_summary(err)
        rv[0]["notes"] = rv[0]["notes"] or v["notes"]
        rv[0]["count"] = v["count"]
        real[rv[0]["key"]] = rv[0]
    for k, v in real.items():
        if k in known:
            print(f"KNOWN-FINDING: property={pid} {k}: {known[k]}")
            continue
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f"{pid}-{hashlib.sha1(k.encode()).hexdigest()[:10]}.json")
        json.dump(dict(property=pid, tier=tier, key=k, message=v["msg"], space=v["space"], path=v["path"], trace=v["notes"].split("\n"),
                       sanitizer=v["asan"].split("\n"), how=f"{VERIF}/check.py --replay {rp}"), open(rp, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={rp}")
        print(f"  key={k} occurrences={v['count']} space={v['space']}\n  {v['msg']}")
        if v["asan"]:
            print("  " + v["asan"].replace("\n", "\n  "))
        if v["notes"]:
            print("  trace:\n    " + v["notes"].strip()[:3000].replace("\n", "\n    "))
        reported.append(k)
        rc = 1
    complete = bool(spaces) and all(s["complete"] for s in spaces.values()) and not errors and not viol
    ex = sum(s["executions"] for s in spaces.values())
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "0") or 0), level=p.get("level", "model_checking"),
              coverage=dict(states=len(states) or len(outcomes), transitions=sum(s["transitions"] for s in spaces.values()),
                            traces_validated_against_impl=ex,
                            executions=ex, distinct_outcomes=len(outcomes), exhaustive=complete,
                            bounds=D[pid]["bounds"], spaces=spaces, samples=[s for s in samples if s][:8],
                            explanation="every choice sequence of each space was executed on the real code and compared with the reference "
                                        "model step by step, so every enumerated model trace is also an implementation trace"),
              assumptions=[x for x in (D[pid].get("assume"), "small shapes run the same code as large ones where no large shape is enumerated", "the reference in the harness, the compiler and the sanitizer runtime are trusted") if x], wall_s=round(time.time() - t0, 2), violations=len(real))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
    for n, s in spaces.items():
        print(f"  {n}: {s['executions']} executions, {s['transitions']} steps, {s['slowest_shard_s']:.1f}s{'' if s['complete'] else ' (INCOMPLETE)'}")
    print(f"{pid} {tier}: {ex} executions, {len(states)} states, {len(outcomes)} outcomes, build {build_s:.1f}s, total {time.time()-t0:.1f}s")
    if rc == 0 and errors:
        print("check error: " + "\n".join(errors))
        return 3
    if errors:
        print("note: " + "\n".join(errors))
    if rc == 0 and not complete and not real:
        print("note: some space was not finished within its deadline")
    return rc


if __name__ == "__main__":
    sys.exit(main())
