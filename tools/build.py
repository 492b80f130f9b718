"""Compiles /repo's sources and the harnesses of /verif into /verif/build, with a content-hash object cache."""
import fcntl, glob, hashlib, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(ROOT, "build"))
ENV = {k: v for k, v in os.environ.items() if k not in ("CPATH", "CPLUS_INCLUDE_PATH", "C_INCLUDE_PATH", "LIBRARY_PATH", "LD_LIBRARY_PATH", "CXXFLAGS", "CFLAGS", "LDFLAGS")}
ENV["LC_ALL"] = "C.UTF-8"
INC = f"-I{REPO}/include -I{REPO}/export -I{BUILD}/inc -I{ROOT}/lib -I{ROOT}/checks -isystem /opt/vp/compat -isystem /opt/vp/compat/include -isystem /usr/include/Imath -isystem /usr/include/hdf5/serial".split()
BASE = "-std=gnu++14 -fPIC -w -DREQUIRE_IOSTREAM -DBOOST_TIMER_ENABLE_DEPRECATED -fno-omit-frame-pointer".split()
# repo = flags for the code under test; har = flags for harness and framework code
VARIANTS = {
    "asan": dict(repo=["-O1", "-g1", "-fsanitize=address"], har=["-O1", "-g1", "-fsanitize=address"], link=["-fsanitize=address"], lib=["vp.cpp"]),
    "plain": dict(repo=["-O1", "-g1"], har=["-O1", "-g1"], link=[], lib=["vp.cpp"]),
    # code under test is instrumented for the schedule explorer's own runtime, which is not
    "sched": dict(repo=["-O1", "-g1", "-fsanitize=thread", "-fno-PIC", "-fno-pie"], har=["-O1", "-g1", "-fsanitize=thread", "-fno-PIC", "-fno-pie"],
                  rt=["-O2", "-g1", "-fno-PIC", "-fno-pie"], link=["-no-pie"], lib=["vp.cpp", "xsched.cpp"]),
}
LIBS = "-lImath-3_1 -lhdf5_serial -lboost_regex -lboost_thread -lboost_program_options -lboost_system -lboost_chrono -lz -ldl -lpthread".split()

def sha(path, memo={}):
    try: st = os.stat(path)
    except OSError: return None
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in memo:
        with open(path, "rb") as f: memo[k] = hashlib.sha256(f.read()).hexdigest()[:24]
    return memo[k]

class BuildError(Exception): pass

def deps_of(dfile):
    txt = open(dfile).read().replace("\\\n", " ")
    out = []
    for t in txt.split(":", 1)[1].split():
        r = os.path.realpath(t)
        if r.startswith(("/usr/", "/opt/", "/lib")): continue
        out.append(r)
    return sorted(set(out))

def compile_one(src, flags, variant):
    key = hashlib.sha256(("\0".join(flags) + "\0" + src).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "cache"); os.makedirs(d, exist_ok=True)
    idx = os.path.join(d, f"{os.path.basename(src)}.{key}.json")
    entries = []
    if os.path.exists(idx):
        try: entries = json.load(open(idx))
        except ValueError: entries = []
    for e in entries:
        if os.path.exists(e["obj"]) and all(sha(p) == h for p, h in e["deps"]):
            return e["obj"]
    tmp = os.path.join(d, f"{os.path.basename(src)}.{key}.{os.getpid()}")
    cmd = ["clang++"] + flags + ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"]
    r = subprocess.run(cmd, env=ENV, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(f"{' '.join(cmd)}\n{r.stderr[-6000:]}")
    deps = [(p, sha(p)) for p in deps_of(tmp + ".d")]
    ch = hashlib.sha256(json.dumps(deps).encode()).hexdigest()[:16]
    obj = os.path.join(d, f"{os.path.basename(src)}.{key}.{ch}.o")
    os.replace(tmp + ".o", obj); os.unlink(tmp + ".d")
    entries = [dict(obj=obj, deps=deps)] + [e for e in entries if e["obj"] != obj]
    for e in entries[3:]:
        if os.path.exists(e["obj"]): os.unlink(e["obj"])
    json.dump(entries[:3], open(idx + f".{os.getpid()}", "w")); os.replace(idx + f".{os.getpid()}", idx)
    return obj

def repo_sources():
    return sorted(glob.glob(f"{REPO}/src/*.cpp"))

def prepare():
    os.makedirs(f"{BUILD}/inc", exist_ok=True)
    l = f"{BUILD}/inc/Field3D"
    if os.path.islink(l) and os.readlink(l) != f"{REPO}/export": os.unlink(l)
    if not os.path.islink(l): os.symlink(f"{REPO}/export", l)

def build(targets, jobs=8):
    """targets: list of (name, [harness sources], variant, extra flags). Returns {name: binary}."""
    prepare()
    with open(f"{BUILD}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        work = {}
        order = []
        def add(src, flags, variant):
            k = (src, tuple(flags))
            if k not in work: work[k] = None; order.append((src, flags, variant))
            return k
        plan = []
        for name, srcs, variant, extra in targets:
            v = VARIANTS[variant]
            hf = BASE + v["har"] + extra + INC
            rf = BASE + v["repo"] + INC
            lf = BASE + v.get("rt", v["har"]) + INC
            keys = [add(os.path.join(ROOT, "checks", s) if not s.startswith("/") else s, hf, variant) for s in srcs]
            keys += [add(os.path.join(ROOT, "lib", s), lf, variant) for s in v["lib"]]
            lk_keys = [add(s, rf, variant) for s in repo_sources()]
            plan.append((name, keys, lk_keys, v))
        # biggest first
        big = ["MIPFieldIO", "SparseFieldIO", "Field3DFile.cpp", "MIPUtil", "MinMaxUtil", "DenseFieldIO", "MACFieldIO", "FieldInterp"]
        def prio(o):
            b = os.path.basename(o[0])
            if "/checks/" in o[0]: return -1
            for i, x in enumerate(big):
                if b.startswith(x): return i
            return 99
        order.sort(key=prio)
        with ThreadPoolExecutor(jobs) as ex:
            futs = [((s, tuple(f)), ex.submit(compile_one, s, f, v)) for s, f, v in order]
            err = None
            for k, fu in futs:
                try: work[k] = fu.result()
                except BuildError as e: err = err or e
            if err: raise err
        out = {}
        os.makedirs(f"{BUILD}/bin", exist_ok=True)
        def link(p):
            name, keys, lk_keys, v = p
            objs = [work[k] for k in keys]; lib = [work[k] for k in lk_keys]
            h = hashlib.sha256("\0".join(objs + lib).encode()).hexdigest()[:16]
            binp = f"{BUILD}/bin/{name}"
            if os.path.exists(binp) and os.path.exists(binp + ".key") and open(binp + ".key").read() == h: return name, binp
            r = subprocess.run(["clang++"] + objs + lib + v["link"] + LIBS + ["-rdynamic", "-o", binp], env=ENV, capture_output=True, text=True)
            if r.returncode: raise BuildError("link " + name + "\n" + r.stderr[-6000:])
            open(binp + ".key", "w").write(h)
            return name, binp
        with ThreadPoolExecutor(jobs) as ex:
            for n, b in ex.map(link, plan): out[n] = b
        return out
