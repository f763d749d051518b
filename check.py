#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decides one property on /repo's current working tree
   check.py --setup                            builds everything once
   check.py --replay FILE                      runs one replay file, with a description of the case
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Anything else: an error of the check."""
import sys, os, json, hashlib, subprocess, fcntl, time, shutil, tempfile, re

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TRAX_REPO", "/repo")
BUILD = os.path.join(V, "build")
NCPU = os.cpu_count() or 4
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=alignment,float-cast-overflow"
CFLAGS = "-O1 -g1 -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern " + SAN
WRAP = ",".join("--wrap=" + f for f in ("read", "write", "recv", "send", "readv", "writev"))

MEX = ["-DOCTAVE", "-I" + os.path.join(V, "harness"), "-isystem/usr/include/octave-8.4.0/octave/..", "-isystem/usr/include/octave-8.4.0/octave"]

PLAYER_INC = ["-DTRAX_BUILD_OPENCV", "-isystem/usr/include/opencv4", "-I" + os.path.join(REPO, "support", "opencv", "include")]

# group -> harness sources, link flavour
GROUPS = {
    "session": dict(src=["harness/session.cpp"], wrap=True),
    "data":    dict(src=["harness/data.cpp"]),
    "region":  dict(src=["harness/region.cpp"]),
    "cpp":     dict(src=["harness/cpp.cpp"], wrap=True),
    "locale":  dict(src=["harness/locale.cpp"], wrap=True, locales=True),
    "threads": dict(src=["harness/threads.cpp"], flags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread"),
    "proc":    dict(src=["harness/proc.cpp"], client=True, child="harness/child/child.c"),
    "opencv":  dict(src=["harness/opencv.cpp"], repo_src=["support/opencv/opencv.cpp"], inc=["-isystem/usr/include/opencv4", "-I" + os.path.join(REPO, "support", "opencv", "include"), "-DTRAX_BUILD_OPENCV"],
                    libs=["-lopencv_core", "-lopencv_imgproc", "-lopencv_imgcodecs", "-lopencv_highgui"]),
    "mexserver": dict(src=["harness/mexserver.cpp", "harness/mex/mexrt.cpp"], wrap=True, repo_src=["support/matlab/traxserver.cpp", "support/matlab/helpers.cpp"], inc=MEX),
    "mexclient": dict(src=["harness/mexclient.cpp", "harness/mex/mexrt.cpp"], wrap=True, client=True, child="harness/child/child.c",
                      repo_src=["support/matlab/traxclient.cpp", "support/matlab/helpers.cpp"], inc=MEX),
    "cli":     dict(src=["harness/cli.cpp"], client=True, child="harness/child/child.c", programs=["traxclient"]),
    "tools":   dict(src=["harness/tools.cpp"], client=True, child="harness/child/child.c", programs=["traxtest"], player=True, inc=["-isystem/usr/include/opencv4"],
                    libs=["-lopencv_core", "-lopencv_imgcodecs"]),
}
# property -> group, seconds of search per tier
PROPS = {}
def P(id, group, quick=12, thorough=240, workers=NCPU, schedules=False): PROPS[id] = dict(group=group, quick=quick, thorough=thorough, workers=workers, schedules=schedules)
exec(open(os.path.join(V, "props.py")).read())

def die(msg):
    print("check error: " + msg, file=sys.stderr); sys.exit(2)

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    files = []
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in (".git", "_build", "_build_debug", "__pycache__"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        elif os.path.exists(p): files.append(p)
    for f in files:
        h.update(f.encode() + b"\0")
        try:
            with open(f, "rb") as fp: h.update(hashlib.sha256(fp.read()).digest())
        except OSError: pass
    return h.hexdigest()[:20]

class Lock:
    def __init__(self, name): self.path = os.path.join(BUILD, name + ".lock")
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(self.path, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def sh(cmd, log, cwd=None, env=None, timeout=800):
    with open(log, "ab") as f:
        f.write((" ".join(cmd) + "\n").encode()); f.flush()
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=cwd, env=env, timeout=timeout, stdin=subprocess.DEVNULL)
    if r.returncode != 0:
        with open(log, "rb") as f: tail = f.read()[-4000:].decode("utf8", "replace")
        die("command failed: %s\n%s" % (" ".join(cmd), tail))

def prune(prefix, keep):
    """keep disk use small: drop all but the few newest builds of one kind"""
    ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(prefix + "-") and os.path.isdir(os.path.join(BUILD, d))), key=os.path.getmtime)
    for d in ds[:-keep]: shutil.rmtree(d, ignore_errors=True)

REPO_SRC = [os.path.join(REPO, x) for x in ("CMakeLists.txt", "VERSION", "trax-config.cmake.in", "include", "src", "support")]

def cmake_build(kind, options, targets, flags, key_extra=""):
    """configures and builds /repo out of tree; returns the build directory"""
    key = digest(REPO_SRC, kind + repr(options) + repr(targets) + flags + key_extra)
    d = os.path.join(BUILD, "%s-%s" % (kind, key))
    with Lock(kind):
        if os.path.exists(os.path.join(d, "done")):
            os.utime(d); return d
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        log = os.path.join(d, "build.log")
        env = dict(os.environ, CC="clang", CXX="clang++")
        sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DBUILD_DATE=2024-04-20",
            "-DCMAKE_C_FLAGS=" + flags, "-DCMAKE_CXX_FLAGS=" + flags + " -pthread", "-Wno-dev", "-Wno-deprecated"] + options, log, env=env)
        sh(["ninja", "-C", d, "-j", str(NCPU)] + targets, log, env=env)
        open(os.path.join(d, "done"), "w").close()
        prune(kind, 3)
    return d

def build_lib(client, programs=[], flags=None):
    if flags: return cmake_build("libt", [], ["traxstatic"], flags)
    if programs: return cmake_build("cli", ["-DBUILD_CLIENT=ON"], ["traxstatic", "trax_client_static", "traxclient", "traxtest"], CFLAGS)
    if client: return cmake_build("libc", ["-DBUILD_CLIENT=ON"], ["traxstatic", "trax_client_static"], CFLAGS)
    return cmake_build("lib", [], ["traxstatic"], CFLAGS)

LOCALES = [("de_DE", "UTF-8", "utf8"), ("tr_TR", "UTF-8", "utf8"), ("ps_AF", "UTF-8", "utf8"), ("de_DE", "ISO-8859-1", "iso88591"), ("tr_TR", "ISO-8859-9", "iso88599")]
LOCPATH = os.path.join(BUILD, "locales")

def build_locales():
    """compiled locales of our own, the system has none but C"""
    with Lock("locales"):
        if os.path.exists(os.path.join(LOCPATH, "done")): return
        shutil.rmtree(LOCPATH, ignore_errors=True); os.makedirs(LOCPATH)
        ps = [(n, subprocess.Popen(["localedef", "-i", n, "-f", m, os.path.join(LOCPATH, n + "." + s)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for n, m, s in LOCALES]
        for n, p in ps:
            out = p.communicate()[0]
            if p.returncode not in (0, 1): die("cannot build locale %s: %s" % (n, out[-1000:].decode("utf8", "replace")))
        open(os.path.join(LOCPATH, "done"), "w").close()

def build_group(name):
    g = GROUPS[name]
    if g.get("locales"): build_locales(); os.environ["LOCPATH"] = LOCPATH
    lib = build_lib(g.get("client"), g.get("programs"), g.get("flags")); flags = g.get("flags", CFLAGS)
    own = [os.path.join(V, x) for x in g["src"] + ([g["child"], "harness/child/gui.cpp"] if g.get("child") else [])] + [os.path.join(REPO, x) for x in g.get("repo_src", []) + (["support/client/player.cpp", "support/opencv/opencv.cpp"] if g.get("player") else [])] + [os.path.join(V, "engine"), os.path.join(V, "harness", "common"), os.path.join(V, "harness", "mex")]
    key = digest(own + [os.path.join(REPO, "include"), os.path.join(REPO, "support", "client", "include"), os.path.join(REPO, "support", "opencv", "include"), os.path.join(REPO, "support", "matlab")], os.path.basename(lib) + flags + WRAP + repr(g))
    d = os.path.join(BUILD, "bin_%s-%s" % (name, key))
    with Lock("bin_" + name):
        if not os.path.exists(os.path.join(d, "done")):
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            log = os.path.join(d, "build.log")
            inc = ["-I" + os.path.join(V, "engine"), "-I" + os.path.join(V, "harness", "common"), "-I" + os.path.join(REPO, "include"),
                   "-I" + os.path.join(REPO, "support", "client", "include"), "-DTRAX_STATIC_DEFINE"] + g.get("inc", [])
            procs = []; objs = []
            for s in [os.path.join(V, "engine", "pbt.cpp"), os.path.join(V, "engine", "main.cpp")] + [os.path.join(V, x) for x in g["src"]] + [os.path.join(REPO, x) for x in g.get("repo_src", [])]:
                o = os.path.join(d, s[1:].replace("/", "_") + ".o"); objs.append(o)
                cmd = ["clang++", "-std=c++17", "-Wall", "-Wno-unused-function"] + flags.split() + inc + ["-c", s, "-o", o]
                procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            for cmd, p in procs:
                out = p.communicate()[0]
                open(log, "ab").write(out)
                if p.returncode: die("compile failed: %s\n%s" % (" ".join(cmd), out[-4000:].decode("utf8", "replace")))
            link = ["clang++"] + flags.split() + objs + ["-o", os.path.join(d, "run")]
            if g.get("wrap"): link.append("-Wl," + WRAP)
            if g.get("client"): link.append(os.path.join(lib, "support", "client", "libtrax_client_static.a"))
            link += [os.path.join(lib, "libtraxstatic.a"), "-lm", "-lpthread", "-lrt"] + g.get("libs", [])
            sh(link, log)
            if g.get("child"): sh(["gcc", "-O1", "-Wall", os.path.join(V, g["child"]), "-o", os.path.join(d, "child")], log)
            for p in g.get("programs", []): os.symlink(os.path.join(lib, p), os.path.join(d, p))
            if g.get("player"):
                cmd = ["clang++", "-std=c++14"] + CFLAGS.split() + inc + PLAYER_INC + [os.path.join(REPO, "support", "client", "player.cpp"), os.path.join(REPO, "support", "opencv", "opencv.cpp"), os.path.join(V, "harness", "child", "gui.cpp")]
                cmd += ["-o", os.path.join(d, "traxplayer"), os.path.join(lib, "support", "client", "libtrax_client_static.a"), os.path.join(lib, "libtraxstatic.a"), "-lm", "-lpthread", "-lrt"] + ["-lopencv_" + x for x in ("core", "imgproc", "imgcodecs")]
                sh(cmd, log)
                os.symlink(os.path.join(REPO, "support", "client", "res", "static.jpg"), os.path.join(d, "static.jpg"))
            open(os.path.join(d, "done"), "w").close()
            prune("bin_" + name, 2)
        os.utime(d)
    return os.path.join(d, "run")

def scratch():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="traxv-", dir=base)

def findings(id):
    """listed known findings and fixed defects of a property"""
    known, fixed = [], []
    path = os.path.join(V, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"(known|fixed): property=(\S+) (.*)", line.strip())
            if m and m.group(2) == id: (known if m.group(1) == "known" else fixed).append(m.group(3))
    return known, fixed

def write_evidence(id, tier, seed, level, r, wall, extra_cov, assumptions, violations):
    cov = {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"], "rule": r["rule"], "samples": r["samples"]}
    cov.update(extra_cov)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", id + ".json"), "w") as f:
        json.dump({"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
                   "wall_s": round(wall, 2), "violations": violations}, f, indent=1)
        f.write("\n")

def run_native(id, tier, seed):
    spec = PROPS[id]
    exe = build_group(spec["group"])
    replays = os.path.join(V, "replays"); os.makedirs(replays, exist_ok=True)
    tmp = scratch()
    t0 = time.time()
    merged = None; violation = None; unrep = []
    try:
        budget = spec[tier]; round_ = 0
        deadline = t0 + budget
        while True:
            out = os.path.join(tmp, "out.json")
            if os.path.exists(out): os.unlink(out)
            left = max(3, deadline - time.time())
            env = dict(os.environ, TMPDIR=tmp)
            p = subprocess.run([exe, "--property", id, "--seed", str(seed + 7919 * round_), "--time", str(left), "--workers", str(spec["workers"]), "--out", out,
                                "--replays", replays, "--scratch", tmp, "--tries", "6" if spec.get("schedules") else "1", "--shrink", "20" if tier == "quick" else "60"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, env=env, timeout=850 if tier == "quick" else 7200)
            if p.returncode not in (0, 1) or not os.path.exists(out): die("harness ended with status %d" % p.returncode)
            r = json.load(open(out))
            if merged is None: merged = r
            else:
                for k in ("evaluations", "nontrivial", "distinct_nontrivial", "discarded", "unreproduced"): merged[k] += r[k]
                for k, v in r["classes"].items(): merged["classes"][k] = merged["classes"].get(k, 0) + v
            if p.returncode == 0: break
            # replay the shrunk case before believing it, and if that fails the case as it was found; what depends on
            # the schedule has to fail in three of up to twelve replays, anything else three times in a row
            full = r["replay"] + ".full"; most = 0
            for path in (r["replay"], full):
                fails = runs = 0
                while fails < 3 and runs < (12 if spec.get("schedules") and time.time() < t0 + 500 else 3):
                    q = subprocess.run([exe, "--replay", path, "--scratch", tmp], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
                    fails += q.returncode == 1; runs += 1
                most = max(most, fails)
                if fails == 3: break
            if fails == 3:
                if path == full: os.replace(full, r["replay"])
                else: os.unlink(full)
                violation = r; break
            fails = most; os.unlink(full)
            unrep.append("%s: %s (failed in %d replays)" % (r["kind"], r["detail"], fails))
            os.unlink(r["replay"])
            round_ += 1
            if time.time() > deadline or round_ > 5: break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    extra = {"nontrivial": merged["nontrivial"], "discarded": merged["discarded"], "classes": merged["classes"], "generator": "tape-based structured generation with shrinking",
             "unreproduced": merged["unreproduced"] + len(unrep)}
    if unrep: extra["unreproduced_failures"] = unrep
    write_evidence(id, tier, seed, spec.get("level", "exploration"), merged, wall, extra, merged["assumptions"], 1 if violation else 0)
    print("%s: %d cases, %d non-trivial, %d distinct, %.1f s" % (id, merged["evaluations"], merged["nontrivial"], merged["distinct_nontrivial"], wall))
    if violation:
        print("%s: %s: %s" % (id, violation["kind"], violation["detail"]))
        print("VIOLATION property=%s replay=%s" % (id, violation["replay"]))
        return 1
    return 0

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); sys.exit(2)
    if a[0] == "--setup":
        for g in sorted({s["group"] for s in PROPS.values() if s["group"] in GROUPS}): build_group(g); print("built", g)
        for g in sorted({s["group"] for s in PROPS.values() if s["group"] in EXTERNAL}): EXTERNAL_BUILD[g](); print("built", g)
        sys.exit(0)
    if a[0] == "--replay":
        m = re.search(r"^property (\S+)", open(a[1]).read(), re.M)
        spec = PROPS[m.group(1)]
        if spec["group"] in GROUPS:
            tmp = scratch()
            r = subprocess.call([build_group(spec["group"]), "--replay", a[1], "--verbose", "1", "--scratch", tmp], env=dict(os.environ, TMPDIR=tmp))
            shutil.rmtree(tmp, ignore_errors=True); sys.exit(r)
        sys.exit(EXTERNAL[spec["group"]](m.group(1), "replay", a[1]))
    id = a[0]
    if id not in PROPS: die("unknown property " + id)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1) or 20240420
    for k in findings(id)[0]: print("KNOWN-FINDING: property=%s %s" % (id, k))
    sys.stdout.flush()
    group = PROPS[id]["group"]
    if group in GROUPS: sys.exit(run_native(id, tier, seed))
    sys.exit(EXTERNAL[group](id, tier, seed))

# ---------------------------------------------------------------- the Python package (hypothesis)
PYTHON = "/opt/veriftools/pyvenv/bin/python"

def build_python():
    """the shared library with sanitizers beside the files of the package"""
    lib = cmake_build("py", [], ["trax"], CFLAGS + " -shared-libsan")
    d = os.path.join(lib, "package", "trax"); src = os.path.join(REPO, "support", "python", "trax")
    with Lock("py"):
        if not os.path.exists(os.path.join(d, "done")):
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            for f in os.listdir(src):
                if f.endswith(".py"): shutil.copy(os.path.join(src, f), d)
            so = [os.path.join(p, f) for p, _, fs in os.walk(lib) for f in fs if f == "libtrax.so"]
            if len(so) != 1: die("libtrax.so was not built: %r" % so)
            shutil.copy(so[0], d); open(os.path.join(d, "done"), "w").close()
    return os.path.dirname(d)

def python_env(package, tmp):
    rt = subprocess.run(["clang", "-print-file-name=libclang_rt.asan-x86_64.so"], stdout=subprocess.PIPE).stdout.decode().strip()
    if not os.path.isabs(rt):
        rt = next((os.path.join(p, f) for p, _, fs in os.walk("/usr/lib/llvm-18/lib/clang") for f in fs if f == "libclang_rt.asan-x86_64.so"), None) or die("no shared sanitizer runtime")
    env = {k: v for k, v in os.environ.items() if not k.startswith(("TRAX_", "PYTHON"))}
    env.update(LD_PRELOAD=rt, ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1", UBSAN_OPTIONS="exitcode=77:print_stacktrace=0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=package, TMPDIR=tmp, HOME=tmp, OPENBLAS_NUM_THREADS="1")
    return env

def run_python(id, tier, seed):
    spec = PROPS[id]; package = build_python(); script = os.path.join(V, "harness", "python", "pyprop.py")
    replays = os.path.join(V, "replays"); os.makedirs(replays, exist_ok=True); tmp = scratch(); env = python_env(package, tmp)
    def replay(path, quiet=True):
        return subprocess.run([PYTHON, script, "--replay", path], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL if quiet else None, stderr=subprocess.DEVNULL if quiet else None, env=env, cwd=tmp).returncode
    try:
        if tier == "replay": print(open(seed).read()); sys.stdout.flush(); return replay(os.path.abspath(seed), False)
        t0 = time.time(); deadline = t0 + spec[tier]; merged = None; violation = None; unrep = []; round_ = 0
        while True:
            out = os.path.join(tmp, "out.json"); fail = os.path.join(tmp, "failure.replay")
            if os.path.exists(out): os.unlink(out)
            p = subprocess.run([PYTHON, script, "--seed", str(seed + 7919 * round_), "--time", str(max(3, deadline - time.time())), "--workers", str(spec["workers"]), "--shrink", "30" if tier == "quick" else "90",
                                "--out", out, "--failure", fail], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=tmp, timeout=850 if tier == "quick" else 7200)
            if p.returncode not in (0, 1) or not os.path.exists(out): die("harness ended with status %d\n%s" % (p.returncode, p.stderr[-3000:].decode("utf8", "replace")))
            r = json.load(open(out))
            if merged is None: merged = r
            else:
                for k in ("evaluations", "nontrivial", "distinct_nontrivial"): merged[k] += r[k]
                for k, v in r["classes"].items(): merged["classes"][k] = merged["classes"].get(k, 0) + v
            if p.returncode == 0: break
            if sum(replay(fail) == 1 for _ in range(3)) == 3:
                path = os.path.join(replays, "%s-%s.replay" % (id, hashlib.sha256(open(fail, "rb").read()).hexdigest()[:12])); shutil.copy(fail, path)
                violation = dict(r, replay=path); break
            unrep.append(r["detail"]); round_ += 1
            if time.time() > deadline or round_ > 5: break
    finally: shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    extra = {"nontrivial": merged["nontrivial"], "classes": merged["classes"], "generator": "hypothesis strategies with shrinking, one process per case", "unreproduced": len(unrep)}
    if unrep: extra["unreproduced_failures"] = unrep
    write_evidence(id, tier, seed, spec.get("level", "exploration"), merged, wall, extra, merged["assumptions"], 1 if violation else 0)
    print("%s: %d cases, %d non-trivial, %d distinct, %.1f s" % (id, merged["evaluations"], merged["nontrivial"], merged["distinct_nontrivial"], wall))
    if violation:
        print("%s: %s" % (id, violation["detail"])); print("VIOLATION property=%s replay=%s" % (id, violation["replay"])); return 1
    return 0

EXTERNAL = {"python": run_python}
EXTERNAL_BUILD = {"python": build_python}
if __name__ == "__main__": main()
