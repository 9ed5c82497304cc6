"""Build and run machinery shared by all checks (see DESIGN.md)."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYM_REPO", "/repo")
BUILD = os.environ.get("SYM_BUILD", os.path.join(VERIF, "build"))
ENGINE = os.path.join(VERIF, "engine")
CXX = "clang++-14"
JOBS = os.cpu_count() or 8


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def fhash(path, cache={}):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in cache:
        with open(path, "rb") as f:
            cache[key] = hashlib.sha256(f.read()).hexdigest()
    return cache[key]


class BuildError(Exception):
    pass


def _deps_ok(meta):
    try:
        with open(meta) as f:
            m = json.load(f)
        return all(os.path.exists(d) and fhash(d) == h for d, h in m.items())
    except (OSError, ValueError):
        return False


def compile_one(src, flags, tag):
    """Compile src to an object, reusing it only while no dependency changed."""
    key = hashlib.sha256(("\0".join([src, tag] + flags)).encode()).hexdigest()[:24]
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, key + ".o")
    meta = os.path.join(d, key + ".json")
    if os.path.exists(obj) and _deps_ok(meta):
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    dep = tmp + ".d"
    r = sh([CXX] + flags + ["-MD", "-MF", dep, "-c", src, "-o", tmp])
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-6000:]))
    with open(dep) as f:
        txt = f.read().replace("\\\n", " ")
    deps = [x.replace("\\ ", " ") for x in re.split(r"(?<!\\)\s+", txt.split(":", 1)[1]) if x]
    m = {}
    for x in deps:
        # system headers do not change under us
        if x.startswith("/usr/"):
            continue
        m[x] = fhash(x)
    plug = [f for f in flags if f.startswith("-fpass-plugin=")]
    for p in plug:
        p = p.split("=", 1)[1]
        m[p] = fhash(p)
    os.rename(tmp, obj)
    os.unlink(dep)
    with open(meta, "w") as f:
        json.dump(m, f)
    return obj


def build_engine():
    """Pass plugin and runtime; returns their directory."""
    srcs = ["SymPass.cpp", "symrt.cpp", "symrt.h", "symrt.map", "symexe.map"]
    h = hashlib.sha256("".join(fhash(os.path.join(ENGINE, s)) for s in srcs).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "engine-" + h)
    if os.path.exists(os.path.join(d, "ok")):
        return d
    tmp = d + ".%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    cmds = [
        [CXX, "-std=c++17", "-O1", "-fPIC", "-shared", "-fno-rtti", "-w",
         "-I/usr/lib/llvm-14/include", os.path.join(ENGINE, "SymPass.cpp"),
         "-o", os.path.join(tmp, "SymPass.so")],
        [CXX, "-std=c++17", "-O2", "-w", "-fno-builtin", "-fPIC", "-shared",
         "-Wl,-Bsymbolic", "-Wl,--version-script=" + os.path.join(ENGINE, "symrt.map"),
         os.path.join(ENGINE, "symrt.cpp"), "-lz3", "-o", os.path.join(tmp, "libsymrt.so")],
    ]
    with cf.ThreadPoolExecutor(2) as ex:
        for r in ex.map(sh, cmds):
            if r.returncode:
                raise BuildError(r.stdout[-4000:])
    open(os.path.join(tmp, "ok"), "w").close()
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return d


def common_flags():
    return [
        '-DPHASAR_BUILD_DIR="/repo/_build"', '-DPHASAR_SRC_DIR="/repo"',
        "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
        "-D__STDC_LIMIT_MACROS", "-std=c++17", "-w",
        "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(ENGINE, "gen"),
        "-isystem", "/usr/lib/llvm-14/include", "-I" + ENGINE,
        "-I" + os.path.join(VERIF, "harness"),
        "-D_GLIBCXX_ASSERTIONS", "-ffunction-sections", "-fdata-sections",
    ]


UBFLAGS = ["-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift,unreachable,return,bounds"]


def build(spec, mode):
    """mode 'sym' (instrumented) or 'replay' (plain, ASan). Returns binary path."""
    eng = build_engine()
    name = spec["name"]
    base = common_flags() + list(spec.get("flags", []))
    if mode == "sym":
        fl = base + ["-O1", "-g0", "-fno-vectorize", "-fno-slp-vectorize",
                     "-fno-jump-tables", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
                     "-fpass-plugin=" + os.path.join(eng, "SymPass.so")]
        if spec.get("ub"):
            fl += UBFLAGS + ["-fsanitize-trap=all"]
    else:
        fl = base + ["-O1", "-g1"]
        if spec.get("asan", True):
            fl += ["-fsanitize=address"]
        else:
            fl += ["-DSYM_COUNT_NEW"]
        if spec.get("ub"):
            fl += UBFLAGS + ["-fno-sanitize-recover=all"]
    jobs = [(os.path.join(VERIF, "harness", s), fl + list(spec.get("harness_flags", [])), mode) for s in spec["src"]]
    native = set(spec.get("native_tus", []))
    nofl = [f for f in fl if not f.startswith("-fpass-plugin=")]
    for t in spec.get("tus", []):
        if not os.path.exists(os.path.join(REPO, t)):
            continue  # moved: found again through undefined symbols
        jobs.append((os.path.join(REPO, t), fl, mode))
    for t in native:
        if not os.path.exists(os.path.join(REPO, t)):
            continue
        jobs.append((os.path.join(REPO, t), nofl, mode))
    if mode == "sym":
        jobs.append((os.path.join(ENGINE, "symlibc.cpp"),
                     [f for f in fl if not f.startswith("-I")] + ["-fno-builtin"], mode))
        jobs.append((os.path.join(ENGINE, "symmain.cpp"), ["-std=c++17", "-O1", "-w"], mode))
    else:
        jobs.append((os.path.join(ENGINE, "symreplay.cpp"), nofl, mode))
    # biggest first
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    bdir = os.path.join(BUILD, "bin")
    os.makedirs(bdir, exist_ok=True)
    h = hashlib.sha256(("".join(fhash(o) for o in objs) + eng + mode).encode()).hexdigest()[:12]
    out = os.path.join(bdir, "%s-%s-%s" % (name, mode, h))
    if os.path.exists(out):
        return out
    def link(objs, extra):
        cmd = [CXX, "-no-pie", "-fuse-ld=lld"] + objs + extra
        cmd += ["-Wl,--gc-sections", "-Wl,--error-limit=0", "-o", out + ".tmp"]
        if mode == "sym":
            # native libraries must not call into instrumented template code
            cmd += ["-L" + eng, "-lsymrt", "-Wl,-rpath," + eng,
                    "-Wl,--version-script=" + os.path.join(ENGINE, "symexe.map")]
        else:
            if spec.get("asan", True):
                cmd += ["-fsanitize=address"]
            if spec.get("ub"):
                cmd += UBFLAGS
        cmd += ["-L/usr/lib/llvm-14/lib", "-lLLVM-14", "-Wl,-rpath,/usr/lib/llvm-14/lib", "-lpthread", "-ldl"]
        cmd += list(spec.get("libs", []))
        return sh(cmd)
    r = link(objs, [])
    if r.returncode and "undefined symbol" in r.stdout:
        # a function moved to a file the spec does not list: take every library
        # source of the working tree
        if os.environ.get("SYM_STRICT"):
            und = sorted(set(re.findall(r"undefined symbol: (.*)", r.stdout)))
            raise BuildError("undefined:\n" + "\n".join(und))
        have = {j[0] for j in jobs}
        more = {}
        for root, dirs, files in os.walk(os.path.join(REPO, "lib")):
            if "PhasarPass" in root or "PhasarClang" in root:
                continue
            for f in sorted(files):
                f = os.path.join(root, f)
                if f.endswith(".cpp") and f not in have:
                    with open(f, errors="replace") as fh:
                        more[f] = fh.read()

        def tryc(m):
            try:
                return compile_one(m, fl, mode)
            except BuildError:
                return None
        # first the files that mention an undefined name, in the end all
        extra = []
        for rnd in range(6):
            names = set()
            for u in re.findall(r"undefined symbol: (.*)", r.stdout):
                u = re.sub(r"\(.*", "", re.sub(r"<.*?>|\[.*?\]", "", u)).split(" for ")[-1]
                u = [x for x in u.split("::") if x and x != "psr"]
                if u:
                    names.add(u[-1].strip().lstrip("~"))
            pat = re.compile(r"\b(" + "|".join(re.escape(n) for n in names) + r")\b\s*(\(|::)") if names else None
            new = [m for m in more if rnd == 5 or (pat and pat.search(more[m]))]
            new = [m for m in new if m not in have]
            if not new:
                if rnd == 5:
                    break
                continue
            have.update(new)
            with cf.ThreadPoolExecutor(JOBS) as ex:
                extra += [o for o in ex.map(tryc, new) if o]
            lib = out + ".a"
            if os.path.exists(lib):
                os.unlink(lib)
            sh(["/usr/lib/llvm-14/bin/llvm-ar", "rcs", lib] + extra)
            r = link(objs, [lib])
            os.unlink(lib)
            if not (r.returncode and "undefined symbol" in r.stdout):
                break
    if r.returncode:
        raise BuildError("linking %s failed:\n%s" % (name, r.stdout[-6000:]))
    os.rename(out + ".tmp", out)
    # drop older binaries of the same harness
    for f in os.listdir(bdir):
        if f.startswith("%s-%s-" % (name, mode)) and os.path.join(bdir, f) != out and not f.endswith(".tmp"):
            try:
                os.unlink(os.path.join(bdir, f))
            except OSError:
                pass
    return out


def run_goal(binary, goal, opts, jobs, budget):
    out = tempfile.NamedTemporaryFile(prefix="symout", suffix=".json", delete=False)
    out.close()
    cmd = [binary, "--goal", goal, "--out", out.name, "--jobs", str(jobs),
           "--time", str(budget)] + [str(x) for x in opts]
    t = time.time()
    r = sh(cmd, timeout=budget + 180)
    try:
        with open(out.name) as f:
            res = json.load(f)
    except ValueError:
        res = None
    os.unlink(out.name)
    if res is None:
        raise RuntimeError("goal %s of %s gave no result (exit %s): %s" %
                           (goal, binary, r.returncode, r.stdout[-1500:]))
    res["rc"] = r.returncode
    res["elapsed"] = time.time() - t
    return res


def replay(spec, goal, viol, rdir, prop):
    """Write the counterexample and run it against the plain build.
    Returns (path, reproduced, transcript)."""
    os.makedirs(rdir, exist_ok=True)
    vals = [str(x[3]) for x in viol["in"]]
    key = hashlib.sha256((goal + viol["id"] + " ".join(vals)).encode()).hexdigest()[:10]
    path = os.path.join(rdir, "%s-%s-%s.txt" % (prop, goal, key))
    inp = path[:-4] + ".in"
    with open(inp, "w") as f:
        f.write("\n".join(vals) + "\n")
    binr = build(spec, "replay")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=0:detect_odr_violation=0:"
               "detect_container_overflow=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0")
    try:
        r = subprocess.run([binr, goal, inp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=spec.get("replay_timeout", 60), env=env)
        rc, txt = r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        rc, txt = "timeout", (e.stdout or b"")
        if isinstance(txt, bytes):
            txt = txt.decode(errors="replace")
    if viol["kind"] == "check":
        ok = rc == 1 and ("CHECK FAILED " + viol["id"]) in txt
        ok = ok or (rc not in (0,))  # it fails in another way: still a failure
    elif viol["id"] == "hang":
        ok = rc == "timeout" or rc != 0
    else:
        ok = rc != 0
    with open(path, "w") as f:
        f.write("property %s\ngoal %s\nviolated: %s\n%s\n" % (prop, goal, viol["id"], viol["msg"]))
        f.write("solver inputs:\n")
        for n, off, w, v in viol["in"]:
            f.write("  %s[+%s] (%s bit) = %s\n" % (n, off, w, v))
        f.write("re-run: %s %s %s\nexit: %s\nreproduced on the plain build: %s\n---\n%s" %
                (binr, goal, inp, rc, ok, txt[-12000:]))
    return path, ok, txt


def demangle(names):
    r = subprocess.run(["/usr/lib/llvm-14/bin/llvm-cxxfilt"] if os.path.exists("/usr/lib/llvm-14/bin/llvm-cxxfilt")
                       else ["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split("\n")
