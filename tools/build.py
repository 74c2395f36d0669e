#!/usr/bin/env python3
"""Content-hash based incremental build of harnesses against /repo's working tree.

Objects are keyed by the command line and the content of every file that took part in the
compilation (taken from the compiler's dependency output), never by time stamps.
"""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")

# The flags of the project's own build, without warnings and with a fixed architecture.
BASE = ("-fno-math-errno -fno-trapping-math -fno-signed-zeros -fno-signaling-nans "
        "-march=x86-64-v3 -std=gnu++20 -fPIC -fopenmp -w").split()
SAN = ("-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
       "-fno-sanitize=nonnull-attribute -fno-sanitize-recover=all").split()
REL = "-O2 -g1 -DNDEBUG".split()

DEFAULT = dict(ASSERTS=1, BMI2=1, FASTMATH=0, FLOAT64=1, SIMD_VEC=1, BLAS=1, XSLIBS=0)


def cfg(flags, **kw):
    c = dict(DEFAULT)
    c.update(kw)
    return (flags, c)


CONFIGS = {
    "san": cfg(SAN),                                   # default options, address+UB sanitizers
    "rel": cfg(REL),                                   # default options, as the project builds it
    "sancore": cfg(SAN, BMI2=0, SIMD_VEC=0, BLAS=0),   # portable fall-backs under sanitizers
    "cmfd": cfg(SAN, XSLIBS=1),                        # options that enable the CMFD sources
    "noassert": cfg(REL, ASSERTS=0),
    "nobmi": cfg(REL, BMI2=0),
    "nosimd": cfg(REL, SIMD_VEC=0),
    "noblas": cfg(REL, BLAS=0),
    "plain": cfg(REL, ASSERTS=0, BMI2=0, SIMD_VEC=0, BLAS=0),
}

LINK = ("-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial -llapacke -lopenblas "
        "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_cpp.so "
        "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so -lpugixml -lgmsh -lgomp -lpthread -lm").split()
LINK_CORE = "-llapacke -lopenblas -lgomp -lpthread -lm".split()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


_hash_cache = {}
_hash_lock = threading.Lock()


def file_hash(path):
    with _hash_lock:
        h = _hash_cache.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        with _hash_lock:
            _hash_cache[path] = h
    return h


def write_config(name):
    """Generate config.hpp of a configuration from the project's template."""
    flags, c = CONFIGS[name]
    with open(os.path.join(REPO, "cmake/config.hpp.in")) as f:
        t = f.read()
    vals = {
        "UM2_ENABLE_ASSERTS": c["ASSERTS"], "UM2_ENABLE_BMI2": c["BMI2"],
        "UM2_ENABLE_FASTMATH": c["FASTMATH"], "UM2_ENABLE_FLOAT64": c["FLOAT64"],
        "UM2_ENABLE_SIMD_VEC": c["SIMD_VEC"], "UM2_USE_BLAS_LAPACK": c["BLAS"],
        "UM2_USE_CUDA": 0, "UM2_USE_GMSH": 1, "UM2_USE_MPACT_XSLIBS": c["XSLIBS"],
        "UM2_USE_HDF5": 1, "UM2_USE_OPENMP": 1, "UM2_USE_PUGIXML": 1,
    }
    t = re.sub(r"#cmakedefine01 (\w+)", lambda m: "#define %s %d" % (m.group(1), vals.get(m.group(1), 0)), t)
    t = t.replace("@UM2_MAX_LOG_LEVEL@", "4").replace("@MPACT_DATA@", "")
    d = os.path.join(BUILD, name, "inc/um2")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "config.hpp")
    if not os.path.exists(p) or open(p).read() != t:
        with open(p, "w") as f:
            f.write(t)
    return os.path.join(BUILD, name, "inc")


class BuildError(Exception):
    pass


def compile_one(config, src, extra=()):
    """Compile src in a configuration; returns the object path."""
    flags, _ = CONFIGS[config]
    rel = os.path.relpath(src, "/").replace("/", "_")
    obj = os.path.join(BUILD, config, "obj", rel + ".o")
    meta = obj + ".json"
    inc = os.path.join(BUILD, config, "inc")
    compiler = ["gcc", "-x", "c"] if src.endswith(".c") else ["g++"]
    base = [f for f in BASE if not (src.endswith(".c") and f.startswith("-std"))]
    cmd = compiler + base + flags + list(extra) + [
        "-I" + inc, "-I" + REPO + "/include", "-isystem", REPO,
        "-isystem", "/usr/include/hdf5/serial", "-I" + VERIF + "/harness",
        "-MD", "-MF", obj + ".d", "-c", src, "-o", obj]
    key0 = hashlib.sha256(" ".join(cmd).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["cmd"] == key0 and all(file_hash(p) == h for p, h in m["deps"].items()):
                return obj
        except (ValueError, KeyError, OSError):
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    for p in (obj, meta):
        if os.path.exists(p):
            os.unlink(p)
    r = sh(cmd)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    txt = open(obj + ".d").read().replace("\\\n", " ")
    deps = [d for d in txt.split(":", 1)[1].split() if d]
    # Only sources that can change matter: the project's, the harness' and generated ones.
    deps = sorted({os.path.normpath(d) for d in deps
                   if os.path.normpath(d).startswith((REPO + "/", VERIF + "/"))})
    json.dump({"cmd": key0, "deps": {d: file_hash(d) for d in deps}}, open(meta, "w"))
    return obj


def lib_sources(subset=None):
    """All library sources of the working tree (so that added or moved files are found)."""
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith((".cpp", ".cc", ".c")):
                out.append(os.path.join(d, f))
    out.sort()
    return out


def build(harness, config, lib=True, jobs=None, extra=()):
    """Build one harness executable; returns its path."""
    jobs = jobs or os.cpu_count() or 4
    write_config(config)
    if harness.endswith((".cpp", ".c")):
        src = os.path.join(VERIF, "harness", harness)
    else:
        src = os.path.join(VERIF, "harness", harness + ".cpp")
    tag = os.path.splitext(os.path.basename(src))[0]
    flags, _ = CONFIGS[config]
    # Each library source is its own archive member, so a harness links only what it refers to.
    srcs = lib_sources()
    objs, errors = {}, {}
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        futs = {ex.submit(compile_one, config, s, extra if s == src else ()): s for s in [src] + srcs} \
            if lib else {ex.submit(compile_one, config, src, extra): src}
        for fu in concurrent.futures.as_completed(futs):
            s = futs[fu]
            try:
                objs[s] = fu.result()
            except BuildError as e:
                errors[s] = e
    if src in errors:
        raise errors[src]
    for e in errors.values():
        raise e
    exe = os.path.join(BUILD, config, tag)
    order = [objs[src]] + [objs[s] for s in srcs if s in objs]
    want = hashlib.sha256(("|".join(o + file_hash_nocache(o) for o in order)).encode()).hexdigest()
    stamp = exe + ".stamp"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want:
        return exe
    link = ["g++", "-fopenmp"] + [f for f in flags if f.startswith("-fsanitize") or f.startswith("-g")] + \
        order + (LINK if lib else LINK_CORE) + ["-o", exe]
    r = sh(link)
    if r.returncode != 0:
        if not lib:  # something moved out of the headers
            return build(harness, config, lib=True, jobs=jobs, extra=extra)
        raise BuildError("%s\n%s" % (" ".join(link), r.stdout[-6000:]))
    open(stamp, "w").write(want)
    return exe


def build_many(items, jobs=None):
    """Build several (harness, config, lib, extra) executables, compiling all sources in one pool."""
    jobs = jobs or os.cpu_count() or 4
    tasks = {}
    for harness, config, lib, extra in items:
        write_config(config)
        src = os.path.join(VERIF, "harness", harness if harness.endswith((".cpp", ".c")) else harness + ".cpp")
        tasks[(config, src)] = tuple(extra)
        for s in lib_sources() if lib else ():
            tasks.setdefault((config, s), ())
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for fu in [ex.submit(compile_one, c, s, e) for (c, s), e in tasks.items()]:
            fu.result()
        futs = [ex.submit(build, h, c, lib, 1, e) for h, c, lib, e in items]
        return [fu.result() for fu in futs]


def file_hash_nocache(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


if __name__ == "__main__":
    try:
        print(build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "san",
                    lib=(len(sys.argv) <= 3 or sys.argv[3] != "nolib")))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
