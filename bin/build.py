"""Builds instrumented variants of the library, and the monitors, from /repo's
current working tree.  Outputs are stored under build/cache/<hash of everything
that goes in>, so an unchanged input is not compiled twice."""
import concurrent.futures as cf
import glob
import hashlib
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
CACHE = os.path.join(VERIF, "build", "cache")

WRAPS = ["malloc", "calloc", "realloc", "free", "aligned_alloc", "memalign",
         "posix_memalign", "strdup", "time", "clock", "clock_gettime", "gettimeofday", "getenv", "secure_getenv",
         "getpid"]
ACC = ["-DSIMD_USE_ACCEL=1", "-DRFX_USE_ACCEL_AMD64=1"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,shift-base",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


class BuildError(Exception):
    pass


# name -> (compiler, C flags, shim defines, accelerated, link flags, optional)
VARIANTS = {
    "acc": ("gcc", ["-O2", "-g"] + ACC, [], True, [], False),
    "nosimd": ("gcc", ["-O2", "-g"], [], False, [], False),
    "clang": ("clang", ["-O3", "-g"] + ACC, [], True, [], False),
    "o0": ("gcc", ["-O0", "-g"] + ACC, [], True, [], False),
    # the byte-order-neutral code of other processors and compilers
    "port": ("gcc", ["-O2", "-g", "-include", os.path.join(HARNESS, "portable.h")], [], False, [], True),
    # plain char unsigned, as on ARM and PowerPC
    "uchar": ("gcc", ["-O2", "-g", "-funsigned-char", "-include", os.path.join(HARNESS, "portable.h")],
              [], False, [], True),
    "asan": ("gcc", ["-O1", "-g"] + ACC + SAN, ["-DSHIM_ASAN"], True, SAN, False),
    "asan_c": ("gcc", ["-O1", "-g"] + SAN, ["-DSHIM_ASAN"], False, SAN, False),
    # -O0: no static is optimised away, every access is seen
    "tsan": ("gcc", ["-O0", "-g", "-fsanitize=thread"] + ACC, ["-DSHIM_THIN"], True, ["-fsanitize=thread"], False),
    "vg": ("gcc", ["-O1", "-g"] + ACC, ["-DSHIM_VALGRIND"], True, [], False),
    "cov": ("gcc", ["-O0", "-g", "--coverage"] + ACC, [], True, ["--coverage"], False),
}
# monitor build kinds
MKINDS = {
    "plain": ["g++", "-O2", "-g"],
    "asan": ["g++", "-O1", "-g"] + SAN + ["-DMON_ASAN"],
    "tsan": ["g++", "-O1", "-g", "-fsanitize=thread", "-DMON_TSAN"],
}


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _files(pats):
    out = []
    for p in pats:
        out += sorted(glob.glob(p))
    return out


def _repo_inputs():
    return _files([REPO + "/src/*", REPO + "/src/amd64/*", REPO + "/src/x86/*", REPO + "/include/*.h"])


def _hash(parts, files):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode())
    for f in files:
        if os.path.isfile(f):
            h.update(os.path.relpath(f, REPO if f.startswith(REPO + "/") else VERIF).encode())
            h.update(_read(f))
    return h.hexdigest()[:24]


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-4000:]))
    return p.stdout


def _store(key, name, make):
    """make(tmpdir) -> path of the product"""
    dst = os.path.join(CACHE, key, name)
    if os.path.exists(dst):
        os.utime(os.path.join(CACHE, key))
        return dst
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="b.", dir=os.path.join(VERIF, "build"))
    try:
        prod = make(tmp)
        os.makedirs(os.path.join(CACHE, key), exist_ok=True)
        os.replace(prod, dst)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dst


def prune(keep=80):
    ents = []
    for d in glob.glob(CACHE + "/*"):
        try:
            ents.append((os.path.getmtime(d), d))
        except OSError:
            pass
    ents.sort()
    for _, d in ents[:-keep]:
        shutil.rmtree(d, ignore_errors=True)


def _verif_define(cc, flags):
    return ["-DRFX_VERIF"]


def build_lib(variant):
    cc, cflags, shimdefs, accel, ldflags, _ = VARIANTS[variant]
    inputs = _repo_inputs()
    hfiles = [HARNESS + "/shim.c", HARNESS + "/shim.h", HARNESS + "/portable.h"]
    key = _hash(["lib", VARIANTS[variant], WRAPS], inputs + hfiles)

    def make(tmp, hook=True):
        inc = ["-I", REPO + "/include", "-I", REPO + "/src"]
        hk = ["-DRFX_VERIF"] if hook else []
        objs, jobs = [], []
        with cf.ThreadPoolExecutor(8) as ex:
            srcs = _files([REPO + "/src/*.c"])
            if accel:
                srcs += _files([REPO + "/src/amd64/*.c"])
            for s in srcs:
                o = os.path.join(tmp, os.path.basename(s) + ".o")
                objs.append(o)
                jobs.append(ex.submit(_run, [cc, "-fPIC", "-c", "-w"] + cflags + hk + inc + [s, "-o", o]))
            if accel:
                for s in _files([REPO + "/src/amd64/*.asm"]):
                    o = os.path.join(tmp, os.path.basename(s) + ".o")
                    objs.append(o)
                    jobs.append(ex.submit(_run, ["nasm", "-felf64", "-DELF", "-D__x86_64__", "-DASM_ARCH_AMD64",
                                                 "-DPIC", "-I", REPO + "/src/", s, "-o", o]))
            so = os.path.join(tmp, "shim.o")
            objs.append(so)
            sf = [f for f in cflags if f.startswith("-O") or f == "-g"]
            if "-DSHIM_THIN" in shimdefs:
                pass
            jobs.append(ex.submit(_run, ["gcc", "-fPIC", "-c"] + sf + shimdefs + [HARNESS + "/shim.c", "-o", so]))
            for j in jobs:
                j.result()
        wr = []
        if accel:
            wr.append("-Wl,--wrap=cpuid_amd64")
        if "-DSHIM_THIN" not in shimdefs:
            wr += ["-Wl,--wrap=" + w for w in WRAPS]
        out = os.path.join(tmp, "lib.so")
        _run([cc, "-shared", "-Wl,-Bsymbolic", "-o", out] + ldflags + wr + objs + ["-lm"])
        return out

    def make_any(tmp):
        try:
            return make(tmp)
        except BuildError:
            # the red-zone hooks need the struct they sit in; do without
            return make(tmp, hook=False)

    return _store(key, "lib.so", make_any)


def build_mon(src, kind):
    cmd = MKINDS[kind]
    path = os.path.join(HARNESS, src)
    key = _hash(["mon", cmd, src], [path] + _files([HARNESS + "/*.h", REPO + "/include/*.h"]))

    def make(tmp):
        out = os.path.join(tmp, "mon")
        _run(cmd + ["-w", "-std=c++17", "-I", HARNESS, "-I", REPO + "/include", path, "-o", out, "-ldl", "-lpthread",
                    "-Wl,-export-dynamic"])
        return out

    return _store(key, "mon", make)


def build_x32(pic=True):
    """freestanding 32-bit worker with the x86 assembly; None when it cannot be built"""
    inputs = _repo_inputs()
    hf = _files([HARNESS + "/x32/*", HARNESS + "/x32/include/*/*"])
    key = _hash(["x32", pic], inputs + hf)

    def make(tmp, hook=True):
        inc = ["-I", REPO + "/include", "-I", REPO + "/src"]
        base = ["gcc", "-m32", "-ffreestanding", "-fno-pic", "-fno-pie", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-w",
                "-fno-asynchronous-unwind-tables", "-isystem", HARNESS + "/x32/include", "-isystem", "/usr/include/x86_64-linux-gnu"]
        acc = ["-DSIMD_USE_ACCEL=1", "-DRFX_USE_ACCEL_X86=1"] + (["-DRFX_VERIF"] if hook else [])
        objs, jobs = [], []
        with cf.ThreadPoolExecutor(8) as ex:
            for s in _files([REPO + "/src/*.c", REPO + "/src/x86/*.c"]):
                o = os.path.join(tmp, os.path.basename(s) + ".o")
                objs.append(o)
                jobs.append(ex.submit(_run, base + ["-O2", "-g", "-c"] + acc + inc + [s, "-o", o]))
            for s in _files([REPO + "/src/x86/*.asm"]):
                o = os.path.join(tmp, os.path.basename(s) + ".o")
                objs.append(o)
                jobs.append(ex.submit(_run, ["nasm", "-felf32", "-DELF", "-DASM_ARCH_I386"] + (["-DPIC"] if pic else []) + ["-I", REPO + "/src/", s, "-o", o]))
            for s in _files([HARNESS + "/x32/*.c", HARNESS + "/x32/*.S"]):
                o = os.path.join(tmp, os.path.basename(s) + ".h.o")
                objs.append(o)
                jobs.append(ex.submit(_run, base + ["-O2", "-g", "-mstackrealign", "-fno-tree-loop-distribute-patterns", "-c"] + inc + [s, "-o", o]))
            for j in jobs:
                j.result()
        out = os.path.join(tmp, "worker32")
        _run(["gcc", "-m32", "-nostdlib", "-static", "-no-pie", "-Wl,--wrap=cpuid_x86", "-Wl,-z,noexecstack", "-o", out] + objs)
        return out

    def make_any(tmp):
        try:
            return make(tmp)
        except BuildError:
            return make(tmp, hook=False)

    return _store(key, "worker32", make_any)


def build_msan():
    """hosted worker with the plain C sources under MemorySanitizer"""
    inputs = _repo_inputs()
    key = _hash(["msan"], inputs + [HARNESS + "/msan/worker.c"])

    def make(tmp):
        base = ["clang", "-O0", "-g", "-w", "-fsanitize=memory", "-fno-sanitize-memory-param-retval",
                "-fno-omit-frame-pointer", "-I", REPO + "/include", "-I", REPO + "/src"]
        objs, jobs = [], []
        with cf.ThreadPoolExecutor(8) as ex:
            for s in _files([REPO + "/src/*.c"]) + [HARNESS + "/msan/worker.c"]:
                o = os.path.join(tmp, os.path.basename(s) + ".o")
                objs.append(o)
                jobs.append(ex.submit(_run, base + ["-c", s, "-o", o]))
            for j in jobs:
                j.result()
        out = os.path.join(tmp, "workermsan")
        _run(["clang", "-fsanitize=memory", "-o", out] + objs + ["-lm"])
        return out

    return _store(key, "workermsan", make)


def build_all(libs, mons, want_x32=False, want_msan=False):
    """-> ({variant: path}, {(src,kind): path}, {worker name: path}, notes)"""
    notes = []
    L, M, X = {}, {}, {}
    with cf.ThreadPoolExecutor(16) as ex:
        fl = {v: ex.submit(build_lib, v) for v in libs}
        fm = {m: ex.submit(build_mon, *m) for m in mons}
        fx = [ex.submit(build_x32, True), ex.submit(build_x32, False)] if want_x32 else None
        fs = ex.submit(build_msan) if want_msan else None
        for v, f in fl.items():
            try:
                L[v] = f.result()
            except BuildError as e:
                if not VARIANTS[v][5]:
                    raise
                notes.append("variant %s could not be built: %s" % (v, str(e)[-300:]))
        for m, f in fm.items():
            M[m] = f.result()
        if fx is not None:
            try:
                X["x32"], X["x32np"] = [f.result() for f in fx]
            except BuildError as e:
                notes.append("32-bit worker could not be built: %s" % str(e)[-300:])
        if fs is not None:
            X["msan"] = fs.result()
    return L, M, X, notes
