#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree into /verif/.build.

Every C and C++ source of the library is compiled with the compiler's
memory-access instrumentation (compile step only) and linked, together with
the simulation runtime and the harness, into one executable. Objects are
cached by a hash of the preprocessed source, the flags and the compiler.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(HERE, ".build"))
SRC = os.path.join(REPO, "src")
LIBDIR = os.path.join(SRC, "ska-sdp-func")
NPROC = os.cpu_count() or 4

COMMON = ["-O2", "-g1", "-fopenmp", "-fno-pie", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0",
          "-fno-omit-frame-pointer", "-fno-stack-protector", "-ffile-prefix-map=%s/=/repo/" % REPO]
LIBFLAGS = ["-fsanitize=thread", "-DSDP_USE_POCKETFFT", "-DSOURCE_PATH_SIZE=6", "-DNDEBUG",
            "-mmemcpy-strategy=libcall:-1:noalign", "-mmemset-strategy=libcall:-1:noalign",
            "-w", "-I" + SRC, "-I" + REPO]
WRAPS = """malloc calloc realloc free aligned_alloc memalign posix_memalign strdup
fprintf vfprintf printf vprintf fwrite fwrite_unlocked fputs fputs_unlocked fputc putc _IO_putc fputc_unlocked
putc_unlocked puts putchar fflush flockfile funlockfile ftrylockfile write dprintf perror ferror ferror_unlocked clearerr clearerr_unlocked
rand srand random drand48 getenv exit _exit quick_exit abort __assert_fail
memcpy memmove memset memcmp strlen""".split()


def lib_sources():
    res = []
    for root, dirs, files in os.walk(LIBDIR):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".c", ".cpp", ".cc", ".cxx")):
                res.append(os.path.join(root, f))
    return res


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def compile_one(src, lib):
    cxx = not src.endswith(".c")
    cc = ["g++", "-std=c++11" if lib else "-std=c++17"] if cxx else ["gcc", "-std=gnu99"]
    flags = COMMON + (LIBFLAGS if lib else ["-Wall", "-I" + SRC, "-I" + os.path.join(HERE, "sim"), "-DSDP_USE_POCKETFFT"])
    p = subprocess.run(cc + flags + ["-E", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise RuntimeError("cannot preprocess %s\n%s" % (src, p.stderr.decode(errors="replace")[-3000:]))
    h = hashlib.sha256()
    h.update(" ".join(cc + flags + WRAPS + ["1"]).encode())
    h.update(p.stdout)
    obj = os.path.join(OUT, "obj", os.path.basename(src) + "." + h.hexdigest()[:24] + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        run(cc + flags + ["-c", src, "-o", tmp])
        # Only the library's calls go through the seams; the runtime's do not.
        red = []
        for w in WRAPS:
            red += ["--redefine-sym", "%s=__wrap_%s" % (w, w) if lib else "__real_%s=%s" % (w, w)]
        run(["objcopy"] + red + [tmp])
        os.rename(tmp, obj)
    return obj


def build(verbose=False):
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    lock = open(os.path.join(OUT, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    jobs = [(s, True) for s in lib_sources()]
    sim = os.path.join(HERE, "sim")
    jobs += [(os.path.join(sim, f), False) for f in sorted(os.listdir(sim)) if f.endswith(".cpp")]
    order = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        objs = dict(zip(order, ex.map(lambda j: compile_one(*j), order)))
    objs = [objs[j] for j in jobs]
    h = hashlib.sha256("\n".join(objs + WRAPS).encode()).hexdigest()[:24]
    exe = os.path.join(OUT, "simrun." + h)
    if not os.path.exists(exe):
        tmp = exe + ".tmp"
        cmd = ["g++", "-no-pie", "-o", tmp] + objs + ["-ldl", "-lm", "-Wl,-z,now"]
        run(cmd)
        os.rename(tmp, exe)
        keep = set(objs)
        for f in os.listdir(os.path.join(OUT, "obj")):
            p = os.path.join(OUT, "obj", f)
            if p not in keep and os.path.getmtime(p) < os.path.getmtime(exe) - 86400:
                os.remove(p)
        for f in os.listdir(OUT):
            if f.startswith("simrun.") and f != os.path.basename(exe):
                os.remove(os.path.join(OUT, f))
    fcntl.flock(lock, fcntl.LOCK_UN)
    return exe


if __name__ == "__main__":
    print(build(True))
