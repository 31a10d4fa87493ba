#!/usr/bin/env python3
"""Builds DLB objects and harnesses from /repo's current working tree.

Everything goes under /verif/build/<hash of all sources and flags> (ignored by
git).  Nothing is read from or written to /repo's own build folders.
"""
import hashlib, os, re, shutil, subprocess, sys, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TALP_PYTHON = "/opt/vp/talp-venv/bin/python"
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

CONFIG_H = r'''
#define DLB_CONFIGURE_ARGS "verif"
#define DLB_VERSION_MAJOR 3
#define DLB_VERSION_MINOR 5
#define DLB_VERSION_PATCH 0
#define DLB_VERSION_STRING "dlb 3.5.0+UNKNOWN (main)"
#define HAVE_EMMINTRIN_H
#define HAVE_EXECINFO_H
#define HAVE_IMMINTRIN_H
#define HAVE_STDATOMIC_H
#define MPI_LIBRARY_VERSION "mock"
#define PACKAGE "dlb"
#define PACKAGE_BUGREPORT "dlb@bsc.es"
#define PACKAGE_NAME "dlb"
#define PACKAGE_VERSION "3.5.0+UNKNOWN"
#define VERSION "3.5.0+UNKNOWN"
'''

BASE_DEFS = ["-DHAVE_CONFIG_H", "-D_GNU_SOURCE", "-DHWLOC_LIB", "-DPAPI_LIB", "-D_FILE_OFFSET_BITS=64"]
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
# variant -> (C compiler flags, link flags, defines)
VARIANTS = {
    "rel": (["-O1", "-g1"] + SAN, SAN, []),
    "dbg": (["-O1", "-g1"] + SAN, SAN, ["-DDEBUG_VERSION"]),
    "nosan": (["-O1", "-g1"], [], []),
    "tsan": (["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"], []),
    "mpi": (["-O1", "-g1"] + SAN, SAN, ["-DMPI_LIB"]),
    # compiled for the thread sanitizer, linked with lib/yield_rt.c, which delays the accesses
    "yield": (["-O1", "-g1", "-fsanitize=thread"], [], []),
}


def lib_sources():
    out = []
    for d in ("support", "LB_comm", "LB_core", "LB_numThreads", "LB_policies", "apis"):
        p = os.path.join(REPO, "src", d)
        for f in sorted(os.listdir(p)):
            if f.endswith(".c") and f not in ("JustProf.c", "RaL.c", "PERaL.c"):
                out.append(os.path.join(p, f))
    return out


def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for base in ("src", "scripts"):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p[len(REPO):].encode())
                with open(p, "rb") as fd:
                    h.update(hashlib.sha256(fd.read()).digest())
    h.update(repr((BASE_DEFS, VARIANTS, CONFIG_H)).encode())
    return h.hexdigest()[:20]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stderr.write("build command failed: %s\n%s\n" % (" ".join(cmd), r.stdout[-6000:]))
        raise SystemExit(2)
    return r.stdout


class Tree:
    def __init__(self):
        self.hash = tree_hash()
        self.dir = os.path.join(BUILD, self.hash)
        os.makedirs(self.dir, exist_ok=True)
        os.utime(self.dir)
        self.prune()
        self.gen = os.path.join(self.dir, "gen")
        os.makedirs(os.path.join(self.gen, "LB_MPI"), exist_ok=True)
        os.makedirs(os.path.join(self.gen, "apis"), exist_ok=True)
        self.write(os.path.join(self.gen, "config.h"), CONFIG_H)
        with open(os.path.join(REPO, "src/apis/dlb.h.in")) as f:
            self.write(os.path.join(self.gen, "apis", "dlb.h"), f.read().replace("@DLB_VERSION_HEXA@", "0x30500"))

    @staticmethod
    def write(path, text):
        if os.path.exists(path) and open(path).read() == text:
            return
        with open(path + ".tmp%d" % os.getpid(), "w") as f:
            f.write(text)
        os.replace(path + ".tmp%d" % os.getpid(), path)

    def prune(self):
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if re.fullmatch(r"[0-9a-f]{20}", d)]
        ds = sorted(ds, key=os.path.getmtime, reverse=True)
        for d in ds[4:]:
            shutil.rmtree(d, ignore_errors=True)

    def incs(self):
        s = os.path.join(REPO, "src")
        return ["-I" + self.gen, "-I" + os.path.join(self.gen, "apis"), "-I" + s, "-I" + os.path.join(s, "apis"), "-I" + os.path.join(VERIF, "lib")]

    def pygen_mpi(self):
        """Generate the MPI sources the way the repository's build does."""
        pygen = os.path.join(REPO, "scripts/pygen.py")
        out = os.path.join(self.gen, "LB_MPI")
        d = os.path.join(REPO, "src/LB_MPI")
        for t in ("MPI_calls_coded.c", "MPI_calls_coded.h", "MPI_intercept.c", "MPI_interceptF.c",
                  "MPI_interface.c", "MPI_interface.h", "MPI_interfaceF.c", "MPI_interfaceF.h"):
            o = os.path.join(out, t)
            if not os.path.exists(o):
                run([sys.executable, pygen, "-s", "3.1", "-j", os.path.join(d, "mpicalls.json"), "-i", os.path.join(d, t + ".in"), "-o", o + ".tmp"])
                os.replace(o + ".tmp", o)
        return out

    def objects(self, variant, sources=None, extra=(), tag=""):
        """Compile the library's C sources once per variant; returns object paths."""
        cflags, _, defs = VARIANTS[variant]
        od = os.path.join(self.dir, variant + tag)
        os.makedirs(od, exist_ok=True)
        srcs = sources if sources is not None else lib_sources()
        jobs, objs = [], []
        for s in srcs:
            o = os.path.join(od, os.path.basename(s) + ".o")
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((s, o))
        def one(j):
            s, o = j
            tmp = o + ".tmp%d" % os.getpid()
            run(["gcc", "-std=gnu11", "-pthread", "-w", "-c", s, "-o", tmp] + cflags + BASE_DEFS + defs + list(extra) + self.incs())
            os.replace(tmp, o)
        with ThreadPoolExecutor(os.cpu_count()) as ex:
            list(ex.map(one, jobs))
        return objs

    def harness(self, name, variant, wraps=(), sources=None, extra_src=(), extra=(), libs=(), cxx=True, tag="", objs=None):
        """Build harness/<name>.cpp against the library objects; returns the binary."""
        cflags, ldflags, defs = VARIANTS[variant]
        src = os.path.join(VERIF, "harness", name + ".cpp")
        h = hashlib.sha256()
        deps = [src] + [os.path.join(VERIF, "harness", e) for e in extra_src]
        for p in deps + [os.path.join(VERIF, "lib", f) for f in sorted(os.listdir(os.path.join(VERIF, "lib")))]:
            h.update(open(p, "rb").read())
        h.update(repr((wraps, sources, extra, libs, tag)).encode())
        exe = os.path.join(self.dir, "%s-%s%s-%s" % (name, variant, tag, h.hexdigest()[:10]))
        if os.path.exists(exe):
            return exe
        objects = objs if objs is not None else self.objects(variant, sources, extra, tag)
        hobjs = []
        if variant == "yield":
            cflags = [f for f in cflags if not f.startswith("-fsanitize")]
            deps = deps + [os.path.join(VERIF, "lib", "yield_rt.c")]
        def one(p):
            o = exe + "." + os.path.basename(p) + ".o"
            if p.endswith(".c"):
                run(["gcc", "-std=gnu11", "-pthread", "-w", "-c", p, "-o", o] + cflags + BASE_DEFS + defs + list(extra) + self.incs())
            else:
                run(["g++", "-std=gnu++23", "-pthread", "-w", "-fpermissive", "-Drestrict=__restrict", "-c", p, "-o", o] + cflags + BASE_DEFS + defs + list(extra) + self.incs())
            return o
        with ThreadPoolExecutor(os.cpu_count()) as ex:
            hobjs = list(ex.map(one, deps))
        wl = ["-Wl,--wrap=" + w for w in wraps]
        tmp = exe + ".tmp%d" % os.getpid()
        run(["g++", "-pthread", "-o", tmp] + hobjs + objects + ldflags + wl + ["-lhwloc", "-lpapi", "-ldl", "-lrt", "-lm"] + list(libs))
        os.replace(tmp, exe)
        for o in hobjs:
            os.unlink(o)
        return exe


def locked_tree():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t = Tree()
    t._lock = lock
    return t
