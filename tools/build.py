"""Builds the sources of /repo in the flavours the checks need, and the harness programs.

asan   code under test with AddressSanitizer, for the sequential enumerations (lib/seqx.c)
mc     code under test with -fsanitize=thread instrumentation, linked with lib/mcrt.c instead of
       the sanitizer's runtime, for the schedule enumerations
Objects are cached by content under _cache (git-ignored); nothing is taken from /repo/_build.
"""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(ROOT, "_cache")

COMMON = ["-std=gnu99", "-D_GNU_SOURCE", "-DMCP_VERIF_BUILD=1", "-include", os.path.join(ROOT, "compat/supamcp_linux.h"),
          "-w", "-g", "-fno-pie", "-fno-omit-frame-pointer", "-DMCP_USE_STATIC"]
INC = ["-I" + os.path.join(REPO, d) for d in (
    "src/common", "src/common/internal", "src/json", "src/json/internal", "src/transport", "src/transport/internal", "src/server", "src/server/internal",
    "src/client", "src/client/internal", "src/connection_pool", "src/connection_pool/internal", "src/gateway", "src/gateway/internal")] + ["-isystem", os.path.join(REPO, "include")]
FLAVORS = {
    "asan": ["-O1", "-fsanitize=address"],
    "mc": ["-O1", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=1", "-fno-builtin"],
    "plain": ["-O1"],
}
# the memory pool recognises its blocks by reading a header in front of any pointer it is given, so
# it cannot itself run under AddressSanitizer; the rest of the library does
NOASAN = {"src/common/mcp_memory_pool.c"}

WRAP_SEQ = ("clock_gettime gettimeofday time nanosleep usleep sleep rand srand random malloc calloc realloc free strdup "
            "strndup posix_memalign aligned_alloc mcp_log_log").split()
WRAP_MC = ("malloc calloc realloc free posix_memalign aligned_alloc memalign strdup strndup memcpy memmove memset memcmp strlen "
           "strcmp strncmp strcpy strncpy strchr strcat pthread_create pthread_join pthread_detach pthread_once pthread_key_create "
           "pthread_key_delete pthread_setspecific pthread_getspecific "
           "pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock "
           "pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait "
           "pthread_cond_signal pthread_cond_broadcast pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock "
           "pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock sched_yield usleep "
           "sleep nanosleep clock_gettime gettimeofday time rand srand random mcp_log_log").split()
LIBS = ["-lwebsockets", "-lssl", "-lcrypto", "-lpthread", "-ldl", "-lm"]


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout)
    return r.stdout


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def header_hash():
    h = hashlib.sha256()
    hs = sorted(glob.glob(REPO + "/src/**/*.h", recursive=True) + glob.glob(REPO + "/include/*.h") + [ROOT + "/compat/supamcp_linux.h"])
    for p in hs:
        h.update(p.encode())
        h.update(_read(p))
    return h.hexdigest()


def sources():
    return sorted(glob.glob(REPO + "/src/*/*.c"))


def library(flavor):
    """Compile the whole library; returns the path of the archive."""
    d = os.path.join(CACHE, flavor)
    os.makedirs(d, exist_ok=True)
    hh = header_hash()
    flags = COMMON + FLAVORS[flavor] + INC

    def one(src):
        rel = os.path.relpath(src, REPO)
        fl = list(flags)
        if flavor == "asan" and rel in NOASAN:
            fl = [x for x in fl if x != "-fsanitize=address"]
        key = hashlib.sha256((hh + " ".join(fl) + rel).encode() + _read(src)).hexdigest()[:24]
        o = os.path.join(d, os.path.basename(src)[:-2] + "-" + key + ".o")
        if not os.path.exists(o):
            tmp = o + ".%d.tmp" % os.getpid()
            sh(["gcc"] + fl + ["-c", src, "-o", tmp])
            os.rename(tmp, o)
        return o

    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sources()))
    key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:24]
    a = os.path.join(d, "libmcp-%s.a" % key)
    if not os.path.exists(a):
        tmp = a + ".%d.tmp" % os.getpid()
        sh(["ar", "rcs", tmp] + objs)
        os.rename(tmp, a)
    return a


def program(name, srcs, flavor, wraps=(), cflags=()):
    """Build one harness; returns its path."""
    lib = library(flavor)
    d = os.path.join(CACHE, "bin")
    os.makedirs(d, exist_ok=True)
    rt = {"asan": "seqx", "plain": "seqx", "mc": "mcrt"}[flavor]
    wl = (WRAP_MC if flavor == "mc" else WRAP_SEQ) + list(wraps)
    fl = COMMON + ["-O1"] + INC + ["-I" + ROOT + "/lib", "-I" + ROOT + "/checks"] + list(cflags)
    if flavor == "asan":
        fl.append("-fsanitize=address")
    deps = [os.path.join(ROOT, "lib", rt + ".c"), os.path.join(ROOT, "lib", "nolog.c")] + [os.path.join(ROOT, "checks", s) for s in srcs]
    hdrs = glob.glob(ROOT + "/lib/*.h") + glob.glob(ROOT + "/checks/*.h")
    key = hashlib.sha256((lib + header_hash() + " ".join(fl + wl)).encode() + b"".join(_read(p) for p in sorted(deps + hdrs))).hexdigest()[:24]
    out = os.path.join(d, name + "-" + key)
    if os.path.exists(out):
        return out
    objs = []

    def cc(p):
        f = list(fl)
        if p.endswith("/lib/%s.c" % rt) or p.endswith("nolog.c"):
            f = [x for x in f if x != "-fsanitize=address"]
        o = os.path.join(d, "%s-%s-%d.o" % (name, os.path.basename(p)[:-2], os.getpid()))
        sh(["gcc"] + f + ["-c", p, "-o", o])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, deps))
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = ["gcc", "-no-pie", "-g", "-o", tmp] + objs + ["-Wl,--start-group", lib, "-Wl,--end-group"] + LIBS
    if flavor == "asan":
        cmd.append("-fsanitize=address")
    cmd += ["-Wl,--wrap=" + w for w in wl]
    cmd += ["-Wl,-z,norelro"] if flavor == "mc" else []
    sh(cmd)
    for o in objs:
        os.unlink(o)
    os.rename(tmp, out)
    return out
