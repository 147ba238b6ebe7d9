"""Builds, from /repo's current working tree: the executor, the library as LLVM bitcode, harness modules and native replay binaries."""
import re, os, subprocess, hashlib, shutil, json, glob, fcntl, contextlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HBS_REPO", "/repo")
BUILD = os.environ.get("HBS_BUILD", os.path.join(V, ".build"))
JOBS = os.cpu_count() or 4
CLANG = "clang"
GEN_INPUTS = {"lex": ["handlebars.l"], "tab": ["handlebars.y", "handlebars.l"], "re": ["handlebars_scanners.re"], "gperf": ["handlebars_helpers_ht.gperf"]}
INC_SYS = ["-I/usr/include/json-c"]
WARN = ["-w"]
NOREDIR = set()

class BuildError(Exception):
    pass

def sh(cmd, cwd=None, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode("utf-8", "replace")[-3000:]))
    return r.stdout

def fhash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.basename(p).encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
        h.update(b"\1")
    return h.hexdigest()[:24]

@contextlib.contextmanager
def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield

def prune(prefix, keep, limit=6):
    ds = sorted(glob.glob(os.path.join(BUILD, prefix + "-*")), key=os.path.getmtime)
    for d in ds[:-limit]:
        if d != keep: shutil.rmtree(d, ignore_errors=True)

def engine():
    src = [os.path.join(V, "engine", f) for f in ("symx.cpp", "expr.cpp", "expr.h", "hash.c", "Makefile")]
    xxh = [os.path.join(V, "engine", "xxhash", f) for f in ("xxhash.h", "xxh3.h")]
    d = os.path.join(BUILD, "engine-" + fhash(src + xxh))
    exe = os.path.join(d, "symx")
    with lock("engine"):
        if not os.path.exists(exe):
            os.makedirs(d, exist_ok=True)
            sh(["make", "-j4", "-C", os.path.join(V, "engine"), "OUT=" + d, "XXH=" + os.path.join(V, "engine", "xxhash")])
            prune("engine", d, 2)
    return exe, os.path.join(d, "hash.o")

def repo_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "*.c")) + glob.glob(os.path.join(REPO, "src", "*.h")))

def prepare():
    """Mirror src/ into the build directory, regenerating lexer/parser/scanner/hash outputs whose inputs differ from the pinned commit."""
    srcs = repo_sources()
    geni = sorted({os.path.join(REPO, "src", f) for fs in GEN_INPUTS.values() for f in fs})
    geni = [g for g in geni if os.path.exists(g)]
    vend = [os.path.join(REPO, "vendor", "sort_r", "sort_r.h")]
    mods = sorted(glob.glob(os.path.join(V, "models", "*")) + glob.glob(os.path.join(V, "models", "config", "*")))
    mods = [m for m in mods if os.path.isfile(m)]
    key = fhash(srcs + geni + vend + mods + [os.path.abspath(__file__)])
    d = os.path.join(BUILD, "lib-" + key)
    with lock("lib"):
        if not os.path.exists(os.path.join(d, "ok")):
            shutil.rmtree(d, ignore_errors=True)
            s = os.path.join(d, "src"); os.makedirs(s)
            for f in srcs + geni: shutil.copy(f, s)
            shutil.copy(vend[0], s)
            for f in ("config.h", "handlebars_config.h"): shutil.copy(os.path.join(V, "models", "config", f), s)
            base = json.load(open(os.path.join(V, "lib", "gen_base.json")))
            for g, ins in GEN_INPUTS.items():
                ps = [os.path.join(s, i) for i in ins]
                if not all(os.path.exists(p) for p in ps) or fhash(ps) == base[g]: continue
                if g == "lex": sh(["flex"] + genflags("FLEXFLAGS") + ["-o", "handlebars.lex.c", "handlebars.l"], cwd=s)
                if g == "tab": sh(["bison", "-b", "handlebars", "handlebars.y"], cwd=s)
                if g == "re": sh(["re2c"] + genflags("RE2CFLAGS") + ["-o", "handlebars_scanners.c", "handlebars_scanners.re"], cwd=s)
                if g == "gperf": sh(["gperf"] + genflags("GPERFFLAGS") + ["--output-file=handlebars_helpers_ht.h", "handlebars_helpers_ht.gperf"], cwd=s)
            compile_bc(d)
            open(os.path.join(d, "ok"), "w").close()
            prune("lib", d)
    return d

def genflags(var):
    """The generator flags configure uses by default."""
    m = re.search(r'%s="(-[^"]*)"' % var, open(os.path.join(REPO, "configure.ac")).read())
    return m.group(1).split() if m else []

def cflags(d):
    return ["-DHAVE_CONFIG_H", "-D_GNU_SOURCE", "-DHBS_VERIF=1", "-I" + os.path.join(V, "models"), "-I" + os.path.join(d, "src"), "-I" + os.path.join(V, "models", "config")] + INC_SYS + WARN

BCFLAGS = ["-O1", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-strict-aliasing", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-stack-protector", "-fsanitize=array-bounds", "-fsanitize-trap=array-bounds"]

def lib_extra(name):
    x = ["-include", os.path.join(V, "models", "redirect.h")]
    if name == "handlebars_cache_mmap.c": x = ["-DSYMX_YIELD_ATOMICS"] + x
    if name == "handlebars_partial_loader.c": x = ["-DSYMX_REDIRECT_STDIO"] + x
    return x

def compile_bc(d):
    s = os.path.join(d, "src"); bc = os.path.join(d, "bc"); os.makedirs(bc, exist_ok=True)
    jobs = []
    for f in sorted(os.listdir(s)):
        if f.endswith(".c"):
            jobs.append([CLANG] + BCFLAGS + cflags(d) + lib_extra(f) + ["-emit-llvm", "-c", os.path.join(s, f), "-o", os.path.join(bc, f[:-2] + ".bc")])
    m = os.path.join(V, "models")
    jobs.append([CLANG] + BCFLAGS + ["-fno-builtin", "-w", "-I" + m, "-emit-llvm", "-c", os.path.join(m, "libc.c"), "-o", os.path.join(bc, "zz_libc.bc")])
    jobs.append([CLANG] + BCFLAGS + ["-w", "-I" + m, "-emit-llvm", "-c", os.path.join(m, "talloc_model.c"), "-o", os.path.join(bc, "zz_talloc.bc")])
    jobs.append([CLANG] + BCFLAGS + ["-w", "-DSYMX_NO_REDIRECT_DEFS", "-I" + m, "-emit-llvm", "-c", os.path.join(m, "env.c"), "-o", os.path.join(bc, "zz_env.bc")])
    for extra in ("jsonc_model", "lmdb_model", "yaml_model"):
        p = os.path.join(m, extra + ".c")
        if os.path.exists(p): jobs.append([CLANG] + BCFLAGS + ["-w", "-I" + m, "-I" + os.path.join(d, "src")] + INC_SYS + ["-emit-llvm", "-c", p, "-o", os.path.join(bc, "zz_" + extra + ".bc")])
    with ThreadPoolExecutor(JOBS) as ex: list(ex.map(sh, jobs))
    sh(["llvm-link"] + sorted(glob.glob(os.path.join(bc, "*.bc"))) + ["-o", os.path.join(d, "lib.bc")])

def harness_bc(d, src, defs=()):
    name = os.path.splitext(os.path.basename(src))[0]
    hh = sorted(glob.glob(os.path.join(V, "harness", "*.h")))
    out = os.path.join(d, "h_%s_%s.bc" % (name, fhash([src] + hh, repr(defs))))
    with lock("h_" + name):
        if not os.path.exists(out):
            o = out + ".o.bc"
            sh([CLANG] + BCFLAGS + cflags(d) + ["-I" + os.path.join(V, "harness")] + list(defs) + ["-emit-llvm", "-c", src, "-o", o])
            sh(["llvm-link", o, os.path.join(d, "lib.bc"), "-o", out + ".l"])
            sh(["opt", "-passes=function(loweratomic),internalize,globaldce", "-internalize-public-api-list=harness", out + ".l", "-o", out + ".tmp"])
            os.unlink(out + ".l"); os.unlink(o); os.rename(out + ".tmp", out)
    return out

SAN = ["-fsanitize=address,bounds,integer-divide-by-zero,unreachable", "-fno-sanitize-recover=bounds,integer-divide-by-zero,unreachable", "-fno-omit-frame-pointer"]

def native_lib(d):
    n = os.path.join(d, "native")
    with lock("native"):
        if not os.path.exists(os.path.join(n, "ok")):
            shutil.rmtree(n, ignore_errors=True); os.makedirs(n)
            s = os.path.join(d, "src"); m = os.path.join(V, "models"); jobs = []
            for f in sorted(os.listdir(s)):
                if f.endswith(".c"): jobs.append([CLANG, "-O1", "-g", "-fno-strict-aliasing"] + SAN + cflags(d) + lib_extra(f) + ["-c", os.path.join(s, f), "-o", os.path.join(n, f[:-2] + ".o")])
            for f in ("env.c", "native.c"): jobs.append([CLANG, "-O1", "-g", "-w"] + SAN + ["-I" + m, "-c", os.path.join(m, f), "-o", os.path.join(n, "zz_" + f[:-2] + ".o")])
            for extra in ("lmdb_model",):
                p = os.path.join(m, extra + ".c")
                if os.path.exists(p): jobs.append([CLANG, "-O1", "-g", "-w"] + SAN + ["-I" + m, "-I" + s, "-c", p, "-o", os.path.join(n, "zz_" + extra + ".o")])
            with ThreadPoolExecutor(JOBS) as ex: list(ex.map(sh, jobs))
            open(os.path.join(n, "ok"), "w").close()
    return n

def native_exe(d, src, hash_o, defs=()):
    n = native_lib(d)
    name = os.path.splitext(os.path.basename(src))[0]
    hh = sorted(glob.glob(os.path.join(V, "harness", "*.h")))
    exe = os.path.join(n, "x_%s_%s" % (name, fhash([src] + hh, repr(defs))))
    with lock("nx_" + name):
        if not os.path.exists(exe):
            sh([CLANG, "-O1", "-g"] + SAN + cflags(d) + ["-I" + os.path.join(V, "harness")] + list(defs) + [src] + sorted(glob.glob(os.path.join(n, "*.o"))) + [hash_o, "-o", exe + ".tmp", "-ltalloc", "-ljson-c", "-lyaml", "-llmdb", "-lm", "-lpthread"])
            os.rename(exe + ".tmp", exe)
    return exe
