"""Content-addressed build of /repo's working tree plus the drivers of /verif.

Nothing is decided by time stamps: each translation unit is preprocessed and the
object is reused only if the preprocessed text, compiler and flags are identical.
"""
import glob, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OBJ = os.path.join(BUILD, "obj")
GEN = os.path.join(BUILD, "gen")
GENT = os.path.join(GEN, "inst")
CXX = "g++"

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stderr.decode(errors="replace"))
        raise SystemExit(2)
    return r.stdout

def gen():
    os.makedirs(OBJ, exist_ok=True); os.makedirs(GEN, exist_ok=True)
    src = open(os.path.join(REPO, "version.hxx.in")).read()
    txt = re.sub(r"@\w+@", "0", src)
    txt = re.sub(r"\$\{\w+\}", "0", txt)
    p = os.path.join(GEN, "UtilsVersion.hxx")
    if not os.path.exists(p) or open(p).read() != txt:
        t = p + ".%d" % os.getpid()
        open(t, "w").write(txt); os.replace(t, p)
    # a configuration of libstdc++ in which the library templates (strings, streams) are instantiated, hence instrumented, here
    cfg = [w for w in sh([CXX, "-M", "-x", "c++", "/dev/null", "-include", "cstddef"]).decode().split() if w.endswith("bits/c++config.h")]
    txt = open(cfg[0]).read().replace("# define _GLIBCXX_EXTERN_TEMPLATE 1\n", "# define _GLIBCXX_EXTERN_TEMPLATE 0\n")
    os.makedirs(GENT + "/bits", exist_ok=True)
    p = os.path.join(GENT, "bits", "c++config.h")
    if not os.path.exists(p) or open(p).read() != txt:
        t = p + ".%d" % os.getpid()
        open(t, "w").write(txt); os.replace(t, p)

def compile(src, flags):
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + GEN]
    pre = sh([CXX] + flags + inc + ["-E", src])
    key = hashlib.sha256(repr(flags).encode() + pre).hexdigest()[:32]
    o = os.path.join(OBJ, key + ".o")
    if not os.path.exists(o):
        t = o + ".%d.o" % os.getpid()
        sh([CXX] + flags + inc + ["-c", src, "-o", t])
        os.replace(t, o)
    else:
        os.utime(o)
    return o

def link(name, objs, flags):
    key = hashlib.sha256(repr((objs, flags)).encode()).hexdigest()[:24]
    b = os.path.join(BUILD, "%s-%s" % (name, key))
    if not os.path.exists(b):
        t = b + ".%d" % os.getpid()
        sh([CXX] + objs + ["-o", t] + flags)
        os.replace(t, b)
    else:
        os.utime(b)
    return b

def prune(limit=700 << 20):
    fs = [f for f in glob.glob(OBJ + "/*.o") + glob.glob(BUILD + "/*-*") if os.path.isfile(f)]
    fs.sort(key=os.path.getmtime)
    tot = sum(os.path.getsize(f) for f in fs)
    for f in fs:
        if tot <= limit: break
        tot -= os.path.getsize(f)
        try: os.remove(f)
        except OSError: pass

def build(name, units, ldflags):
    """units: list of (source, flags)"""
    gen()
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda u: compile(*u), units))
    return link(name, objs, ldflags)

COMMON = ["-std=gnu++11", "-g1", "-w"]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]

def repo_sources(with_yaml):
    src = sorted(glob.glob(os.path.join(REPO, "src", "*.cxx")))
    if not with_yaml:
        src = [s for s in src if not os.path.basename(s).startswith("PropertyTreeYAML")]
    return src

UBSAN = ["-fsanitize=undefined,float-cast-overflow", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr"]

def seq_binary(driver, ub=False):
    yaml = driver in ("pt", "indep", "exc", "env", "flt")
    fl = COMMON + ["-O1", "-ftrivial-auto-var-init=pattern"] + ASAN + (UBSAN if ub else [])
    units = [(os.path.join(VERIF, "seq", driver + ".cpp"), fl)] + [(s, fl) for s in repo_sources(yaml)]
    return build(("ub_" if ub else "seq_") + driver, units, ["-fsanitize=address", "-rdynamic"] + (["-fsanitize=undefined"] if ub else []) + (["-lyaml-cpp"] if yaml else []) + ["-lpthread"])

REDEF = ["memcpy", "memmove", "memset", "memcmp", "memchr", "strlen", "strtok", "localtime", "gmtime", "ctime", "asctime", "strerror", "setlocale"]
def compile_tsan(src, flags):
    o = compile(src, flags)
    t = o[:-2] + ".r.o"
    if not os.path.exists(t) or os.path.getmtime(t) < 1:
        u = t + ".%d" % os.getpid()
        sh(["objcopy"] + ["--redefine-sym=%s=rt_%s" % (s, s) for s in REDEF] + [o, u])
        os.replace(u, t)
    else:
        os.utime(t)
    return t

def mc_binary():
    gen()
    mc = os.path.join(VERIF, "mc")
    base = ["-std=gnu++11", "-g1", "-w", "-fno-pie"]
    ts = base + ["-O1", "-fsanitize=thread", "-fno-inline", "-I" + GENT]
    pl = base + ["-O2"]
    inst = [os.path.join(mc, f) for f in ("ops.cpp", "jobs.cpp", "shared.cpp", "tree.cpp")] + repo_sources(True)
    plain = [os.path.join(mc, f) for f in ("rt.cpp", "scen.cpp")]
    with ThreadPoolExecutor(8) as ex:
        a = [ex.submit(compile_tsan, s, ts) for s in inst]; b = [ex.submit(compile, s, pl) for s in plain]
        objs = [f.result() for f in a] + [f.result() for f in b]
    return link("mc", objs, ["-no-pie", "-rdynamic", "-lyaml-cpp", "-lpthread", "-ldl"])
