"""Builds /repo's sources (current working tree) in several instrumentation
flavours, outside /repo.  Everything is keyed by content, so a changed tree is
always rebuilt."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = min(8, os.cpu_count() or 4)

COMMON = ["-w", "-fPIC", "-pthread"]
SAN = ["-g1", "-O1", "-fsanitize=address,undefined",
       "-fno-sanitize=nonnull-attribute,vptr", "-fno-sanitize-recover=all",
       "-fno-omit-frame-pointer"]
FLAVORS = {
    # the flags configure/make use for the shipped library
    "o2": ["-g1", "-O2"],
    "asan": SAN,
    # for valgrind: readable frames, no vector code to mistake
    "vg": ["-g", "-O1", "-fno-inline-functions", "-DVERIF_VG"],
    # counts executed basic blocks
    "work": ["-g1", "-O1", "-fsanitize-coverage=trace-pc"],
    "tsan": ["-g1", "-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
}


class BuildError(Exception):
    pass


def lib_sources():
    src = [f for f in glob.glob(REPO + "/src/*.cc")
           if os.path.basename(f) != "main.cc" and os.path.getsize(f) > 0]
    src.append(REPO + "/src/gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.cc")
    # fst-types.cc only registers other FST types by name; ConstFst::Read does
    # not go through the registry, and it takes a minute to compile.
    src += [f for f in glob.glob(REPO + "/src/openfst/lib/*.cc")
            if os.path.basename(f) != "fst-types.cc"]
    return sorted(src)


def includes():
    s = REPO + "/src"
    return ["-I" + s, "-I" + s + "/openfst/include", "-I" + s + "/gemmlowp",
            "-I" + VERIF + "/drivers"]


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for base, dirs, files in sorted(os.walk(REPO + "/src")):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".cc", ".h", ".c", ".hpp")):
                    p = os.path.join(base, f)
                    h.update(p[len(REPO):].encode())
                    h.update(open(p, "rb").read())
        _tree = h.hexdigest()
    return _tree


def _ccache():
    return ["ccache"] if shutil.which("ccache") else []


def _run(cmd):
    env = dict(os.environ)
    env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    env["CCACHE_NOHASHDIR"] = "1"
    for k in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS"):
        env.pop(k, None)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=env, cwd="/tmp")
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" +
                         r.stdout.decode(errors="replace")[-6000:])


def _flags_for(flavor, src, full_gemm):
    f = list(FLAVORS[flavor])
    if "/gemmlowp/" in src and flavor == "asan" and not full_gemm:
        return list(FLAVORS["o2"])     # 30 s under ASan; only C14 needs it
    if "/gemmlowp/" in src and flavor == "asan":
        return ["-g1", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]
    return f


def build(specs):
    """specs: list of dicts {flavor, driver(s) list of driver source names,
    name, extra(list of extra .cc), full_gemm, defs}.  Returns {name: exe}."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(specs)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _build(specs):
    vh = hashlib.sha256()
    for f in sorted(glob.glob(VERIF + "/drivers/*")) + [__file__]:
        if os.path.isfile(f):
            vh.update(open(f, "rb").read())
    jobs = []      # (cost, obj, cmd)
    seen = set()
    links = []
    out = {}
    keep = set()
    for sp in specs:
        flavor = sp["flavor"]
        full = bool(sp.get("full_gemm"))
        d = os.path.join(BUILD, "%s-%s" % (flavor, tree_hash()[:16]))
        keep.add(d)
        os.makedirs(d, exist_ok=True)
        objs = []
        for s in lib_sources() + sp.get("repo_extra", []):
            fl = _flags_for(flavor, s, full)
            tag = hashlib.sha256((" ".join(fl) + s).encode()).hexdigest()[:8]
            o = os.path.join(d, os.path.basename(s)[:-3] + "-" + tag + ".o")
            if s not in sp.get("repo_extra", []) or not sp.get("extra_defs"):
                ed = []
            else:
                ed = sp["extra_defs"]
                o = o[:-2] + "x.o"
            objs.append(o)
            if o not in seen and not os.path.exists(o):
                seen.add(o)
                cost = 10 if "gemmlowp" in s else 8 if "ce_stt" in s else \
                    6 if "decoder" in s else 2
                jobs.append((cost, o, _ccache() + ["g++", "-std=c++11"] +
                             COMMON + fl + ed + includes() + ["-c", s, "-o"]))
        dobjs = []
        for s in sp["sources"]:
            p = os.path.join(VERIF, "drivers", s)
            tag = hashlib.sha256((vh.hexdigest() + " ".join(sp.get("defs", []))
                                  ).encode()).hexdigest()[:12]
            o = os.path.join(d, "drv-" + s.replace(".cc", "") + "-" + tag + ".o")
            dobjs.append(o)
            if o not in seen and not os.path.exists(o):
                seen.add(o)
                jobs.append((9, o, _ccache() + ["g++", "-std=c++14"] + COMMON +
                             FLAVORS[flavor] + sp.get("defs", []) + includes() +
                             ["-c", p, "-o"]))
        key = hashlib.sha256((vh.hexdigest() + repr(dobjs + objs +
                              sp.get("libs", []))).encode()).hexdigest()
        exe = os.path.join(d, sp["name"] + "-" + key[:12])
        assert sp["name"] not in out, sp["name"]
        out[sp["name"]] = exe
        san = [x for x in FLAVORS[flavor] if x.startswith("-fsanitize=")]
        if not os.path.exists(exe):
            libs = sp.get("libs", ["-lopenblas"])
            links.append(["g++", "-pthread"] + san + dobjs + objs + libs +
                         ["-ldl", "-o", exe])
    # drop trees of other contents (disk)
    for d in glob.glob(BUILD + "/*-*"):
        if os.path.isdir(d) and d not in keep and \
                not d.endswith(tree_hash()[:16]):
            shutil.rmtree(d, ignore_errors=True)

    def do(job):
        _, o, cmd = job
        tmp = o + ".tmp%d" % os.getpid()
        _run(cmd + [tmp])
        os.rename(tmp, o)
    jobs.sort(key=lambda j: -j[0])
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(do, jobs))
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(_run, links))
    return out
