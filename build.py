"""Builds instrumented variants of /repo/src and the harnesses that drive it.

Objects are cached in /verif/.build by a hash of everything that goes into them, so a build always
reflects the current working tree of /repo, and repeated builds are quick."""
import concurrent.futures, glob, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")

DEFS = ["-DBOOST_NO_CXX11_SCOPED_ENUMS", "-DBOOST_NO_SCOPED_ENUMS", '-DLIBSUB_VERSION="devel"', "-DLIBSUB_POSIX",
        "-D_FILE_OFFSET_BITS=64", "-D__STDC_FORMAT_MACROS", "-Wno-deprecated-declarations", "-w", "-pthread", "-fPIC"]
LIBS = ["-lboost_filesystem", "-lboost_system", "-lboost_locale", "-lboost_regex",
        "-licuio", "-licui18n", "-licuuc", "-licudata", "-ldl", "-pthread"]

SAN = ["-fno-omit-frame-pointer", "-g1", "-fno-sanitize-recover=all"]
VARIANTS = {
    # address + undefined behaviour (+ leaks at exit, + container assertions)
    "asan": dict(cxx="g++", flags=["-O1", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS"] + SAN),
    "tsan": dict(cxx="g++", flags=["-O1", "-fsanitize=thread"] + SAN),
    # as shipped
    "plain": dict(cxx="g++", flags=["-O2", "-g1"]),
    # uninstrumented, for valgrind
    "vg": dict(cxx="g++", flags=["-O1", "-g1", "-fno-inline-functions"]),
    # automatic variables filled with a pattern / with zeroes
    "pat": dict(cxx="g++", flags=["-O1", "-g1", "-ftrivial-auto-var-init=pattern"]),
    "zero": dict(cxx="g++", flags=["-O1", "-g1", "-ftrivial-auto-var-init=zero"]),
    # counts the blocks of code executed (see harness/costs.cc)
    "count": dict(cxx="g++", flags=["-O1", "-g1", "-fsanitize-coverage=trace-pc", "-fno-builtin"], sources=["costs.cc"]),
    # libFuzzer
    "fuzz": dict(cxx="clang++", flags=["-O1", "-fsanitize=fuzzer-no-link,address,undefined", "-D_GLIBCXX_ASSERTIONS"] + SAN,
                 link=["-fsanitize=fuzzer"]),
}

class BuildError(Exception):
    pass

def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def _read(path):
    with open(path, "rb") as f:
        return f.read()

def _headers(d):
    return b"".join(os.path.basename(p).encode() + b"\0" + _read(p)
                    for p in sorted(glob.glob(d + "/*.h") + glob.glob(d + "/*.hpp")))

def _compile(cxx, std, flags, src, obj):
    if os.path.exists(obj):
        return
    tmp = obj + ".%d.tmp" % os.getpid()
    env = dict(os.environ, CCACHE_DISABLE="1", LC_ALL="C")
    r = subprocess.run([cxx, std] + DEFS + flags + ["-I" + REPO, "-I" + REPO + "/src", "-I" + HARNESS, "-c", src, "-o", tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if r.returncode != 0:
        raise BuildError("compiling %s:\n%s" % (src, r.stdout.decode(errors="replace")[-4000:]))
    os.rename(tmp, obj)

def build(variant, harness, extra_sources=(), lib_extra_flags=()):
    """Build harness/<harness>.cc, or the program whose source is <harness>.cc, against the library; returns the
    program's path."""
    v = VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    hdr = _headers(REPO + "/src")
    hhdr = _headers(HARNESS)
    flags = v["flags"] + list(lib_extra_flags)
    jobs = []
    for src in sorted(glob.glob(REPO + "/src/*.cc")):
        if os.path.basename(src) == "version.cc":
            continue
        obj = os.path.join(d, os.path.basename(src)[:-3] + "-" + _sha(hdr, _read(src), " ".join(flags)) + ".o")
        jobs.append((v["cxx"], "-std=c++11", flags, src, obj))
    for src in [os.path.join(HARNESS, harness + ".cc")] + [os.path.join(HARNESS, x) for x in v.get("sources", [])] + list(extra_sources):
        obj = os.path.join(d, os.path.basename(src)[:-3] + "-h" + _sha(hdr, hhdr, _read(src), " ".join(flags)) + ".o")
        jobs.append((v["cxx"], "-std=c++17", flags, src, obj))
    # largest sources first, for a short critical path
    jobs.sort(key=lambda j: -os.path.getsize(j[3]) - (10**6 if "/harness/" in j[3] else 0))
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for f in [ex.submit(_compile, *j) for j in jobs]:
            f.result()
    objs = sorted(j[4] for j in jobs)
    prog = os.path.join(d, os.path.basename(harness) + "-" + _sha(" ".join(objs)))
    if not os.path.exists(prog):
        tmp = prog + ".%d.tmp" % os.getpid()
        r = subprocess.run([v["cxx"]] + flags + v.get("link", []) + objs + ["-o", tmp] + LIBS,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("linking %s:\n%s" % (harness, r.stdout.decode(errors="replace")[-4000:]))
        os.rename(tmp, prog)
    return prog
