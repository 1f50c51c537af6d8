"""Builds ThermoFun (all of it) and the harnesses from /repo's working tree.

Nothing is written in /repo.  Objects are cached in /verif/build (ignored by
git) under a hash of everything they are made from, so a change of any source
or header in /repo is always seen, whatever its time stamp says.
"""
import concurrent.futures, glob, hashlib, os, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = os.environ.get("VERIF_CXX", "g++")
BASE = ["-std=c++20", "-w", "-fPIC", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL",
        "-I" + os.path.join(VERIF, "stubs"), "-I" + REPO, "-I" + os.path.join(REPO, "ThermoFun")]
VARIANTS = {
    "o2": ["-O2"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"],
    "inst": ["-O1", "-finstrument-functions",
             "-finstrument-functions-exclude-file-list=/usr/include,/usr/lib,bits/,stubs/"],
}
VARIANTS["sched"] = ["-O1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]   # the hooks are those of src/sched_rt.cpp
LIBS = ["-lspdlog", "-lfmt", "-lpthread"]
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _headers_hash():
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "ThermoFun"), os.path.join(VERIF, "stubs")):
        for ext in ("h", "hpp", "hxx", "inc", "ipp"):
            files += glob.glob(os.path.join(root, "**", "*." + ext), recursive=True)
    for p in sorted(files):
        h.update(p.encode()); h.update(_read(p))
    return h.hexdigest()


def _compile(src, flags, extra_hash):
    key = hashlib.sha256(("\0".join([CXX] + flags) + src + extra_hash).encode() + _read(src)).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (src, r.stdout[-4000:]))
    os.replace(tmp, obj)
    return obj


def library(variant="o2"):
    """Objects of the library and the ChemicalFun stand-in."""
    hh = _headers_hash()
    flags = BASE + VARIANTS[variant]
    srcs = sorted(glob.glob(os.path.join(REPO, "ThermoFun", "**", "*.cpp"), recursive=True))
    stub = os.path.join(VERIF, "stubs", "chemicalfun.cpp")
    # long ones first
    srcs.sort(key=lambda p: -os.path.getsize(p))
    stub_flags = [f for f in flags if not f.startswith("-finstrument")]
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(_compile, s, flags, hh) for s in srcs] + [ex.submit(_compile, stub, stub_flags, hh)]
        return [f.result() for f in futs]


def harness(name, variant="o2", defs=()):
    objs = library(variant)
    src = os.path.join(VERIF, "src", name + ".cpp")
    h = hashlib.sha256(_headers_hash().encode())
    for p in sorted(glob.glob(os.path.join(VERIF, "src", "*.hpp"))):
        h.update(_read(p))
    flags = [f for f in BASE + VARIANTS[variant] if not f.startswith("-finstrument")] + list(defs)
    obj = _compile(src, flags, h.hexdigest())
    key = hashlib.sha256(("\0".join([obj] + objs + LIBS + [variant] + ([_read(os.path.join(VERIF, "src", f)).decode() for f in ("sched_rt.cpp", "sched_rt.hpp")] if variant == "sched" else []))).encode()).hexdigest()[:32]
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (name, variant, key))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        extra = []
        if variant == "sched":
            extra = [_compile(os.path.join(VERIF, "src", "sched_rt.cpp"), ["-std=c++20", "-O2", "-w", "-fPIC"], h.hexdigest())] + ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp")] + ["-rdynamic", "-ldl"]
        san = [f for f in VARIANTS[variant] if f.startswith("-fsanitize") and variant != "sched"]
        r = subprocess.run([CXX, "-o", tmp, obj] + objs + extra + san + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("link %s\n%s" % (name, r.stdout[-4000:]))
        os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or ["o2"]:
        print(v, len(library(v)), "objects")
