"""Builds /repo's library sources (current working tree) plus a harness.

Objects are kept in /verif/build (ignored by git), keyed by a hash of the
compiler flags, the source file and every header of the tree, so a changed
source is always recompiled.
"""
import concurrent.futures as cf
import hashlib
import os
import subprocess
import sys

REPO = os.environ.get("HIMALAYA_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SRC = os.path.join(REPO, "source")

VARIANTS = {
    # name: (flags, per-file override for the large expression files)
    "plain": ["-O1", "-g0"],
    "fast": ["-O2", "-g0"],
    "asan": ["-O1", "-gline-tables-only", "-fno-omit-frame-pointer",
             "-fsanitize=address,undefined,float-divide-by-zero,float-cast-overflow",
             "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}
VARIANTS["o0"] = ["-O0", "-g1"]                                   # for memcheck: nothing uninitialised is optimised away
VARIANTS["pattern"] = ["-O0", "-g0", "-ftrivial-auto-var-init=pattern"]
# division by zero on doubles is well defined (IEC 559) and not monitored
VARIANTS["asan"] = ["-O1", "-g1", "-fno-omit-frame-pointer",
                    "-fsanitize=address,undefined,float-cast-overflow",
                    "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]

FORTRAN_EXT = (".f", ".f90", ".F", ".F90")


class BuildError(Exception):
    pass


def eigen():
    for d in ("/usr/include/eigen3", "/usr/local/include/eigen3"):
        if os.path.isdir(d):
            return ["-isystem", d]
    return []


def incs():
    return ["-I" + REPO + "/include", "-I" + SRC] + eigen() + ["-I" + VERIF + "/harness"]


def walk(top, exts):
    out = []
    for at, dirs, files in os.walk(top):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                out.append(os.path.join(at, f))
    return out


def library_sources():
    out = []
    for f in walk(SRC + "/himalaya", (".cpp",) + FORTRAN_EXT):
        if "/LibraryLink/" in f:
            continue
        out.append(f)
    return out


def pick(*suffixes):
    """library sources whose path ends with one of the suffixes"""
    out = [f for f in library_sources() if f.endswith(tuple(suffixes))]
    return out


_hdr = None


def header_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for top in (REPO + "/include", SRC, VERIF + "/harness"):
            for f in walk(top, (".hpp", ".h", ".inc", ".ipp")):
                h.update(f.encode())
                with open(f, "rb") as fh:
                    h.update(fh.read())
        _hdr = h.hexdigest()
    return _hdr


def obj_of(src, flags):
    with open(src, "rb") as fh:
        data = fh.read()
    key = hashlib.sha256(
        "\0".join([src, header_hash(), *flags]).encode() + data).hexdigest()[:24]
    return os.path.join(BUILD, "obj", os.path.basename(src) + "." + key + ".o")


def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(f"{what}: {' '.join(cmd)}\n{r.stdout[-4000:]}")


def compile_one(src, flags):
    fortran = src.endswith(FORTRAN_EXT)
    if fortran:
        flags = [f for f in flags if not f.startswith(("-std=", "-I", "-isystem", "-D", "-include"))
                 and not f.startswith("/usr/include/eigen3")]
        extra = ["-cpp"] if False else []
        comp = ["gfortran", *flags, *extra]
    else:
        comp = ["g++", "-std=c++14", *flags, *incs()]
    if "/hierarchies/H" in src and flags[0] == "-O1" and not any("sanitize" in f for f in flags):
        # straight-line expressions: optimisation costs far more compile than run time
        comp.append("-O0")
    o = obj_of(src, comp)
    if os.path.exists(o):
        return o
    os.makedirs(os.path.dirname(o), exist_ok=True)
    tmp = f"{o}.{os.getpid()}.tmp"
    if fortran:
        moddir = tmp + ".mod"
        os.makedirs(moddir, exist_ok=True)
        cmd = [*comp, "-J", moddir, "-c", src, "-o", tmp]
    else:
        cmd = [*comp, "-c", src, "-o", tmp]
    run(cmd, "compile")
    os.replace(tmp, o)
    return o


# the files that take longest go first
SLOW = ("H6g2.cpp", "H6bq2g2.cpp", "MSSM_spectrum.cpp", "H6.cpp", "HierarchyCalculator.cpp",
        "H6b2qg2.cpp", "H6bq22g.cpp", "H6b.cpp", "H5g1.cpp", "MSSM_mass_eigenstates.cpp",
        "Himalaya_interface.cpp", "ThresholdCalculator.cpp", "H5.cpp")


def build(name, harness, sources=None, variant="plain", extra=(), link=(), jobs=None, hflags=()):
    """compiles `harness` (list of files in /verif/harness) and `sources`; returns binary path"""
    flags = VARIANTS[variant] + list(extra)
    if sources is None:
        sources = library_sources()
    files = [os.path.join(VERIF, "harness", h) for h in harness] + list(sources)
    files.sort(key=lambda f: next((i for i, s in enumerate(SLOW) if f.endswith("/" + s)),
                                  len(SLOW) - (1 if "/harness/" in f else 0)))
    jobs = jobs or os.cpu_count() or 4
    with cf.ThreadPoolExecutor(jobs) as ex:
        objs = list(ex.map(lambda f: compile_one(f, flags + (list(hflags) if f.startswith(VERIF) else [])), files))
    h = hashlib.sha256("\0".join(objs + list(link) + flags).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, f"{name}.{variant}.{h}")
    if not os.path.exists(exe):
        tmp = f"{exe}.{os.getpid()}.tmp"
        run(["g++", *[f for f in flags if f.startswith(("-fsanitize", "-fno-sanitize", "-O", "-g"))],
             *objs, "-o", tmp, *link, "-lgfortran", "-lquadmath", "-lpthread", "-lm"], "link")
        os.replace(tmp, exe)
    return exe


def build_drv(harness=("drv.cpp",), name="drv", hflags=(), **kw):
    """recorder with access to the private truncation flags if they are still called that way"""
    try:
        return build(name, list(harness), hflags=["-DHAVE_DEPTH", *hflags], **kw), True
    except BuildError:
        return build(name, list(harness), hflags=list(hflags), **kw), False


if __name__ == "__main__":
    import time
    t = time.time()
    srcs = library_sources()
    v = sys.argv[1]
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda f: compile_one(f, VARIANTS[v]), sorted(srcs, key=lambda f: next((i for i, s in enumerate(SLOW) if f.endswith("/" + s)), 99))))
    print(v, time.time() - t)
