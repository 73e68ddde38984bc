"""Build the library under test from /repo's *current working tree*.

Nothing is taken from /repo/_build: sources are compiled with our own flags into
/verif/build/<content hash>/ (git-ignored).  The list of library sources is read from
src/Makefile.am so that a file added or split by a refactoring is still picked up.
"""
import hashlib, os, re, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILDROOT = os.path.join(VERIF, "build")
NPROC = os.cpu_count() or 4

class BuildError(Exception):
    pass

def _read(p):
    with open(p, "rb") as f:
        return f.read()

def _am_sources(var):
    txt = _read(f"{REPO}/src/Makefile.am").decode("latin-1")
    txt = txt.replace("\\\n", " ")
    m = re.search(r"^%s\s*=\s*(.*)$" % re.escape(var), txt, re.M)
    if not m:
        raise BuildError(f"no {var} in src/Makefile.am")
    return [w for w in m.group(1).split() if w.endswith(".c")]

def lib_sources():
    srcs = list(dict.fromkeys(_am_sources("libplCurveStatic_la_SOURCES") + _am_sources("libplCurve_la_SOURCES")))
    out = []
    for s in srcs:
        if s == "kascentpermutation.c" and not os.path.exists(f"{REPO}/src/naptable.h"):
            continue            # its generated table is not in the repository (see DESIGN.md)
        out.append(s)
    return out

def npl_sources():
    return _am_sources("libnplCurve_la_SOURCES")

def _tree_hash(dirs, extra):
    h = hashlib.sha256()
    h.update(repr(extra).encode())
    for d in dirs:
        for root, dn, fn in os.walk(d):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".c", ".h", ".am", ".cpp", ".hpp")):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(_read(p))
    return h.hexdigest()[:20]

def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode("latin-1")[-4000:]))
    return r.stdout

def _parallel(cmds):
    with ThreadPoolExecutor(NPROC) as ex:
        for f in [ex.submit(_run, c) for c in cmds]:
            f.result()

SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]

def judy(outdir):
    """JudyL + JudySL + JudyHS + Judy1 exactly as judy/src/*/Makefile.am builds them."""
    lib = f"{outdir}/libjudy.a"
    if os.path.exists(lib):
        return lib
    J = f"{REPO}/judy/src"
    C = f"{J}/JudyCommon"
    tmp = f"{outdir}/judy"
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    inc = [f"-I{C}", f"-I{J}", f"-I{J}/JudyL", f"-I{J}/Judy1"]
    base = ["gcc", "-w", "-g", "-DJU_64BIT"] + inc
    cmds = []; objs = []
    def add(src, obj, flags):
        objs.append(f"{tmp}/{obj}.o")
        cmds.append(base + flags + ["-c", src, "-o", f"{tmp}/{obj}.o"])
    for kind, d in (("L", "-DJUDYL"), ("1", "-DJUDY1")):
        _run(base + [d, "-o", f"{tmp}/gen{kind}", f"{C}/JudyTables.c"])
        _run([f"{tmp}/gen{kind}"], cwd=tmp)
        add(f"{tmp}/Judy{kind}Tables.c", f"Judy{kind}Tables", [d])
        common = ["Cascade", "Count", "CreateBranch", "Decascade", "First", "FreeArray",
                  "InsertBranch", "MallocIF", "MemActive", "MemUsed"]
        for n in common:
            add(f"{C}/Judy{n}.c", f"Judy{kind}{n}", [d])
        for n in ("Del", "Get", "InsArray", "Ins"):
            add(f"{C}/Judy{n}.c", f"Judy{kind}{n}", [d])
        add(f"{C}/JudyPrevNext.c", f"Judy{kind}Next", [d, "-DJUDYNEXT"])
        add(f"{C}/JudyPrevNextEmpty.c", f"Judy{kind}NextEmpty", [d, "-DJUDYNEXT"])
        add(f"{C}/JudyPrevNext.c", f"Judy{kind}Prev", [d, "-DJUDYPREV"])
        add(f"{C}/JudyPrevNextEmpty.c", f"Judy{kind}PrevEmpty", [d, "-DJUDYPREV"])
        add(f"{C}/JudyByCount.c", f"Judy{kind}ByCount", [d, "-DNOSMARTJBB", "-DNOSMARTJBU", "-DNOSMARTJLB"])
        add(f"{C}/JudyGet.c", f"j__udy{kind}Get", [d, "-DJUDYGETINLINE"])
    add(f"{C}/JudyMalloc.c", "JudyMalloc", [])
    add(f"{J}/JudySL/JudySL.c", "JudySL", [])
    add(f"{J}/JudyHS/JudyHS.c", "JudyHS", [])
    _parallel(cmds)
    _run(["ar", "rcs", lib] + objs)
    return lib

def library(asan=True, opt="-O1"):
    """Returns (outdir, cflags, link args) for the plCurve library."""
    tag = _tree_hash([f"{REPO}/src", f"{REPO}/judy/src"], (asan, opt, _read(f"{VERIF}/support/config.h")))
    outdir = f"{BUILDROOT}/{tag}"
    os.makedirs(outdir, exist_ok=True)
    san = SAN if asan else []
    cflags = [opt, "-g", "-w", "-fcommon", "-ffunction-sections", "-DHAVE_CONFIG_H=1", f"-I{outdir}/inc",
              f"-I{REPO}/src", f"-I{REPO}/judy/src"] + san
    done = f"{outdir}/done"
    lib = f"{outdir}/libplc.a"
    if not os.path.exists(done):
        shutil.rmtree(f"{outdir}/obj", ignore_errors=True)
        os.makedirs(f"{outdir}/obj"); os.makedirs(f"{outdir}/inc", exist_ok=True)
        shutil.copy(f"{VERIF}/support/config.h", f"{outdir}/inc/config.h")
        cmds, objs = [], []
        for s in sorted(lib_sources(), key=lambda s: -os.path.getsize(f"{REPO}/src/{s}")):
            o = f"{outdir}/obj/{s[:-2]}.o"
            objs.append(o)
            cmds.append(["gcc"] + cflags + ["-c", f"{REPO}/src/{s}", "-o", o])
        with ThreadPoolExecutor(2) as ex:
            fj = ex.submit(judy, outdir)
            _parallel(cmds)
            fj.result()
        if os.path.exists(lib): os.unlink(lib)
        _run(["ar", "rcs", lib] + objs)
        open(done, "w").write("ok")
    link = [lib, f"{outdir}/libjudy.a", "-lgsl", "-lgslcblas", "-lm", "-Wl,--gc-sections"] + san
    return outdir, cflags, link

def driver(name, extra_sources=(), asan=True, opt="-O1", extra_flags=()):
    """Compile /verif/driver/<name>.c against the current library; returns the executable."""
    outdir, cflags, link = library(asan, opt)
    exe = f"{outdir}/{name}"
    src = f"{VERIF}/driver/{name}.c"
    deps = [src] + glob.glob(f"{VERIF}/driver/*.h")
    stamp = hashlib.sha256(b"".join(_read(p) for p in sorted(deps)) + repr(extra_flags).encode()).hexdigest()
    sf = exe + ".stamp"
    if os.path.exists(exe) and os.path.exists(sf) and open(sf).read() == stamp:
        return exe
    _run(["gcc"] + cflags + ["-Werror=implicit-function-declaration", "-Werror=int-conversion"] + list(extra_flags) + ["-o", exe, src] + [f"{REPO}/{s}" for s in extra_sources] + link)
    open(sf, "w").write(stamp)
    return exe

if __name__ == "__main__":
    import time
    t = time.time(); print(library()[0], round(time.time() - t, 1))
