"""Building blocks of the checks that run the triangulators."""
import glob, os, shutil, subprocess, sys, tempfile
import vcommon
from vcommon import REPO, VERIF, BUILD, HARN, CheckError, log

TDS = os.path.join(BUILD, "tds")
LIB = ["Geometry", "Partitioner", "Triangulator", "CGALTriangulator"]
UTIL = ["Predicates", "Logger", "ccolor", "Timings", "VTuneAdapter"]
LIBS = ("-ltbb", "-ltbbmalloc", "-lboost_serialization", "-lgmp", "-lmpfr")


def java():
    """the exact arithmetic operators for TLC"""
    src = sorted(glob.glob(os.path.join(HARN, "java", "*.java")))
    out = os.path.join(BUILD, "java")
    cls = [os.path.join(out, os.path.basename(f)[:-5] + ".class") for f in src]
    if all(os.path.exists(k) and os.path.getmtime(k) > max(os.path.getmtime(f) for f in src) for k in cls):
        return
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(["javac", "-cp", "/opt/veriftools/tla/tla2tools.jar", "-d", out] + src, capture_output=True, text=True)
    if r.returncode:
        raise CheckError("javac: " + r.stderr)


def stand_ins():
    """headers for the repository's modified copies of CGAL headers, made from the installed CGAL"""
    r = subprocess.run([sys.executable, os.path.join(VERIF, "tools", "mktds.py"), TDS], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("mktds: " + r.stdout + r.stderr)


def staged():
    """the headers of the load-balanced triangulator, away from the repository's copy of tbb::parallel_do (they
    include it relative to their own place, and it needs an older TBB)"""
    out = os.path.join(BUILD, "lbsrc-" + vcommon.tree_hash()[:16])
    if not os.path.isdir(out):
        tmp = tempfile.mkdtemp(dir=BUILD)
        for f in glob.glob(os.path.join(REPO, "include", "LoadBalancedDCTriangulator.*")):
            shutil.copy(f, tmp)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def build(c, name, driver, extra=(), flags=(), libs=(), opt="-O1", dc=True, last=False, lb=False):
    """a driver with the repository's sources; the base-case threshold becomes a variable of the driver"""
    stand_ins()
    fl = ("-DNDEBUG",) + tuple(flags)
    first = ("-I" + os.path.join(HARN, "tria"), "-I" + TDS)
    if lb:
        first = ("-I" + staged(), "-I" + os.path.join(HARN, "shim", "lb"), "-I/usr/include/eigen3") + first
    pre = ("-include", os.path.join(HARN, "tria", "cutoff.h"))
    def attempt(fixed):
        x = pre + (("-DVERIF_FIXED_CUTOFF",) if fixed else ())
        src = [(driver, x)] + [(s, x) for s in extra]
        src += [(REPO + "/src/lib/%s.cpp" % f, ()) for f in LIB]
        if dc:
            src += [(REPO + "/src/lib/DCTriangulator.cpp", x)]
        src += [(REPO + "/src/utils/%s.cpp" % f, ()) for f in UTIL] + [(REPO + "/src/utils/StringUtils.cxx", ("-x", "c++"))]
        if last:
            src = src[1:] + src[:1]
        return c.build(name, src, flags=fl, first=first, libs=LIBS + tuple(libs), opt=opt)
    try:
        return attempt(False)
    except CheckError as e:
        if not dc:
            raise
        log("[build] %s: threshold cannot be replaced (%s), using the built-in one" % (name, str(e)[:200]))
        c.extra["built_in_threshold"] = True
        return attempt(True)
