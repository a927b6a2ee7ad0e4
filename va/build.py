"""Compile /repo's current sources (plus analysis stand-ins for absent submodules) to bitcode."""
import os
import re
import shutil
import subprocess
import tempfile
import concurrent.futures as cf
from . import llvm

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
STUBS = os.path.join(HERE, "stubs")
SPEC = os.path.join(HERE, "spec")

DEFAULT = {"ENABLE_HDF5": "true", "ENABLE_PML": "true", "SWITCH_CCS_VB": "true", "SWITCH_MAXWELL_SOLVER_YEE": "true",
           "SWITCH_PLASMA_SPATIAL_FLAT": "true", "SWITCH_PLASMA_VELOCITY_THERMAL": "true", "SWITCH_PUSHER_BORIS_ADAPTIVE": "true",
           "REL_LIMIT": "5e7", "CXXFLAGS": '"-O2"', "PACKAGE_BUGREPORT": '"b"', "PACKAGE_DEPS": '"d"', "PACKAGE_NAME": '"PiCoPiC"',
           "PACKAGE_STRING": '"PiCoPiC"', "PACKAGE_TARNAME": '"picopic"', "PACKAGE_URL": '""', "PACKAGE_VERSION": '"v"'}


class AnalysisBroken(Exception):
    pass


def config(drop=(), **add):
    c = dict(DEFAULT)
    for d in drop:
        c.pop(d, None)
    for k, v in add.items():
        c[k] = v
    return c


def defines_text(cfg):
    """defines.hpp.in with the #undef lines of the chosen switches turned on"""
    path = os.path.join(REPO, "include/defines.hpp.in")
    cfg = dict(cfg)
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"\s*#\s*undef\s+(\w+)", line)
            if m and m.group(1) in cfg:
                out.append("#define %s %s\n" % (m.group(1), cfg.pop(m.group(1))))
            elif m:
                out.append("/* #undef %s */\n" % m.group(1))
            else:
                out.append(line)
    for k, v in cfg.items():
        out.append("#ifndef %s\n#define %s %s\n#endif\n" % (k, k, v))
    return "".join(out)


class Tree:
    """scratch copy of src/ and include/ with a generated defines.hpp"""

    def __init__(self, cfg):
        self.dir = tempfile.mkdtemp(prefix="va_")
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(self.dir, "src"))
        shutil.copytree(os.path.join(REPO, "include"), os.path.join(self.dir, "include"))
        d = os.path.join(self.dir, "include", "defines.hpp")
        if os.path.exists(d):
            os.remove(d)
        open(d, "w").write(defines_text(cfg))
        self.cfg = cfg

    def sources(self):
        out = []
        for root, _, fs in os.walk(os.path.join(self.dir, "src")):
            out += [os.path.join(root, f) for f in fs if f.endswith(".cpp")]
        return sorted(out)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


BASEFLAGS = ["-std=c++17", "-w", "-O1", "-funroll-loops", "-Xclang", "-disable-llvm-passes", "-Xclang", "-mno-constructor-aliases", "-g", "-fstandalone-debug", "-fno-access-control", "-ffp-contract=off", "-fno-threadsafe-statics"]


def clang(src, out, tree, omp=False, extra=()):
    cmd = ["clang++-18" if shutil.which("clang++-18") else "clang++"] + BASEFLAGS + (["-fopenmp"] if omp else []) + list(extra) + \
        ["-include", os.path.join(STUBS, "stlmodel.hpp"), "-I", os.path.join(tree.dir, "include"), "-I", STUBS, "-I", SPEC, "-emit-llvm", "-c", src, "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("does not compile: %s\n%s" % (src.replace(tree.dir + "/", ""), r.stderr[:3000].replace(tree.dir + "/", "")))
    return out


def compile_tree(tree, omp=False, specs=(), only=None, extra=()):
    srcs = [s for s in tree.sources() if only is None or any(re.search(o, s) for o in only)]
    jobs = []
    outs = []
    with cf.ThreadPoolExecutor(8) as ex:
        for i, s in enumerate(srcs + [os.path.join(SPEC, x) for x in specs]):
            o = os.path.join(tree.dir, "m%02d.bc" % i)
            outs.append(o)
            jobs.append(ex.submit(clang, s, o, tree, omp, extra))
        for j in jobs:
            j.result()
    return outs


def load(tree, **kw):
    return llvm.Module(compile_tree(tree, **kw))
