"""Prepares the library under test: a scratch copy of /repo's current working
tree whose native extensions correspond to its current sources.

Products already built in /repo are reused only when the hash of their sources
equals the one recorded by the build; everything else is compiled in the copy.
Nothing is written in /repo.
"""
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
DIRS = ("dataset", "scoring", "analysis")
SRC_EXT = (".pyx", ".pxd", ".pxi", ".c", ".cpp", ".h", ".hpp")


class SutError(Exception):
    pass


def env(sut=None, **extra):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
             LC_ALL="C.UTF-8", PIP_NO_INDEX="1", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
    e.pop("PYTHONSTARTUP", None)
    if sut:
        e["PYTHONPATH"] = sut
        e["VERIF_SUT"] = sut
    e.update(extra)
    return e


def source_stamp(root, d):
    """Same digest as the one the build script records per directory."""
    files = []
    base = os.path.join(root, "rankeval", d)
    for n in os.listdir(base):
        if n.endswith(SRC_EXT) and os.path.isfile(os.path.join(base, n)):
            files.append("rankeval/%s/%s" % (d, n))
    out = []
    for f in ["setup.py"] + sorted(files):
        stem, ext = os.path.splitext(f)
        if ext in (".c", ".cpp") and os.path.exists(os.path.join(root, stem + ".pyx")):
            continue                                  # generated by Cython
        with open(os.path.join(root, f), "rb") as fh:
            out.append("%s  %s\n" % (hashlib.sha256(fh.read()).hexdigest(), f))
    return hashlib.sha256("".join(out).encode()).hexdigest() + "  -"


def valid_dirs():
    ok = []
    for d in DIRS:
        try:
            with open(os.path.join(REPO, "build", "stamps", d)) as fh:
                recorded = fh.read().strip()
        except OSError:
            continue
        n_so = len([n for n in os.listdir(os.path.join(REPO, "rankeval", d))
                    if n.endswith(".so")])
        if recorded == source_stamp(REPO, d) and n_so == (2 if d == "analysis" else 1):
            ok.append(d)
    return ok


def prepare(scratch, needs=DIRS, log=None):
    """Copies the tree in scratch/sut and builds what is missing."""
    sut = os.path.join(scratch, "sut")
    os.makedirs(sut)
    valid = valid_dirs()

    def ignore(path, names):
        rel = os.path.relpath(path, os.path.join(REPO, "rankeval"))
        skip = {"__pycache__", "test"} & set(names)
        for n in names:
            if rel in DIRS:
                stem, ext = os.path.splitext(n)
                if ext == ".so" and rel not in valid:
                    skip.add(n)
                if ext in (".c", ".cpp") and stem + ".pyx" in names:
                    skip.add(n)
        return skip
    shutil.copytree(os.path.join(REPO, "rankeval"), os.path.join(sut, "rankeval"), ignore=ignore)
    for n in ("setup.py", "README.md", "MANIFEST.in"):
        if os.path.exists(os.path.join(REPO, n)):
            shutil.copy2(os.path.join(REPO, n), os.path.join(sut, n))
    stale = [d for d in needs if d not in valid]
    if stale:
        build(sut, stale, log)
    return sut, stale


EXTS = {"dataset": ["rankeval.dataset._svmlight_format"],
        "scoring": ["rankeval.scoring._efficient_scoring"],
        "analysis": ["rankeval.analysis._efficient_topological",
                     "rankeval.analysis._efficient_feature"]}

# runs setup.py with the list of extensions restricted to the stale directories
_DRIVER = r"""
import sys, setuptools
keep = sys.argv[1].split(',')
real = setuptools.setup
def setup(**kw):
    kw['ext_modules'] = [e for e in kw['ext_modules'] if e.name.split('.')[1] in keep]
    kw.pop('setup_requires', None)
    return real(**kw)
setuptools.setup = setup
sys.argv = ['setup.py', '-q', 'build_ext', '--inplace', '-j4']
exec(compile(open('setup.py').read(), 'setup.py', 'exec'), {'__name__': '__main__', '__file__': 'setup.py'})
"""


def build(sut, dirs, log=None):
    p = subprocess.run([PY, "-c", _DRIVER, ",".join(dirs)], cwd=sut, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if log:
        with open(log, "a") as fh:
            fh.write(p.stdout)
    for d in dirs:
        for m in EXTS[d]:
            stem = m.split(".")[-1]
            if not [n for n in os.listdir(os.path.join(sut, "rankeval", d))
                    if n.startswith(stem + ".") and n.endswith(".so")]:
                raise SutError("building %s failed:\n%s" % (m, p.stdout[-3000:]))
    shutil.rmtree(os.path.join(sut, "build"), ignore_errors=True)


def asan_runtime():
    """Shared runtimes to preload for extensions built with the sanitizers."""
    libs = []
    for n in ("libasan.so", "libstdc++.so.6"):
        p = subprocess.run(["gcc", "-print-file-name=" + n], stdout=subprocess.PIPE, text=True).stdout.strip()
        if os.path.isabs(p):
            libs.append(os.path.realpath(p))
    return ":".join(libs)


def build_asan(sut, module):
    """Rebuilds one C++ extension of the copy with ASan/UBSan, in a sibling
    copy of the package; returns its path."""
    dst = sut + "-asan"
    shutil.copytree(sut, dst)
    import sysconfig
    inc = subprocess.run([PY, "-c", "import numpy, sysconfig; print(numpy.get_include()); "
                          "print(sysconfig.get_paths()['include'])"],
                         stdout=subprocess.PIPE, text=True).stdout.split()
    d, stem = module.split(".")[1], module.split(".")[-1]
    base = os.path.join(dst, "rankeval", d)
    so = [n for n in os.listdir(base) if n.startswith(stem + ".") and n.endswith(".so")][0]
    if os.path.exists(os.path.join(base, stem + ".pyx")):
        subprocess.check_call([PY, "-m", "cython", "-3", "--cplus", stem + ".pyx", "-o", stem + ".cpp"],
                              cwd=base, env=env())
    srcs = [stem + ".cpp"]
    if os.path.exists(os.path.join(base, stem + "_impl.cpp")):
        srcs.append(stem + "_impl.cpp")
    cmd = ["g++", "-shared", "-fPIC", "-g", "-O1", "-w", "-std=c++11", "-fopenmp",
           "-fsanitize=address", "-fno-omit-frame-pointer", "-I."] + ["-I" + i for i in inc] + \
        srcs + ["-o", so]
    p = subprocess.run(cmd, cwd=base, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise SutError("sanitized build of %s failed:\n%s" % (module, p.stdout[-3000:]))
    return dst
