"""Build the native extensions of /repo's working tree in a private folder and
make the Python package of /repo import them.

The compiled modules that may lie in /repo/tbplas are never used: they need not
correspond to the sources in the working tree.
"""
import fcntl
import hashlib
import importlib.abc
import importlib.util
import os
import pathlib
import re
import shutil
import subprocess
import sys

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
VERIF = pathlib.Path(__file__).resolve().parent.parent
BUILD = VERIF / ".build"
PY = "/opt/venv/bin/python"
CYTHON = "/opt/venv/bin/cython"

BASE_F = "-cpp -fopenmp -fno-second-underscore"
VARIANTS = {
    # what a user gets
    "plain": dict(c="", f=BASE_F, ld="", type="Release", cy=[]),
    # every Cython subscript and every Fortran subscript, allocation and
    # pointer is checked
    "bounds": dict(c="-O1 -g -DCYTHON_WITHOUT_ASSERTIONS=0",
                   f=BASE_F + " -O1 -g -fcheck=bounds,mem,pointer,do,recursion"
                     " -fbacktrace -finit-real=snan -finit-integer=-77777777"
                     " -ffpe-summary=none",
                   ld="", type="None", cy=["bounds"]),
    # address + undefined behaviour sanitizers
    "asan": dict(c="-O1 -g -fsanitize=address,undefined -fno-omit-frame-pointer"
                   " -fno-sanitize=alignment,vptr",
                 f=BASE_F + " -O1 -g -fsanitize=address,undefined -fno-sanitize=signed-integer-overflow"
                            " -fno-omit-frame-pointer",
                 ld="-fsanitize=address,undefined", type="None", cy=[]),
    # thread sanitizer; OpenMP runtime replaced by vlib/gompshim.c
    "tsan": dict(c="-O1 -g -fsanitize=thread",
                 f=BASE_F + " -O1 -g -fsanitize=thread",
                 ld="-fsanitize=thread", type="None", cy=[]),
}


class BuildError(RuntimeError):
    pass


def _sources():
    files = [REPO / "CMakeLists.txt", REPO / "tbplas/__init__.py"]
    for d in ("fortran", "cython"):
        for p in sorted((REPO / "tbplas" / d).rglob("*")):
            if p.is_file() and p.suffix not in (".so", ".pyc"):
                files.append(p)
    return files


def source_hash(variant):
    h = hashlib.sha256()
    h.update(repr(sorted(VARIANTS[variant].items())).encode())
    h.update(pathlib.Path(__file__).read_bytes())
    for p in _sources():
        h.update(str(p.relative_to(REPO)).encode() + b"\0")
        h.update(p.read_bytes() + b"\0")
    return h.hexdigest()[:16]


def _instrument_cython(text):
    """Turn on the subscript checks which the source turns off."""
    text = re.sub(r"boundscheck\s*\(\s*False\s*\)", "boundscheck(True)", text)
    text = re.sub(r"(#\s*cython:.*boundscheck\s*=\s*)False", r"\1True", text)
    return text


def build(variant="plain", quiet=True):
    """Return the folder that holds tbplas/{fortran,cython}/*.so."""
    opt = VARIANTS[variant]
    key = source_hash(variant)
    top = BUILD / variant
    top.mkdir(parents=True, exist_ok=True)
    with open(BUILD / f"{variant}.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        inst = top / "inst"
        stamp = top / "stamp"
        if stamp.exists() and stamp.read_text() == key:
            return inst
        if stamp.exists():
            stamp.unlink()
        # A fresh build: a shared incremental folder could hand out a stale
        # object file when a source is put back with an old date.
        for d in ("src", "bld", "inst"):
            shutil.rmtree(top / d, ignore_errors=True)
        src, bld = top / "src", top / "bld"
        for p in _sources():
            q = src / p.relative_to(REPO)
            q.parent.mkdir(parents=True, exist_ok=True)
            data = p.read_bytes()
            if p.suffix == ".pyx" and "bounds" in opt["cy"]:
                data = _instrument_cython(data.decode()).encode()
            q.write_bytes(data)
        env = dict(os.environ, LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1",
                   PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:"
                        "/usr/bin:/sbin:/bin")
        for k in ("PYTHONPATH", "LD_PRELOAD"):
            env.pop(k, None)
        cmds = [
            ["cmake", "-S", str(src), "-B", str(bld), "-G", "Ninja",
             "--log-level=NOTICE", "-DSKBUILD_PROJECT_NAME=tbplas",
             f"-DCMAKE_BUILD_TYPE={opt['type']}",
             f"-DPython_EXECUTABLE={PY}", f"-DPYTHON_EXECUTABLE={PY}",
             f"-DCYTHON={CYTHON}", "-DUSE_INDEX64=OFF", "-DUSE_MKL=OFF",
             "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_Fortran_COMPILER=gfortran",
             f"-DCMAKE_C_FLAGS={opt['c']}",
             f"-DCMAKE_Fortran_FLAGS={opt['f']}",
             f"-DCMAKE_MODULE_LINKER_FLAGS={opt['ld']}",
             f"-DCMAKE_EXE_LINKER_FLAGS={opt['ld']}",
             f"-DCMAKE_SHARED_LINKER_FLAGS={opt['ld']}"],
            ["cmake", "--build", str(bld)],
            ["cmake", "--install", str(bld), "--prefix", str(inst)],
        ]
        for cmd in cmds:
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise BuildError(f"{' '.join(cmd[:3])} failed:\n{r.stdout[-4000:]}")
        shutil.rmtree(bld, ignore_errors=True)
        if variant in ("plain",):
            shutil.rmtree(src, ignore_errors=True)
        stamp.write_text(key)
        return inst


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, inst):
        self.table = {}
        for d in ("fortran", "cython"):
            for p in (inst / "tbplas" / d).glob("*.so"):
                self.table[f"tbplas.{d}.{p.name.split('.')[0]}"] = str(p)

    def find_spec(self, fullname, path=None, target=None):
        if fullname in self.table:
            return importlib.util.spec_from_file_location(
                fullname, self.table[fullname])
        # never fall back to a compiled module lying in the repository
        if fullname.startswith(("tbplas.fortran.", "tbplas.cython.")):
            raise ImportError(f"{fullname} was not built from the sources")
        return None


def install_import_hook(inst):
    sys.path[:] = [p for p in sys.path if p not in ("", str(VERIF))] + [str(VERIF)]
    sys.path.insert(0, str(REPO))
    sys.meta_path.insert(0, _Finder(pathlib.Path(inst)))
    import tbplas
    assert pathlib.Path(tbplas.__file__).parent == REPO / "tbplas", tbplas.__file__
    return tbplas
