"""ThreadSanitizer build, the OpenMP shim and the reading of race reports."""
import ctypes
import fcntl
import pathlib
import re
import subprocess

import numpy as np

from . import native

SRC = pathlib.Path(__file__).with_name("gompshim.c")
SHIM = native.BUILD / "libgompshim.so"


def build_shim():
    native.BUILD.mkdir(parents=True, exist_ok=True)
    with open(native.BUILD / "shim.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not SHIM.exists() or SHIM.stat().st_mtime < SRC.stat().st_mtime:
            r = subprocess.run(["gcc", "-O1", "-g", "-shared", "-fPIC", "-o", str(SHIM),
                                str(SRC), "-ldl", "-lgomp"], capture_output=True, text=True)
            if r.returncode:
                raise native.BuildError(r.stderr)
    return SHIM


def build():
    build_shim()
    return native.build("tsan")


class Shim:
    """The loaded shim, from inside a worker."""
    def __init__(self):
        self.lib = ctypes.CDLL(str(SHIM))
        self.omp = ctypes.CDLL("libgomp.so.1")
        for f in ("forks", "multi", "orders"):
            getattr(self.lib, "vshim_" + f).restype = ctypes.c_ulong
        self.before = self._counts()

    def _counts(self):
        return np.array([self.lib.vshim_forks(), self.lib.vshim_multi(), self.lib.vshim_orders()])

    def delays(self, us, seed):
        self.lib.vshim_config(ctypes.c_uint(us), ctypes.c_uint64(seed))

    def threads(self, n):
        self.omp.omp_set_num_threads(ctypes.c_int(n))

    def report(self, obs):
        """Events since the last report."""
        now = self._counts()
        d = now - self.before
        self.before = now
        obs.ev("parallel_regions_entered", int(d[0]))
        obs.ev("parallel_regions_with_several_threads", int(d[1]))
        obs.ev("distinct_completion_orders", int(d[2]))

    def regions(self):
        buf = (ctypes.c_uint64 * 1024)()
        n = self.lib.vshim_regions(buf)
        return sorted(buf[i] for i in range(n))


def region_names(inst):
    """offset -> name of every outlined parallel region in the Fortran module."""
    so = next(pathlib.Path(inst).glob("tbplas/fortran/*.so"))
    out = subprocess.run(["nm", str(so)], capture_output=True, text=True).stdout
    names = {}
    for line in out.splitlines():
        p = line.split()
        if len(p) == 3 and "_omp_fn" in p[2]:
            names[int(p[0], 16)] = p[2]
    return names


def parse_reports(scratch):
    """Races in which the code of tbplas takes part."""
    races, events = {}, {"tsan_reports_read": 0}
    for f in sorted(pathlib.Path(scratch).glob("tsan.*")):
        text = f.read_text(errors="replace")
        for rep in re.split(r"={18,}\n", text):
            if "WARNING: ThreadSanitizer" not in rep:
                continue
            events["tsan_reports_read"] += 1
            frames = re.findall(r"#\d+ (\S+) (\S*)", rep)
            mine = [(fn, src.split("/")[-1]) for fn, src in frames
                    if "/tbplas/" in src or "tbplas" in fn or "_omp_fn" in fn]
            if not mine:
                continue
            kind = re.search(r"ThreadSanitizer: (.*?) \(pid", rep)
            sig = (kind.group(1) if kind else "report") + " in " + ", ".join(
                sorted({fn.split("._omp_fn")[0] for fn, _ in mine[:6]}))
            races.setdefault(sig, rep[:3000])
    return {"races": sorted(races.items()), "events": events}
