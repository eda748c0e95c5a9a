"""Is the instrumentation awake? Small programs with a planted race or overflow, built with the flags
of the variant and run in its environment, must be reported, their correct twins must not."""
import fcntl
import pathlib
import subprocess

from . import native, tsan

SRC = pathlib.Path(__file__).with_name("selftest.f90")
CALL = """
import ctypes, sys
lib = ctypes.CDLL({so!r})
t = ctypes.c_int(0)
omp = ctypes.CDLL("libgomp.so.1")
omp.omp_set_num_threads(4)
lib.{call}
"""
EXPECT = {  # variant -> (call, must be reported)
    "tsan": [("racing(4000, ctypes.byref(t))", True), ("reducing(4000, ctypes.byref(t))", False)],
    "asan": [("touching(10, 11, ctypes.byref(t))", True), ("touching(10, 10, ctypes.byref(t))", False)],
    "bounds": [("touching(10, 11, ctypes.byref(t))", True), ("touching(10, 10, ctypes.byref(t))", False)],
}


def _build(variant):
    native.BUILD.mkdir(parents=True, exist_ok=True)
    so = native.BUILD / f"libselftest-{variant}.so"
    with open(native.BUILD / f"selftest-{variant}.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        newest = max(SRC.stat().st_mtime, pathlib.Path(native.__file__).stat().st_mtime)
        if not so.exists() or so.stat().st_mtime < newest:
            cmd = ["gfortran", "-shared", "-fPIC", "-o", str(so), str(SRC)] \
                + native.VARIANTS[variant]["f"].split() + native.VARIANTS[variant]["ld"].split()
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=native.BUILD)
            if r.returncode:
                raise native.BuildError(r.stderr)
    return so


def run(variant, env_of, scratch):
    """-> (events, error or None)"""
    events = {}
    so = _build(variant)
    for i, (call, bad) in enumerate(EXPECT.get(variant, [])):
        for again in range(4):              # a race may hide once, by chance
            d = scratch / f"self-{variant}-{i}-{again}"
            d.mkdir()
            env = env_of(variant, d)
            r = subprocess.run([native.PY, "-c", CALL.format(so=str(so), call=call)], env=env, cwd=d,
                               capture_output=True, text=True, errors="replace", timeout=120)
            if variant == "tsan":
                seen = bool(tsan.parse_reports(d)["races"])
            else:
                seen = r.returncode != 0
            if seen or not bad:
                break
        events[f"selftest:{variant}:{'planted_error_seen' if bad else 'correct_twin_quiet'}"] = int(seen == bad)
        if seen != bad:
            return events, (f"the instrumentation {variant} {'overlooked' if bad else 'wrongly reported'} "
                            f"{call} (rc={r.returncode})\n{r.stderr[-1500:]}")
    return events, None
