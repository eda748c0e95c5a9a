"""Run one property's check: build, spread the cases over worker processes,
collect the records, write the evidence, print the verdict."""
import argparse
import collections
import importlib
import json
import os
import pathlib
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import native, selftest

VERIF = native.VERIF
PY = native.PY
HANG, HUNG = 240, "hung"      # seconds without a finished case; they take seconds at most


class W:
    """A workload: function, number of cases per tier, build variant, extra
    environment, cases per worker chunk."""
    def __init__(self, func, quick, thorough, variant="plain", env=None,
                 threads=1, chunk=None, workers=None):
        self.func, self.quick, self.thorough = func, quick, thorough
        if variant == "plain" and workers is None and quick >= 20:
            self.quick, self.thorough = 5 * quick, 5 * thorough      # milliseconds each
        self.variant, self.env = variant, env or {}
        self.threads, self.chunk, self.workers = threads, chunk, workers


def base_env(scratch):
    env = {k: v for k, v in os.environ.items()
           if k in ("HOME", "TMPDIR", "LANG", "VERIF_REPO", "VERIF_COV")}
    env.update(
        HOME=env.get("HOME", "/root"), LC_ALL="C.UTF-8",
        PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
        MPLCONFIGDIR=str(scratch / "mpl"), OPENBLAS_NUM_THREADS="1",
        OMP_STACKSIZE="64M", OMP_NUM_THREADS="1",
        OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
        OMPI_MCA_btl="self", OMPI_MCA_pml="ob1",
        VERIF_SCRATCH=str(scratch))
    return env


def variant_env(variant, scratch):
    def lib(name):
        return subprocess.run(["gcc", f"-print-file-name={name}"],
                              capture_output=True, text=True).stdout.strip()
    if variant == "asan":
        return {"LD_PRELOAD": lib("libasan.so") + ":" + lib("libubsan.so"),
                "ASAN_OPTIONS": "detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=255:halt_on_error=1:abort_on_error=1:"
                                "allocator_may_return_null=1:"
                                f"log_path={scratch}/asan",
                "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:print_stacktrace=1:"
                                 f"log_path={scratch}/asan",
                "PYTHONMALLOC": "malloc"}
    if variant == "tsan":
        return {"LD_PRELOAD": lib("libtsan.so") + ":" + str(native.BUILD / "libgompshim.so"),
                "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:report_signal_unsafe=0:"
                                f"log_path={scratch}/tsan"}
    if variant == "shim":
        return {"LD_PRELOAD": str(native.BUILD / "libgompshim.so")}
    return {}


def run(pid, module, tier, seed, replay=None):
    t0 = time.time()
    sys.path.insert(0, str(VERIF))
    mod = importlib.import_module("checks." + module)
    scratch = pathlib.Path(tempfile.mkdtemp(prefix=f"verif-{pid}-"))
    (scratch / "mpl").mkdir()
    try:
        return _run(pid, module, mod, tier, seed, replay, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _spawn(jobfile, env):
    return subprocess.Popen([PY, str(VERIF / "vlib" / "worker.py"), str(jobfile)],
                            env=env, stdin=subprocess.DEVNULL,
                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                            start_new_session=True)


def _run(pid, module, mod, tier, seed, replay, scratch, t0):
    ncpu = int(os.environ.get("VERIF_NCPU") or min(8, os.cpu_count() or 1))
    scale = float(os.environ.get("VERIF_SCALE") or 1)          # tools/mutate.py
    wl = mod.WORKLOADS
    if replay:
        r = json.load(open(replay))
        if r["workload"] in wl:
            plan = {r["workload"]: [r["index"]]}
        else:                           # a race report: belongs to no single case
            plan = {n: list(range(w.quick)) for n, w in wl.items() if w.variant == "tsan"}
        seed = r["seed"]
    else:
        plan = {}
        for name, w in wl.items():
            n = w.quick if tier == "quick" else w.thorough
            plan[name] = list(range(max(1, int(n * scale))))
    variants = sorted({wl[n].variant for n in plan if plan[n]})
    insts = {}
    try:
        for v in variants:
            if v == "tsan":
                from . import tsan
                insts[v] = tsan.build()
            elif v == "shim":
                from . import tsan
                tsan.build_shim()
                insts[v] = native.build("plain")
            else:
                insts[v] = native.build(v)
    except native.BuildError as e:
        print(f"{pid}: ERROR the native code does not build\n{e}")
        return 2

    awake = collections.Counter()
    for v in variants:
        def env_of(variant, d):
            return {**base_env(d), **variant_env(variant, d)}
        ev, err = selftest.run(v, env_of, scratch) if v in selftest.EXPECT else ({}, None)
        awake.update(ev)
        if err:
            print(f"{pid}: ERROR {err}")
            return 2

    # group the workloads that can share a worker process
    groups = collections.OrderedDict()
    for name, idx in plan.items():
        w = wl[name]
        key = (w.variant, tuple(sorted(w.env.items())), w.threads, w.workers, w.chunk)
        groups.setdefault(key, []).extend((name, i) for i in idx)

    deadline = t0 + (600 if tier == "quick" else 6 * 3600)
    records, crashes, errors, stalled = [], [], [], 0
    jobno = 0
    for (variant, wenv, threads, workers, chunk), cases in groups.items():
        if not cases:
            continue
        nw = workers or max(1, ncpu // threads)
        # interleave so that every worker gets a mixture; chunks bound the loss
        # when a worker dies
        chunk = chunk or max(1, min(200, -(-len(cases) // nw)))
        nchunks = -(-len(cases) // chunk)
        chunks = [cases[i::nchunks] for i in range(nchunks)]
        env = base_env(scratch)
        env["OMP_NUM_THREADS"] = str(threads)
        env.update(variant_env(variant, scratch))
        env.update(dict(wenv))
        pending = collections.deque(chunks)
        running = []
        while pending or running:
            while pending and len(running) < nw:
                c = pending.popleft()
                jobno += 1
                cwd = scratch / f"cwd{jobno}"
                cwd.mkdir()
                job = dict(module=module, inst=str(insts[variant]), seed=seed,
                           cases=c, cwd=str(cwd), max_viol=3,
                           out=str(scratch / f"out{jobno}.jsonl"),
                           log=str(scratch / f"log{jobno}.txt"))
                jf = scratch / f"job{jobno}.json"
                jf.write_text(json.dumps(job))
                open(job["out"], "w").close()
                running.append((_spawn(jf, env), job, variant))
            time.sleep(0.02)
            still = []
            for p, job, v in running:
                rc = p.poll()
                size = os.path.getsize(job["out"])
                if size != job.get("size"):
                    job["size"], job["moved"] = size, time.time()
                if rc is None and time.time() - job["moved"] > HANG:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    rc = HUNG
                if rc is None:
                    if time.time() > deadline:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        stalled += 1
                        _collect(job, records)
                    else:
                        still.append((p, job, v))
                    continue
                done, last = _collect(job, records)
                if not done:
                    log = pathlib.Path(job["log"]).read_text(errors="replace")[-3000:]
                    for f in sorted(scratch.glob("asan.*")):
                        log = f.read_text(errors="replace")[:6000] + "\n" + log
                        f.unlink()
                    if last is None:
                        errors.append(f"worker could not start (rc={rc}):\n{log}")
                    else:
                        crashes.append((last, rc, log))
                        # carry on with the cases after the one that died
                        rest = job["cases"]
                        k = [list(x) for x in rest].index(list(last))
                        if rest[k+1:] and len(crashes) < 4:
                            pending.append(rest[k+1:])
                shutil.rmtree(job["cwd"], ignore_errors=True)
            running = still
            if time.time() > deadline:
                stalled += len(pending)
                pending.clear()

    if "tsan" in variants:
        from . import tsan
        extra = tsan.parse_reports(scratch)
    else:
        extra = None

    # ---------------------------------------------------------------- verdict
    viols = []
    for r in records:
        for v in r["viol"]:
            viols.append((r["workload"], r["index"], v["msg"], v["mech"]))
        if "harness_error" in r:
            errors.append(f"{r['workload']}#{r['index']}: {r['harness_error']}")
    for (wname, index), rc, log in crashes:
        if rc == HUNG:
            viols.append((wname, index, f"a legal call did not return within {HANG} s\n{log}",
                          "did-not-return"))
        elif rc == -signal.SIGKILL:
            errors.append(f"{wname}#{index}: worker was killed (memory?)")
        else:
            viols.append((wname, index, f"the process died (rc={rc}) while running "
                          f"legal calls\n{log}", "process-died"))
    if extra:
        for sig, text in extra["races"]:
            viols.append(("<tsan>", 0, text, sig))

    known = _known(pid)
    new, seen_known = [], collections.OrderedDict()
    for v in viols:
        k = [e for e in known if e["mechanism"] == v[3]]
        if k and v[3] is not None:
            seen_known[k[0]["mechanism"]] = k[0]["what"]
        else:
            new.append(v)

    events = collections.Counter(awake)
    for r in records:
        events.update(r["events"])
    if extra:
        events.update(extra["events"])
    distinct = {(r["workload"], r["fp"]) for r in records if r["nontrivial"]}
    missing = [e for e in getattr(mod, "REQUIRED", []) if not events.get(e)]
    per = collections.Counter(r["workload"] for r in records)
    samples = []
    seenw = collections.Counter()
    for r in sorted(records, key=lambda r: (r["workload"], r["index"])):
        if r["nontrivial"] and seenw[r["workload"]] < 2:
            seenw[r["workload"]] += 1
            samples.append({"workload": r["workload"], "index": r["index"],
                            "case": r["desc"][:6], "events": r["events"]})
    if not replay:
        ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
                  coverage=dict(evaluations=len(records),
                                distinct_nontrivial=len(distinct),
                                rule=mod.RULE, samples=samples,
                                events_observed=dict(sorted(events.items())),
                                cases_per_workload=dict(per),
                                builds=variants, exhaustive=False,
                                stalled_workers=stalled,
                                harness_errors=len(errors)),
                  assumptions=getattr(mod, "ASSUMPTIONS", []),
                  wall_s=round(time.time() - t0, 2), violations=len(new))
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{pid}.json").write_text(
            json.dumps(ev, indent=1, default=str) + "\n")

    for mech, what in seen_known.items():
        print(f"KNOWN-FINDING: property={pid} {what}")
    summary = (f"{pid} [{tier}, seed {seed}]: {len(records)} cases, "
               f"{len(distinct)} distinct non-trivial, "
               f"{sum(events.values())} events in {time.time()-t0:.1f}s")
    if new:
        (VERIF / "replays").mkdir(exist_ok=True)
        first = {v[0]: k for k, v in reversed(list(enumerate(new)))}     # one of each workload first
        new = [new[k] for k in first.values()] + [v for k, v in enumerate(new)
                                                  if k not in first.values()]
        for n, (wname, index, msg, mech) in enumerate(new[:5]):
            path = VERIF / "replays" / f"{pid}-{seed}-{wname.strip('<>')}-{index}.json"
            path.write_text(json.dumps(dict(
                property=pid, module=module, workload=wname, index=index,
                seed=seed, message=msg, mechanism=mech,
                how=f"cd /verif && {PY} check.py {pid} --replay {path}"),
                indent=1) + "\n")
            print(f"-- {wname}#{index}: {msg}")
            print(f"VIOLATION property={pid} replay={path}")
        print(summary)
        return 1
    if errors:
        print(f"{pid}: ERROR {errors[0]}")
        return 2
    if replay:
        print(summary, "(replay: no violation)")
        return 0
    total = sum(len(x) for x in plan.values())
    if stalled and len(records) < 0.5 * total:
        print(f"{pid}: INCONCLUSIVE only {len(records)} of {total} cases ran before "
              "the watchdog")
        return 3
    if missing and scale >= 1:
        print(f"{pid}: INCONCLUSIVE never observed: {missing}")
        return 3
    print(summary + ": held on everything observed")
    return 0


def _collect(job, records):
    done, last = False, None
    with open(job["out"]) as f:
        for line in f:
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if "start" in r:
                last = r["start"]
            elif "done" in r:
                done = True
            else:
                records.append(r)
                last = [r["workload"], r["index"]]
    return done, last


def _known(pid):
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    return [e for e in json.loads(f.read_text())["findings"]
            if e["property"] == pid and e["status"] == "open"]


def main(table):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"],
                    default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.exit(run(a.property, table[a.property], a.tier, a.seed, a.replay))
