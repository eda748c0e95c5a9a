"""python worker.py JOB.json : run cases in this process, append records to the
job's output file.  Killed or crashed workers leave a 'start' record behind."""
import importlib
import json
import os
import sys

def watch_lines(path):
    """Record which Python lines of the code under test run (tools/coverage.sh)."""
    mon, seen = sys.monitoring, set()
    mon.use_tool_id(3, "lines")

    def hit(code, line):
        if "/tbplas/" in code.co_filename:
            seen.add((code.co_filename.split("/tbplas/", 1)[1], line))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, hit)
    mon.set_events(3, mon.events.LINE)

    def save():
        with open(os.path.join(path, f"{os.getpid()}.txt"), "w") as f:
            f.writelines(f"{a}:{b}\n" for a, b in seen)
    return save


def main():
    save = watch_lines(os.environ["VERIF_COV"]) if os.environ.get("VERIF_COV") else None
    job = json.load(open(sys.argv[1]))
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from vlib import native
    out = open(job["out"], "a", buffering=1)
    # The code under test prints a lot.
    sys.stdout.flush()
    devnull = os.open(job["log"], os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    os.chdir(job["cwd"])
    if job["module"] == "c12_mpi":      # before tbplas is imported
        from vlib import fakempi
        fakempi.install()
    native.install_import_hook(job["inst"])
    from vlib.core import run_case
    mod = importlib.import_module("checks." + job["module"])
    nviol = 0
    for wname, index in job["cases"]:
        out.write(json.dumps({"start": [wname, index]}) + "\n")
        func = mod.WORKLOADS[wname].func
        rec = run_case(func, job["seed"], wname, index)
        out.write(json.dumps(rec) + "\n")
        nviol += len(rec["viol"])
        if nviol >= job["max_viol"]:
            break
    out.write(json.dumps({"done": True}) + "\n")
    out.close()
    if save:
        save()
    sys.stdout.flush()
    os._exit(0) if job.get("fast_exit", True) else sys.exit(0)

main()
