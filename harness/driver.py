"""Executes cases of one property against the real code and records events."""
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def main():
    pid, tier, seed, gen_file, events_file, cases_file = sys.argv[1:7]
    replay = sys.argv[7] if len(sys.argv) > 7 else None
    import numba, pandas, scipy.optimize, scipy.sparse.csgraph  # noqa

    # never any bytecode of /repo left by an earlier build
    sys.pycache_prefix = os.environ.get("VERIF_PYC", sys.pycache_prefix)
    import graphicle

    if not graphicle.__file__.startswith("/repo/"):
        print("graphicle is not imported from /repo", file=sys.stderr)
        return 3
    import graphicle.select, graphicle.transform, graphicle.matrix  # noqa

    warnings.simplefilter("ignore")
    mod = importlib.import_module(f"harness.props.{pid.lower()}")
    while not os.path.exists(gen_file):
        time.sleep(0.05)
        if os.getppid() == 1:
            return 3
    with open(gen_file) as f:
        generated = json.load(f)
    signal.signal(signal.SIGALRM, _alarm)
    limit = getattr(mod, "CASE_LIMIT_S", 30)
    rng = random.Random(f"{seed}-{pid}")
    if replay:
        cases = [json.load(open(replay))["case"]]
    else:
        cases = mod.cases(rng, tier, generated)
    shards = 1 if replay else max(1, min(getattr(mod, "SHARDS", 6), os.cpu_count() or 1))
    open(events_file + ".started", "w").close()
    sys.stdout.flush()
    sys.stderr.flush()
    pids = {}
    for i in range(shards):
        pid_ = os.fork()
        if pid_ == 0:
            code = 3
            try:
                code = shard(mod, cases, i, shards, limit, f"{events_file}.{i}", f"{cases_file}.{i}")
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        pids[pid_] = i
    worst = 0
    died = []
    while pids:
        done, status = os.wait()
        if done not in pids:
            continue
        i = pids.pop(done)
        if os.WIFSIGNALED(status):
            died.append((i, os.WTERMSIG(status)))
        elif os.WEXITSTATUS(status):
            worst = 3
    with open(events_file, "w") as ev, open(cases_file, "w") as cf:
        for i in range(shards):
            for path, dst in ((f"{events_file}.{i}", ev), (f"{cases_file}.{i}", cf)):
                with open(path) as f:
                    dst.writelines(line for line in f if line.endswith("\n"))
        for i, sig in died:  # the case being run when the process was lost
            last = json.loads(open(f"{cases_file}.{i}").readlines()[-1])
            last_event = open(f"{events_file}.{i}").readlines()[-1:]
            eid = last["id"]
            if last_event and json.loads(last_event[0])["id"] >= eid:
                return 3
            ev.write(json.dumps({"k": "died", "what": f"signal {sig}", "id": eid, "s": 0}) + "\n")
    return worst


def shard(mod, cases, i, n, limit, events_file, cases_file):
    """Runs every n-th case from the i-th on; ids are i + 1 modulo n."""
    local = 0
    hangs = 0
    with open(events_file, "w") as ev, open(cases_file, "w") as cf:
        for number, case in enumerate(cases):
            if number % n != i:
                continue
            local += 1
            first = (local - 1) * n + i + 1
            cf.write(json.dumps({"id": first, "k": case.get("k", "?"), "case": case}) + "\n")
            cf.flush()
            signal.setitimer(signal.ITIMER_REAL, limit)
            try:
                events = mod.run(json.loads(json.dumps(case)))
                signal.setitimer(signal.ITIMER_REAL, 0)
            except Hang:
                events = [{"k": "hang", "what": case.get("k", "?"), "s": 0}]
                hangs += 1
            except Exception as e:
                traceback.print_exc()
                events = [{"k": "unexpected", "what": f"{type(e).__name__}: {e}"[:200], "s": 0}]
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if isinstance(events, dict):
                events = [events]
            for j, e in enumerate(events):
                e = dict(e)
                local += j > 0
                e["id"] = (local - 1) * n + i + 1
                if j:
                    cf.write(json.dumps({"id": e["id"], "k": e["k"], "case": case}) + "\n")
                ev.write(json.dumps(e) + "\n")
            ev.flush()
            if hangs >= 2:
                break
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 3
    sys.stderr.flush()
    os._exit(code)
