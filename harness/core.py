"""Runs the check of one property.

1. TLC checks the design model(s) of the property (``mc`` in the registry),
   exhaustively in a small scope; a model may also *generate* cases, printed
   as ``CASE <json>`` lines, which are replayed in the real code.
2. A driver process imports graphicle from /repo, executes the generated
   cases and seeded random ones against the real API, and records one event
   per case (arguments and outcome, errors and hangs being outcomes too).
3. TLC validates the recorded trace against the specification: the trace
   module's ``Bad(e)`` names the clauses of the property an event violates.

Exit 0: every event is a behaviour of the specification.  Exit 1 with a
VIOLATION line: at least one is not.  Anything else: machinery failure.
"""
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from .registry import REGISTRY

ROOT = pathlib.Path(__file__).resolve().parent.parent
SPEC = ROOT / "spec"
JARS = (
    "/opt/veriftools/tla/tla2tools.jar:"
    "/opt/veriftools/tla/CommunityModules-deps.jar"
)
PY = "/opt/venv/bin/python"
NPROC = max(1, min(8, os.cpu_count() or 1))


class Machinery(Exception):
    """Failure of the check itself, not a verdict about the code."""


def tlc(module, cfg, workdir, env=None, workers=1, timeout=800, heap="1500m", extra=()):
    """Runs TLC on a module of spec/; returns its output and exit code."""
    meta = tempfile.mkdtemp(dir=workdir, prefix="meta")
    cmd = [
        "java", "-XX:+UseSerialGC", f"-Xmx{heap}", "-Xss64m",
        "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC",
        "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
        "-config", str(cfg), *extra, str(module),
    ]
    full_env = dict(os.environ)
    full_env.update(env or {})
    try:
        res = subprocess.run(
            cmd, cwd=SPEC, env=full_env, timeout=timeout,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        )
    except subprocess.TimeoutExpired as e:
        raise Machinery(f"TLC timed out on {module}") from e
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return res.stdout, res.returncode


_STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def stats(output):
    found = _STATS.findall(output)
    if not found:
        return 0, 0
    return int(found[-1][0]), int(found[-1][1])


def model_check(job, tier, workdir):
    """Design check: returns (states, transitions, generated cases)."""
    cfg = job["cfg"]
    if tier == "thorough":
        cfg = job.get("thorough", cfg)
    out, code = tlc(
        job["module"] + ".tla", cfg + ".cfg", workdir,
        env={"VERIF_TIER": tier, "VERIF_SEED": str(seed())},
        workers=job.get("workers", 2), extra=job.get("extra", ()),
        timeout=job.get("timeout", 700), heap=job.get("heap", "3g"),
    )
    if code != 0:
        raise Machinery(
            f"design model {job['module']} ({cfg}) not accepted by TLC:\n{out[-3000:]}"
        )
    gen, distinct = stats(out)
    cases = []
    for line in out.splitlines():
        if line.startswith('"CASE '):
            cases.append(json.loads(json.loads(line)[5:]))
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    return dict(
        model=job["module"], cfg=cfg, states=distinct, transitions=gen
    ), cases


def seed():
    return int(os.environ.get("VERIF_SEED", "1"))


_FAIL = re.compile(r'^"FAIL (\d+) (.*)"$')


def validate(spec, chunk, workdir, idx):
    """Validates a chunk of events; returns {event id: clauses}."""
    path = os.path.join(workdir, f"trace{idx}.ndjson")
    with open(path, "w") as f:
        for line in chunk:
            f.write(line)
    out, code = tlc(
        spec + ".tla", "Trace.cfg", workdir, env={"TRACE_FILE": path},
        timeout=840,
    )
    fails = {}
    for line in out.splitlines():
        m = _FAIL.match(line)
        if m:
            clauses = re.findall(r'[\w\-\.]+', m.group(2).replace('\\"', '"'))
            fails[int(m.group(1))] = sorted(set(clauses))
    gen, distinct = stats(out)
    if code == 0:
        return fails, gen, distinct
    # TLC stopped at an event: is it one the specification is undefined on?
    done = re.findall(r"^(?:/\\ )?l = (\d+)\s*$", out, re.M)
    if "ERROR_EVAL" not in out and done and (
        "evaluating" in out or "Attempted to" in out or "exception" in out
    ):
        at = int(done[-1])
        if at <= len(chunk):
            eid = json.loads(chunk[at - 1])["id"]
            fails[eid] = ["outside-specification"]
            print(f"TLC could not evaluate event {eid}:", file=sys.stderr)
            print(_tlc_error(out), file=sys.stderr)
            if at < len(chunk):
                more, g2, d2 = validate(spec, chunk[at:], workdir, f"{idx}x")
                fails.update(more)
                gen, distinct = gen + g2, distinct + d2
            return fails, gen, distinct
    raise Machinery(f"TLC failed on a trace of {spec}:\n{out[-4000:]}")


def _tlc_error(out):
    i = out.find("Error:")
    return out[i:i + 1500]


def driver_env(workdir):
    env = dict(os.environ)
    env["NUMBA_CACHE_DIR"] = os.environ.get(
        "VERIF_NUMBA_CACHE", os.path.join(workdir, "numba")
    )
    env["VERIF_PYC"] = os.path.join(workdir, "pyc")
    env["PYTHONPATH"] = f"/repo:{ROOT}"
    env["NUMBA_NUM_THREADS"] = "4"
    for var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        env[var] = "1"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    return env


def main(argv):
    pid, tier = argv[0], (argv[1] if len(argv) > 1 else "quick")
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    reg = REGISTRY[pid]
    start = time.time()
    workdir = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        return run(pid, tier, reg, workdir, start, replay)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(workdir, ignore_errors=True)


def run(pid, tier, reg, workdir, start, replay):
    os.mkdir(os.path.join(workdir, "numba"))
    gen_file = os.path.join(workdir, "generated.json")
    events_file = os.path.join(workdir, "events.ndjson")
    cases_file = os.path.join(workdir, "cases.ndjson")
    driver = subprocess.Popen(
        [PY, "-m", "harness.driver", pid, tier, str(seed()), gen_file,
         events_file, cases_file] + ([replay] if replay else []),
        cwd=ROOT, env=driver_env(workdir), start_new_session=True,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
    )
    try:
        models, generated = [], []
        jobs = [] if replay else reg.get("mc", [])
        with ThreadPoolExecutor(max_workers=3) as pool:
            for info, cases in pool.map(
                lambda j: model_check(j, tier, workdir), jobs
            ):
                models.append(info)
                generated.extend(cases)
        tmp = gen_file + ".tmp"
        with open(tmp, "w") as f:
            json.dump(generated, f)
        os.rename(tmp, gen_file)
        limit = (600 if tier == "quick" else 7200) - (time.time() - start)
        try:
            out, err = driver.communicate(timeout=max(60, limit))
        except subprocess.TimeoutExpired:
            os.killpg(driver.pid, 9)
            out, err = driver.communicate()
            err += "\ndriver timed out"
    finally:
        if driver.poll() is None:
            os.killpg(driver.pid, 9)
    marks = [("driver", time.time() - start)]
    lines = []
    if os.path.exists(events_file):
        lines = open(events_file).read().splitlines(keepends=True)
    if lines and not lines[-1].endswith("\n"):
        lines.pop()
    crashed = driver.returncode != 0
    if crashed and not os.path.exists(events_file + ".started"):
        raise Machinery(f"driver failed before its first case:\n{err[-4000:]}")
    if crashed:
        raise Machinery(f"driver error:\n{err[-4000:]}")
    cases = {}
    with open(cases_file) as f:
        for line in f:
            try:
                rec = json.loads(line)
            except ValueError:
                continue
            cases[rec["id"]] = rec
    # validate
    spec = reg["trace"]
    nchunks = max(1, min(NPROC, len(lines) // reg.get("min_chunk", 40) or 1))
    if reg.get("stateful"):
        groups = split_sessions(lines, nchunks)
    else:
        groups = [lines[i::nchunks] for i in range(nchunks)]
    fails, states, transitions = {}, 0, 0
    with ThreadPoolExecutor(max_workers=NPROC) as pool:
        for f_, gen, distinct in pool.map(
            lambda ic: validate(spec, ic[1], workdir, ic[0]),
            enumerate(g for g in groups if g),
        ):
            fails.update(f_)
            states += distinct
            transitions += gen
    marks.append(("validated", time.time() - start))
    if os.environ.get("VERIF_KEEP"):
        print(marks, file=sys.stderr)
    kinds, seen = {}, set()
    samples = []
    for line in lines:
        e = json.loads(line)
        kinds[e["k"]] = kinds.get(e["k"], 0) + 1
        body = {k: v for k, v in e.items() if k != "id"}
        if e.get("nt", True):
            seen.add(json.dumps(body, sort_keys=True))
        if len(samples) < 3 and kinds[e["k"]] == 1 and len(line) < 3000:
            samples.append(e)
    if not samples and lines:
        samples.append(lines[0][:2000])
    # verdict
    known = json.load(open(ROOT / "known_findings.json"))["known"]
    reported, violations = set(), []
    for eid in sorted(fails):
        rec = cases.get(eid, {"id": eid, "case": None})
        left = []
        for clause in fails[eid]:
            hit = next(
                (k for k in known
                 if k["property"] == pid and k["clause"] == clause
                 and all((rec.get("case") or {}).get(a) == b
                         for a, b in k.get("match", {}).items())),
                None,
            )
            if hit:
                if hit["id"] not in reported:
                    reported.add(hit["id"])
                    print(f"KNOWN-FINDING: property={pid} {hit['what']}")
            else:
                left.append(clause)
        if left:
            violations.append((eid, left, rec))
    if replay is None:
        n = len(lines)
        coverage = {
            "states": states + sum(m["states"] for m in models),
            "transitions": transitions + sum(m["transitions"] for m in models),
            "traces_validated_against_impl": n,
            "evaluations": n,
            "distinct_nontrivial": len(seen),
            "rule": reg["rule"],
            "events_by_kind": kinds,
            "design_models": models,
            "cases_generated_by_models": len(generated),
            "samples": samples,
        }
        evidence = {
            "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick",
            "seed": seed(), "level": "model_checking", "coverage": coverage,
            "assumptions": reg.get("assumptions", []),
            "wall_s": round(time.time() - start, 2),
            "violations": len(violations),
        }
        os.makedirs(ROOT / "evidence", exist_ok=True)
        (ROOT / "evidence" / f"{pid}.json").write_text(json.dumps(evidence, indent=1))
        want = reg.get("expect", {})
        if not violations:
            for kind in reg.get("kinds", ()):
                if kinds.get(kind, 0) == 0:
                    raise Machinery(f"vacuous: no event of kind {kind}")
            if n < want.get("events", 1):
                raise Machinery(f"vacuous: only {n} events")
    if violations:
        os.makedirs(ROOT / "replays", exist_ok=True)
        by_clause = {}
        for eid, left, rec in violations:
            key = (rec.get("k"), tuple(left))
            by_clause.setdefault(key, []).append((eid, rec))
        events = {}
        for line in lines:
            e = json.loads(line)
            events[e["id"]] = e
        for i, (key, recs) in enumerate(sorted(by_clause.items(), key=str)[:8]):
            eid, rec = min(recs, key=lambda r: len(json.dumps(r[1])))
            path = ROOT / "replays" / f"{pid}-{seed()}-{i}.json"
            path.write_text(json.dumps({
                "property": pid, "clauses": list(key[1]), "kind": key[0],
                "occurrences": len(recs), "case": rec.get("case"),
                "event": events.get(eid), "spec": spec,
            }, indent=1))
            print(f"failed: {key[0]} {list(key[1])} x{len(recs)}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(
        f"OK property={pid} tier={tier} events={len(lines)} kinds={len(kinds)} "
        f"models={[(m['model'], m['states']) for m in models]} "
        f"wall={time.time() - start:.1f}s"
    )
    return 0


def split_sessions(lines, n):
    """Keeps the events of one session together and in order."""
    groups = [[] for _ in range(n)]
    for line in lines:
        groups[json.loads(line)["s"] % n].append(line)
    return groups


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except Machinery as e:
        print(f"MACHINERY: {e}", file=sys.stderr)
        sys.exit(2)
