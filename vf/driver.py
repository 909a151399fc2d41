"""Property-based search driver (python3-vt: Hypothesis generates and shrinks).

usage: driver.py ID [--tier quick|thorough] [--seed N] [--shards N] [--replay FILE]

Hypothesis generates JSON cases here; each is executed, and judged by the check
module's oracle, in a worker process running the repository's own interpreter
against /repo's working tree.  Every run is a pure function of the code and of
VERIF_SEED: case counts are fixed per tier and no verdict depends on time.
"""
import argparse
import hashlib
import importlib
import json
import os
import select
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PYPY = "/opt/venv/bin/python"
CASE_TIMEOUT = 400.0
SHRINK_SECONDS = 45.0


def worker_env(scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    repo = os.environ.get("VERIF_REPO", "/repo")
    env.update(
        HOME="/root", LANG="C.UTF-8",
        PYTHONPATH=os.pathsep.join([repo, os.path.join(HERE, "shim")]),
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1",
        XDG_CACHE_HOME=os.path.join(scratch, "cache"),
        XDG_CONFIG_HOME=os.path.join(scratch, "config"),
        VERIF_SCRATCH=os.path.join(scratch, "files"),
        TMPDIR=scratch,
        OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="1", OMP_WAIT_POLICY="passive",
    )
    return env


class HarnessError(Exception):
    pass


class WorkerDied(Exception):
    pass


class Worker:
    def __init__(self, modname, scratch):
        self.modname, self.scratch = modname, scratch
        self.p = None
        self.log = []  # the cases this process has run, in order

    def start(self):
        os.makedirs(self.scratch, exist_ok=True)
        self.err = open(os.path.join(self.scratch, "stderr"), "ab")
        self.p = subprocess.Popen(
            [PYPY, os.path.join(HERE, "vf", "worker.py"), self.modname],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            cwd=self.scratch, env=worker_env(self.scratch), bufsize=0)
        self.buf = b""
        try:
            hello = self._read(CASE_TIMEOUT)
        except WorkerDied:
            raise HarnessError("worker did not start:\n" + self.stderr_tail())
        assert hello.get("ready")

    def stderr_tail(self):
        with open(os.path.join(self.scratch, "stderr"), "rb") as f:
            return f.read()[-3000:].decode("utf8", "replace")

    def _read(self, timeout):
        end = time.monotonic() + timeout
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                raise HarnessError("case ran for over %.0f s" % timeout)
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                chunk = os.read(self.p.stdout.fileno(), 1 << 20)
                if not chunk:
                    raise WorkerDied()
                self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def run(self, case):
        if self.p is None:
            self.start()
            self.log = []
        self.log.append(case)
        try:
            self.p.stdin.write((json.dumps(case) + "\n").encode())
            return self._read(CASE_TIMEOUT)
        except (WorkerDied, BrokenPipeError):
            rc = self.p.wait()
            self.p = None
            raise WorkerDied("exit status %s\n%s" % (rc, self.stderr_tail()))

    def stop(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(10)
            except Exception:
                self.p.kill()
                self.p.wait()


def key(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


class Violation(Exception):
    pass


def minimal_history(a, log, case, budget):
    """The cases that must run before `case` in one process for it to fail.

    [] when it fails on its own; otherwise a shrunk part of `log` (delta
    debugging, each attempt in a fresh process), or the whole log if nothing
    smaller fails within the budget; None if not even that fails again.
    """
    end = time.monotonic() + budget
    w = Worker(a.module, a.scratch)

    def fails(before):
        w.stop()
        w.p = None
        for c in before:
            w.run(c)
        out = w.run(case)
        return not out.get("ok", True)

    try:
        if fails([]):
            return []
        if not fails(log):
            return None
        chunk = max(1, len(log) // 2)
        while time.monotonic() < end:
            i, shrunk = 0, False
            while i < len(log) and time.monotonic() < end:
                rest = log[:i] + log[i + chunk:]
                if fails(rest):
                    log, shrunk = rest, True
                else:
                    i += chunk
            if chunk == 1 and not shrunk:
                break
            chunk = max(1, chunk // 2)
        return log
    except (WorkerDied, HarnessError):
        return []
    finally:
        w.stop()


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#"):
                rec = json.loads(line)
                if rec.get("status") == "known" and rec["property"] == prop:
                    out.append(rec)
    return out


# ------------------------------------------------------------------------ shard
def shard_main(a):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis import strategies as st

    mod = importlib.import_module("checks." + a.module)
    w = Worker(a.module, a.scratch)
    known = {k["signature"] for k in known_findings(a.id)}
    res = {"evaluations": 0, "hashes": [], "classes": {}, "samples": [], "violation": None,
           "known": [], "busy": 0.0}
    nontrivial = set()
    fails = {}
    prior = {}
    first_fail = [None]
    best = [None]
    searching = [True]

    def execute(case):
        k = key(case)
        if k in fails:
            return fails[k]
        if first_fail[0] is not None and time.monotonic() - first_fail[0] > SHRINK_SECONDS:
            return None  # shrinking budget used up: keep the smallest failure found
        try:
            out = w.run(case)
        except WorkerDied as e:
            # a crash of the interpreter: confirm it once in a fresh worker
            try:
                out = w.run(case)
            except WorkerDied as e2:
                out = {"ok": False, "sig": "crash",
                       "detail": "the process running the code died, twice: %s" % e2}
        if "error" in out:
            raise HarnessError("case %s\n%s" % (json.dumps(case), out["error"]))
        if searching[0]:
            res["evaluations"] += 1
        res["busy"] += out.get("t", 0)
        if out["ok"]:
            for sig, what in out.get("known", {}).items():
                if sig not in known:  # the defect is not on the list: it is a violation
                    out = {"ok": False, "sig": sig, "detail": what}
                elif sig not in res["known"]:
                    res["known"].append(sig)
        if out["ok"]:
            if searching[0]:
                for c in out["classes"]:
                    res["classes"][c] = res["classes"].get(c, 0) + 1
                if out["nontrivial"]:
                    if k not in nontrivial:
                        nontrivial.add(k)
                        n = len(nontrivial)
                        if n in (2, 7, 29):
                            res["samples"].append(case)
            return None
        searching[0] = False
        if first_fail[0] is None:
            first_fail[0] = time.monotonic()
            open(os.path.join(a.scratch, "failing"), "w").close()
        fails[k] = (case, out)
        prior[k] = list(w.log[:-1])
        best[0] = (case, out)
        return fails[k]

    budget = mod.COUNTS[a.tier]
    explicit = [c for i, c in enumerate(getattr(mod, "EXPLICIT", [])) if i % a.shards == a.shard]
    try:
        for case in explicit:
            case = json.loads(json.dumps(case))
            f = execute(case)
            if f:
                break
        if best[0] is None:
            strat = mod.strategy(st, a.shard, a.shards, a.tier)

            @hypothesis.seed(a.seed * 1009 + a.shard)
            @settings(max_examples=max(1, budget), deadline=None, database=None,
                      report_multiple_bugs=False, print_blob=False,
                      phases=[Phase.generate, Phase.shrink],
                      suppress_health_check=list(HealthCheck))
            @hypothesis.given(strat)
            def prop(case):
                f = execute(json.loads(json.dumps(case)))
                if f:
                    raise Violation(f[1]["sig"])

            try:
                prop()
            except Violation:
                pass
            except hypothesis.errors.FlakyFailure:
                if best[0] is None:
                    raise
            # Hypothesis replays the smallest failing case last
    except HarnessError as e:
        if best[0] is None:
            res["error"] = str(e)
    except BaseException as e:
        if best[0] is None:
            import traceback
            res["error"] = traceback.format_exc()
    if best[0] is not None:
        small = min(fails.values(), key=lambda f: (len(json.dumps(f[0])), json.dumps(f[0])))
        w.stop()
        before = minimal_history(a, prior[key(small[0])], small[0], SHRINK_SECONDS)
        if before is None:  # try the first failure, the one the search met
            small = next(iter(fails.values()))
            before = minimal_history(a, prior[key(small[0])], small[0], SHRINK_SECONDS) or []
        res["violation"] = {"case": small[0], "before": before, "sig": small[1]["sig"], "detail": small[1]["detail"]}
    res["hashes"] = sorted(nontrivial)
    w.stop()
    with open(a.out, "w") as f:
        json.dump(res, f)


# ------------------------------------------------------------------------- main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--shards", type=int, default=0)
    ap.add_argument("--shard", type=int, default=None)
    ap.add_argument("--scratch")
    ap.add_argument("--out")
    ap.add_argument("--module")
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    sys.path.insert(0, HERE)
    if a.shard is not None:
        return shard_main(a)
    mods = [f[:-3] for f in os.listdir(os.path.join(HERE, "checks"))
            if f.startswith(a.id.lower() + "_") and f.endswith(".py")]
    if len(mods) != 1:
        print("no check module for", a.id)
        return 2
    a.module = mods[0]
    if a.replay:
        scratch = tempfile.mkdtemp(prefix="verif-replay-")
        try:
            return subprocess.call([PYPY, os.path.join(HERE, "vf", "worker.py"), "--replay",
                                    os.path.abspath(a.replay)], env=worker_env(scratch), cwd=scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    mod = importlib.import_module("checks." + a.module)
    shards = a.shards or getattr(mod, "SHARDS", {}).get(a.tier, 8)
    t0 = time.time()
    base = tempfile.mkdtemp(prefix="verif-%s-" % a.id)
    rc = 2
    procs = []
    try:
        for i in range(shards):
            scratch = os.path.join(base, "s%d" % i)
            os.makedirs(scratch)
            out = os.path.join(base, "out%d.json" % i)
            log = open(os.path.join(base, "log%d" % i), "wb")
            p = subprocess.Popen(
                [sys.executable, "-B", os.path.abspath(__file__), a.id, "--tier", a.tier,
                 "--seed", str(a.seed), "--shards", str(shards), "--shard", str(i),
                 "--scratch", scratch, "--out", out, "--module", a.module],
                stdout=log, stderr=log, start_new_session=True)
            procs.append((p, out, os.path.join(base, "log%d" % i), scratch))
        results = [None] * shards
        done = set()
        found_at = None
        while len(done) < shards:
            for i, (p, out, log, scratch) in enumerate(procs):
                if i in done or p.poll() is None:
                    continue
                done.add(i)
                if os.path.exists(out):
                    results[i] = json.load(open(out))
                else:
                    results[i] = {"error": "shard died: " + open(log, "rb").read()[-3000:].decode("utf8", "replace")}
                if results[i].get("violation") and found_at is None:
                    found_at = time.time()
            if found_at is not None and time.time() - found_at > 1.0:
                break  # one confirmed, shrunk counterexample decides the run
            time.sleep(0.05)
        rc = report(a, mod, [r for r in results if r is not None], time.time() - t0, shards)
    finally:
        for p, _, _, _ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
        time.sleep(0.1)
        shutil.rmtree(base, ignore_errors=True)
    return rc


def report(a, mod, results, wall, shards):
    evals = sum(r.get("evaluations", 0) for r in results)
    distinct = set()
    classes = {}
    samples = []
    known = set()
    violations = []
    errors = []
    for r in results:
        distinct.update(r.get("hashes", []))
        for c, n in r.get("classes", {}).items():
            classes[c] = classes.get(c, 0) + n
        samples.extend(r.get("samples", [])[:1])
        known.update(r.get("known", []))
        if r.get("violation"):
            violations.append(r["violation"])
        if r.get("error"):
            errors.append(r["error"])
    for s in sorted(known):
        what = [k for k in known_findings(a.id) if k["signature"] == s][0]
        print("KNOWN-FINDING: property=%s %s" % (a.id, what["what"]))
    rc = 0
    if violations:
        v = min(violations, key=lambda v: (len(v["before"]), len(json.dumps(v["case"])), json.dumps(v["case"])))
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (a.id, key(v["case"])))
        with open(path, "w") as f:
            json.dump({"property": a.id, "module": a.module, "before": v.get("before", []), "case": v["case"], "sig": v["sig"],
                       "detail": v["detail"]}, f, indent=1)
        print(v["detail"])
        if v["before"]:
            print("(fails only after %d other case(s) in the same process; the replay runs them first)" % len(v["before"]))
        print("VIOLATION property=%s replay=%s" % (a.id, os.path.relpath(path, HERE)))
        rc = 1
    elif errors:
        print("HARNESS ERROR (no verdict):")
        print(errors[0])
        rc = 2
    if not samples:
        samples = [{"note": "no non-trivial case before the run ended"}]
    ev = {
        "property": a.id, "tier": a.tier, "seed": a.seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct), "rule": mod.RULE,
            "samples": samples[:6], "classes": dict(sorted(classes.items())), "shards": shards,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 3), "violations": len(violations),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.tmp" % a.id)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(tmp, os.path.join(HERE, "evidence", a.id + ".json"))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s, exit %d"
          % (a.id, a.tier, a.seed, evals, len(distinct), wall, rc))
    return rc


if __name__ == "__main__":
    sys.exit(main())
