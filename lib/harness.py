"""Property-based testing harness shared by every check (Hypothesis underneath).

A property module in /verif/props defines ``PARTS``: a list of Part objects.  A Part is
one executable statement of (a facet of) the property:

    strategy   Hypothesis strategy producing JSON-serialisable cases
    check      function(case) -> None or iterable of labels; raises Violation when the
               code under test breaks the property on that case
    nontrivial function(case) -> bool, the stated rule for a non-trivial case

The harness splits the case budget of each part over worker processes, derives every
random choice from VERIF_SEED, lets Hypothesis shrink a failure, and stores the minimal
case as a replay file which ``run.py <id> --replay <file>`` executes without Hypothesis.
"""

import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src"

LABEL_CAP = 60


class Violation(Exception):
    """The code under test broke the property on this case."""


class Inconclusive(Exception):
    """The case could not be decided (oracle precondition not met); counted apart."""


class Part:
    def __init__(
        self,
        name,
        strategy,
        check,
        quick,
        thorough=None,
        nontrivial=None,
        rule="",
        setup=None,
    ):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.nontrivial = nontrivial or (lambda case: True)
        self.rule = rule
        self.setup = setup

    def budget(self, tier):
        return self.thorough if tier == "thorough" else self.quick


def case_key(case):
    return json.dumps(case, sort_keys=True)


def in_code_under_test(tb):
    """True if the traceback passes through the code under test."""
    for frame in traceback.extract_tb(tb):
        if os.path.realpath(frame.filename).startswith(REPO_SRC):
            return True
    return False


def run_case(part, case):
    """Run one case. Returns labels; raises Violation / Inconclusive / harness errors."""
    try:
        labels = part.check(case)
        return list(labels) if labels else []
    except (Violation, Inconclusive):
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as exc:  # noqa: BLE001
        if in_code_under_test(exc.__traceback__):
            where = [
                f
                for f in traceback.extract_tb(exc.__traceback__)
                if os.path.realpath(f.filename).startswith(REPO_SRC)
            ][-1]
            raise Violation(
                "valid input made the library raise %s: %s (%s:%d)"
                % (
                    type(exc).__name__,
                    str(exc)[:200],
                    os.path.basename(where.filename),
                    where.lineno,
                )
            ) from exc
        raise


class _Stats:
    def __init__(self):
        self.evaluations = 0
        self.inconclusive = 0
        self.skipped_by_budget = 0
        self.keys = set()
        self.labels = {}
        self.samples = []

    def record(self, part, case, labels):
        k = hashlib.sha1(case_key(case).encode()).hexdigest()
        self.evaluations += 1
        if part.nontrivial(case):
            if k not in self.keys:
                self.keys.add(k)
                if len(self.samples) < 3:
                    self.samples.append(case)
        for lab in labels:
            self.labels[lab] = self.labels.get(lab, 0) + 1

    def dump(self):
        return {
            "evaluations": self.evaluations,
            "inconclusive": self.inconclusive,
            "skipped_by_budget": self.skipped_by_budget,
            "keys": list(self.keys),
            "labels": self.labels,
            "samples": self.samples,
        }


def _seed_for(seed, prop, part, shard):
    h = hashlib.sha256(("%d/%s/%s/%d" % (seed, prop, part, shard)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def _worker(prop, part, shard, n, seed, deadline, conn, scratch):
    """Runs in a forked child: one shard of one part."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 30
    stats = _Stats()
    state = {"first": False}
    curfile = os.path.join(scratch, "%s-%d.cur" % (part.name, shard))

    if part.setup:
        part.setup()

    def body(case):
        if time.time() > deadline and not state["first"]:
            stats.skipped_by_budget += 1
            return
        with open(curfile, "w") as f:
            json.dump(case, f)
        try:
            labels = run_case(part, case)
        except Inconclusive:
            stats.inconclusive += 1
            return
        except Violation as v:
            conn.send(("failing", part.name, case, str(v)))
            state["first"] = True
            raise
        if not state["first"]:
            stats.record(part, case, labels)

    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
    )(hypothesis.given(part.strategy)(body))
    test = hypothesis.seed(_seed_for(seed, prop, part.name, shard))(test)
    status, detail = "ok", ""
    try:
        with open(os.devnull, "w") as devnull:
            old = sys.stdout, sys.stderr
            sys.stdout = sys.stderr = devnull
            try:
                test()
            finally:
                sys.stdout, sys.stderr = old
    except Violation as v:
        status, detail = "violation", str(v)
    except BaseException as exc:  # noqa: BLE001
        if state["first"]:
            # e.g. Hypothesis "Flaky" wrappers: the failing case itself was sent
            status, detail = "violation", repr(exc)[:400]
        else:
            status = "error"
            detail = "".join(
                traceback.format_exception(type(exc), exc, exc.__traceback__)
            )[-3000:]
    conn.send(("done", part.name, shard, status, detail, stats.dump()))
    conn.close()
    sys.stdout.flush()
    os._exit(0)


def _rerun_in_child(part, case, timeout=120):
    """Re-run a case in a fresh fork; returns 'signal N', 'violation', 'ok', 'hang'."""
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            if part.setup:
                part.setup()
            run_case(part, case)
        except Violation:
            code = 1
        except BaseException:  # noqa: BLE001
            code = 2
        os._exit(code)
    end = time.time() + timeout
    while time.time() < end:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            if os.WIFSIGNALED(st):
                return "signal %d" % os.WTERMSIG(st)
            return {0: "ok", 1: "violation"}.get(os.WEXITSTATUS(st), "error")
        time.sleep(0.02)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return "hang"


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get("known", []) if e["property"] == prop]


def write_replay(prop, part, case, message):
    outdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(outdir, exist_ok=True)
    h = hashlib.sha1((part + case_key(case)).encode()).hexdigest()[:10]
    path = os.path.join(outdir, "%s-%s-%s.json" % (prop, part, h))
    with open(path, "w") as f:
        json.dump(
            {"property": prop, "part": part, "case": case, "message": message},
            f,
            indent=1,
        )
    return path


def run_property(prop, module, tier, seed, workers=8, time_budget=None, only=None):
    t0 = time.time()
    parts = [p for p in module.PARTS if not only or p.name in only]
    by_name = {p.name: p for p in parts}
    budget_s = time_budget or (330 if tier == "quick" else 3000)
    deadline = t0 + budget_s
    hard = deadline + 240
    scratch = os.path.join("/tmp", "verif-%s-%d" % (prop, os.getpid()))
    os.makedirs(scratch, exist_ok=True)

    violations = []  # (part, case, message)
    errors = []
    totals = {
        p.name: {
            "evaluations": 0,
            "inconclusive": 0,
            "skipped_by_budget": 0,
            "keys": set(),
            "labels": {},
            "samples": [],
        }
        for p in parts
    }

    # 1. regression tier: committed minimal cases, run without Hypothesis
    regress_dir = os.path.join(VERIF, "regress", prop)
    regress_run = 0
    if os.path.isdir(regress_dir) and not only:
        for fn in sorted(os.listdir(regress_dir)):
            with open(os.path.join(regress_dir, fn)) as f:
                rec = json.load(f)
            if rec["part"] not in by_name:
                continue
            regress_run += 1
            part = by_name[rec["part"]]
            pid_res = _regress_child(part, rec["case"])
            if pid_res[0] == "violation":
                violations.append((rec["part"], rec["case"], pid_res[1]))
                break
            if pid_res[0] == "error":
                errors.append("regress %s: %s" % (fn, pid_res[1]))

    # 2. generated search
    jobs = []
    if not violations and not errors:
        for p in parts:
            n = p.budget(tier)
            nshard = min(workers, max(1, n // 5))
            for s in range(nshard):
                k = n // nshard + (1 if s < n % nshard else 0)
                jobs.append((p, s, k))
        # interleave so that long parts start first
        jobs.sort(key=lambda j: (j[1], -j[2]))

    ctx = mp.get_context("fork")
    running = []
    first_failure_time = None
    best = None
    while jobs or running:
        while jobs and len(running) < workers and best is None:
            p, s, k = jobs.pop(0)
            rx, tx = ctx.Pipe(duplex=False)
            pr = ctx.Process(
                target=_worker, args=(prop, p, s, k, seed, deadline, tx, scratch)
            )
            pr.start()
            tx.close()
            running.append({"p": p, "s": s, "proc": pr, "rx": rx, "done": False})
        mp.connection.wait([r["rx"] for r in running], timeout=0.5)
        for r in list(running):
            try:
                while r["rx"].poll():
                    msg = r["rx"].recv()
                    if msg[0] == "failing":
                        _, pn, case, text = msg
                        if first_failure_time is None:
                            first_failure_time = time.time()
                        r["best"] = (pn, case, text)
                    elif msg[0] == "done":
                        _, pn, sh, status, detail, st = msg
                        r["done"] = True
                        t = totals[pn]
                        t["evaluations"] += st["evaluations"]
                        t["inconclusive"] += st["inconclusive"]
                        t["skipped_by_budget"] += st["skipped_by_budget"]
                        t["keys"].update(st["keys"])
                        for k2, v in st["labels"].items():
                            t["labels"][k2] = t["labels"].get(k2, 0) + v
                        if len(t["samples"]) < 3:
                            t["samples"] += st["samples"][: 3 - len(t["samples"])]
                        if status == "violation":
                            best = r.get("best")
                            violations.append(best)
                        elif status == "error":
                            errors.append("%s/%d: %s" % (pn, sh, detail))
            except EOFError:
                pass
            if not r["proc"].is_alive():
                r["proc"].join()
                if not r["done"]:
                    # died without report: native crash
                    code = r["proc"].exitcode
                    cur = os.path.join(scratch, "%s-%d.cur" % (r["p"].name, r["s"]))
                    try:
                        with open(cur) as f:
                            case = json.load(f)
                        again = _rerun_in_child(r["p"], case)
                        if again.startswith("signal"):
                            violations.append(
                                (r["p"].name, case, "process died: %s" % again)
                            )
                            best = violations[-1]
                        elif again == "violation":
                            violations.append((r["p"].name, case, "violation"))
                            best = violations[-1]
                        else:
                            errors.append(
                                "worker died (exit %s), rerun: %s" % (code, again)
                            )
                    except (OSError, ValueError):
                        errors.append("worker died (exit %s)" % code)
                running.remove(r)
        now = time.time()
        if first_failure_time is not None and (
            best is not None or now - first_failure_time > 60
        ):
            # stop everything, use best known failing case
            for r in running:
                if best is None and r.get("best"):
                    best = r["best"]
                    violations.append(best)
                r["proc"].kill()
                r["proc"].join()
            running, jobs = [], []
        if now > hard and running:
            errors.append("workers exceeded the hard time limit (inconclusive)")
            for r in running:
                r["proc"].kill()
                r["proc"].join()
            running, jobs = [], []

    for fn in os.listdir(scratch):
        os.unlink(os.path.join(scratch, fn))
    os.rmdir(scratch)

    # 3. known findings: exact case list, never extended at run time
    known = load_known(prop)
    known_hits = []
    real = []
    for v in violations:
        hit = [
            e
            for e in known
            if e["part"] == v[0] and case_key(e["case"]) == case_key(v[1])
        ]
        (known_hits if hit else real).append(v)
    for e in known:
        # replay the recorded input; a finding that no longer fails is not printed
        if only and e["part"] not in only:
            continue
        if _regress_child(by_name[e["part"]], e["case"])[0] == "violation":
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))

    # 4. evidence
    wall = time.time() - t0
    evaluations = sum(t["evaluations"] for t in totals.values()) + regress_run
    distinct = sum(len(t["keys"]) for t in totals.values())
    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": distinct,
        "rule": getattr(module, "RULE", "")
        + " | per part: "
        + "; ".join("%s: %s" % (p.name, p.rule or "every case") for p in parts),
        "samples": [
            {"part": n, "case": c}
            for n, t in totals.items()
            for c in t["samples"][:2]
        ]
        or [{"part": v[0], "case": v[1]} for v in violations[:1]],
        "parts": {
            n: {
                "evaluations": t["evaluations"],
                "distinct_nontrivial": len(t["keys"]),
                "inconclusive": t["inconclusive"],
                "skipped_by_time_budget": t["skipped_by_budget"],
                "labels": dict(
                    sorted(t["labels"].items(), key=lambda kv: -kv[1])[:LABEL_CAP]
                ),
            }
            for n, t in totals.items()
        },
        "regression_cases_replayed": regress_run,
    }
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(real),
    }
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % prop))

    for n, t in totals.items():
        print(
            "%s %-28s evaluations=%d nontrivial=%d inconclusive=%d skipped=%d"
            % (
                prop,
                n,
                t["evaluations"],
                len(t["keys"]),
                t["inconclusive"],
                t["skipped_by_budget"],
            )
        )
    print("%s wall=%.1fs" % (prop, wall))
    if real:
        for part, case, text in real[:1]:
            path = write_replay(prop, part, case, text)
            print("part=%s %s" % (part, text))
            print("case=%s" % case_key(case)[:2000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors[:3]:
            print("HARNESS-ERROR %s" % e, file=sys.stderr)
        return 2
    return 0


def _regress_child(part, case):
    ctx = mp.get_context("fork")
    rx, tx = ctx.Pipe(duplex=False)

    def target():
        try:
            if part.setup:
                part.setup()
            run_case(part, case)
            tx.send(("ok", ""))
        except Violation as v:
            tx.send(("violation", str(v)))
        except Inconclusive:
            tx.send(("ok", "inconclusive"))
        except BaseException as exc:  # noqa: BLE001
            tx.send(("error", repr(exc)[:500]))
        tx.close()
        os._exit(0)

    pr = ctx.Process(target=target)
    pr.start()
    tx.close()
    res = ("error", "no answer within 200 s")
    if rx.poll(200):
        try:
            res = rx.recv()
        except EOFError:
            pr.join(5)
            res = ("violation", "process died, exit code %s" % pr.exitcode)
    pr.kill()
    pr.join()
    return res


def replay(prop, module, path):
    with open(path) as f:
        rec = json.load(f)
    part = {p.name: p for p in module.PARTS}[rec["part"]]
    if part.setup:
        part.setup()
    try:
        labels = run_case(part, rec["case"])
    except Violation as v:
        print("part=%s %s" % (rec["part"], v))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    except Inconclusive as v:
        print("inconclusive: %s" % v)
        return 0
    print("held: %s labels=%s" % (case_key(rec["case"])[:500], labels))
    return 0
