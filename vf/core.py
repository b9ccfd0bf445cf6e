"""Driver: generate cases with Hypothesis, judge them, shrink, replay, write evidence."""
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO_PKG = "/repo/"
DEFAULT_CASE_TIMEOUT = 150


class Violation(Exception):
    """The property does not hold for this case."""


class CaseTimeout(BaseException):
    pass


class Sub(object):
    """One executable check over one generator.

    strategy: Hypothesis strategy of JSON-able cases.  check(case, cx): raises Violation (or lets an exception of the
    code under test escape) when the property fails.  examples: hand-written cases that always run first.
    """

    def __init__(self, name, strategy, check, quick, thorough=None, examples=(), timeout=DEFAULT_CASE_TIMEOUT,
                 about=""):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.examples = list(examples)
        self.timeout = timeout
        self.about = about


class Cx(object):
    """What a check tells the driver about the current case."""

    def __init__(self):
        self.labels = []
        self.nontriv = False

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, cond=True):
        if cond:
            self.nontriv = True

    def fail(self, msg):
        raise Violation(msg)

    def ok(self, cond, msg, *args):
        if not cond:
            raise Violation(msg.format(*args) if args else msg)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def _in_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO_PKG):
            return True
        tb = tb.tb_next
    return False


class HarnessError(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


# Exceptions that a malformed return value of the code under test provokes in the oracle's arithmetic.  Every case is
# known to be judged without one on the unchanged tree, so here they say something about the value returned.
_VALUE_ERRORS = (ValueError, TypeError, IndexError, KeyError, ZeroDivisionError, OverflowError, FloatingPointError,
                 ArithmeticError, AttributeError, AssertionError)


def judge(sub, case, cx):
    """None if the property held, else a message.  Raises HarnessError / CaseTimeout."""
    import numpy as np
    np.random.seed(20160929)
    np.seterr(all="ignore")
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(sub.timeout)
    try:
        sub.check(case, cx)
        return None
    except Violation as e:
        return str(e)
    except CaseTimeout:
        raise
    except (MemoryError, KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        tb = sys.exc_info()[2]
        last = traceback.format_exc().strip().splitlines()
        text = "{}: {}".format(type(e).__name__, e)
        if _in_repo(tb):
            return "exception on a valid input: {} | {}".format(text, " / ".join(
                l.strip() for l in last if REPO_PKG in l)[-400:])
        if isinstance(e, _VALUE_ERRORS) or isinstance(e, np.linalg.LinAlgError):
            return "malformed result, the oracle cannot read it: " + text + " | " + " / ".join(
                l.strip() for l in last[-4:])
        raise HarnessError("".join(traceback.format_exc()))
    finally:
        signal.alarm(0)


class Stop(BaseException):
    pass


def run_sub(sub, n, seedval, budget_after_fail=45.0):
    """Returns a result dict for n generated cases of one Sub."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase

    st = {"sub": sub.name, "evaluations": 0, "nontrivial": {}, "labels": {}, "samples": [], "violation": None,
          "error": None, "excluded": 0}
    state = {"t_fail": None, "best": None}

    def evaluate(case):
        # after a failure only a bounded amount of shrinking
        if state["t_fail"] is not None and time.time() - state["t_fail"] > budget_after_fail:
            raise Stop()
        cx = Cx()
        try:
            msg = judge(sub, case, cx)
        except CaseTimeout:
            # a case takes milliseconds to a few seconds on the unchanged tree
            if state["best"] is None:
                state["best"] = (0, case, "no result within {} s".format(sub.timeout))
            raise Stop()
        st["evaluations"] += 1
        if msg is None:
            for l in set(cx.labels):
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if cx.nontriv:
                key = hashlib.md5(canon(case).encode()).hexdigest()[:16]
                if key not in st["nontrivial"]:
                    st["nontrivial"][key] = 1
                    if len(st["samples"]) < 3 and len(canon(case)) < 1500:
                        st["samples"].append({"sub": sub.name, "case": case, "labels": sorted(set(cx.labels))})
            return
        size = len(canon(case))
        if state["best"] is None or size <= state["best"][0]:
            state["best"] = (size, case, msg)
        if state["t_fail"] is None:
            state["t_fail"] = time.time()
        raise Violation(msg)

    @hypothesis.seed(seedval)
    @settings(max_examples=n, deadline=None, database=None, print_blob=False, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
              verbosity=hypothesis.Verbosity.quiet)
    @given(sub.strategy)
    def prop(case):
        evaluate(case)

    try:
        for ex in (sub.examples if seedval % 1000 == 0 else ()):
            evaluate(ex)
        if n > 0:
            prop()
    except Stop:
        pass
    except HarnessError as e:
        if state["best"] is None:
            st["error"] = str(e)
    except Exception:
        if state["best"] is None:
            st["error"] = traceback.format_exc()
    if state["best"] is not None:
        st["violation"] = {"sub": sub.name, "case": state["best"][1], "message": state["best"][2]}
        st["error"] = None
    st["nontrivial"] = sorted(st["nontrivial"])
    return st


def _scratch():
    d = tempfile.mkdtemp(prefix="vf_")
    os.chdir(d)
    return d


def _worker(modname, shard, nshards, tier, seed, conn):
    d = _scratch()
    out = []
    try:
        mod = importlib.import_module(modname)
        if getattr(mod, "PRISTINE", False):
            from vf import pristine
            pristine.start()
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)          # the code under test prints warnings
        for k, sub in enumerate(mod.SUBS):
            # SCALE: cheap checks run more cases
            k_ = getattr(mod, "SCALE", 1)
            total = sub.thorough * max(1, k_ // 2) if tier == "thorough" else sub.quick * k_
            n = total // nshards + (1 if shard < total % nshards else 0)
            sv = (seed * 1009 + k) * 1000 + shard
            t0 = time.time()
            try:
                r = run_sub(sub, n, sv)
            except BaseException:
                r = {"sub": sub.name, "evaluations": 0, "nontrivial": [], "labels": {}, "samples": [],
                     "violation": None, "error": traceback.format_exc()}
            r["seconds"] = time.time() - t0
            r["shard"] = shard
            out.append(r)
            if r["violation"] or r["error"]:
                break
    except BaseException:
        out.append({"sub": "?", "evaluations": 0, "nontrivial": [], "labels": {}, "samples": [], "violation": None,
                    "error": traceback.format_exc(), "seconds": 0, "shard": shard})
    finally:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)
    conn.send(out)
    conn.close()


def load_findings(here, prop):
    out = []
    path = os.path.join(here, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("property") == prop and d.get("status") == "known":
                        out.append(d)
    return out


def find_sub(mod, name):
    for s in list(mod.SUBS) + list(getattr(mod, "REPLAY_ONLY", [])):
        if s.name == name:
            return s
    raise HarnessError("no sub-check named " + name)


def main(argv, here):
    prop = argv[0]
    modname = "vf.props." + prop.lower()
    t0 = time.time()
    from vf import bootstrap
    bootstrap.load()
    mod = importlib.import_module(modname)

    if len(argv) >= 3 and argv[1] == "--replay":
        path = os.path.abspath(argv[2])
        with open(path) as f:
            rec = json.load(f)
        d = _scratch()
        if getattr(mod, "PRISTINE", False):
            from vf import pristine
            pristine.start()
        try:
            msg = judge(find_sub(mod, rec["sub"]), rec["case"], Cx())
        except CaseTimeout:
            msg = "no result in time"
        finally:
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)
        if msg is None:
            print("replay: property {} held on {}".format(prop, path))
            return 0
        print(msg)
        print("VIOLATION property={} replay={}".format(prop, path))
        return 1

    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    nshards = 8        # fixed: the cases do not depend on the machine
    errors, results = [], []

    # Findings recorded as genuine, unrepaired defects: their exact inputs, judged first.
    known = load_findings(here, prop)
    d = _scratch()
    for k in known:
        try:
            msg = judge(find_sub(mod, k["sub"]), k["case"], Cx())
        except BaseException:
            errors.append("known finding {}: {}".format(k.get("id"), traceback.format_exc()))
            continue
        if msg is not None:
            print("KNOWN-FINDING: property={} {}".format(prop, k["what"]))
    os.chdir("/")
    shutil.rmtree(d, ignore_errors=True)

    ctx = multiprocessing.get_context("fork")
    procs = []
    for s in range(nshards):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(modname, s, nshards, tier, seed, b))
        p.start()
        b.close()
        procs.append((p, a))
    pending = list(procs)
    stop = False
    while pending and not stop:
        ready = multiprocessing.connection.wait([a for _, a in pending], timeout=5)
        for p, a in list(pending):
            if a in ready:
                try:
                    rs = a.recv()
                except EOFError:
                    rs = []
                    errors.append("a worker died (exit code {})".format(p.exitcode))
                results.extend(rs)
                pending.remove((p, a))
                if any(r["violation"] for r in rs):
                    stop = True
    # A violation answers the question: stop the rest.
    for p, a in pending:
        p.terminate()
    for p, a in procs:
        p.join(10)
        if p.is_alive():
            p.kill()

    violations = [r["violation"] for r in results if r["violation"]]
    errors += [r["error"] for r in results if r["error"]]
    evals = sum(r["evaluations"] for r in results)
    nontriv = set()
    per = {}
    samples = []
    for r in sorted(results, key=lambda r: (r["shard"], r["sub"])):
        for h in r["nontrivial"]:
            nontriv.add((r["sub"], h))
        q = per.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "cpu_s": 0.0})
        q["evaluations"] += r["evaluations"]
        q["cpu_s"] = round(q["cpu_s"] + r["seconds"], 2)
        for l, c in r["labels"].items():
            q["labels"][l] = q["labels"].get(l, 0) + c
        for s in r["samples"]:
            if sum(1 for t in samples if t["sub"] == s["sub"]) < 2:
                samples.append(s)
    for (s, h) in nontriv:
        per[s]["distinct_nontrivial"] += 1

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(nontriv), "rule": mod.RULE, "samples": samples[:12],
            "per_check": per,
            "known_findings_listed": len(known),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "Runs on Python 3.12 through the sandbox's Python 2 import hook, numpy 1.26 and scipy 1.11"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    with open(os.path.join(here, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")

    if violations:
        violations.sort(key=lambda v: len(canon(v["case"])))
        v = violations[0]
        os.makedirs(os.path.join(here, "replays"), exist_ok=True)
        name = "{}_{}_{}.json".format(prop, v["sub"], hashlib.md5(canon(v["case"]).encode()).hexdigest()[:10])
        path = os.path.join(here, "replays", name)
        with open(path, "w") as f:
            json.dump({"property": prop, "sub": v["sub"], "message": v["message"], "case": v["case"]}, f, indent=1)
            f.write("\n")
        print("{}/{}: {}".format(prop, v["sub"], v["message"]))
        print("VIOLATION property={} replay={}".format(prop, path))
        return 1
    if errors:
        for e in errors[:3]:
            sys.stderr.write(e + "\n")
        sys.stderr.write("check {}: error or inconclusive, no verdict\n".format(prop))
        return 2
    print("{}: held on {} cases ({} distinct non-trivial), {:.1f} s".format(prop, evals, len(nontriv),
                                                                         time.time() - t0))
    return 0
