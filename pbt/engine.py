"""Drives one check: Hypothesis generation, counting, shrinking, replay files."""
import base64
import collections
import hashlib
import json
import os
import pickle
import signal
import sys
import time
import traceback

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

from .sut import Violation


class Stop(BaseException):
    """Budget spent (on shrinking or on generating)."""


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang()


class Check:
    """Subclass per property part: `strategy()`, `run(case)`; run may use self.note/self.tag."""
    name = "part"
    quick = 100       # examples per worker
    thorough = 1000
    case_limit = 60   # seconds; beyond that the case hangs
    rule = ""
    workers = None    # None: all workers run this part

    def __init__(self):
        self.counts = collections.Counter()
        self.nontrivial = False

    def strategy(self):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def describe(self, case):
        return repr(case)[:600]

    def tag(self, name, n=1):
        self.counts[name] += n


def execute(check, case):
    """Run one case; Violation propagates, a hang inside pyflp becomes one."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(check.case_limit)
    try:
        check.run(case)
    except Hang:
        raise Violation("did not terminate within %d s" % check.case_limit)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def search(check, seed, examples, deadline, shrink_for=25.0):
    """-> result dict of this worker for one check part."""
    res = {"part": check.name, "evaluations": 0, "samples": [], "failure": None, "error": None,
           "stopped": False}
    seen = set()
    best = {}

    @hypothesis.seed(seed)
    @settings(max_examples=examples, database=None, deadline=None, derandomize=False,
              suppress_health_check=list(HealthCheck), print_blob=False,
              report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink))
    @given(check.strategy())
    def test(case):
        now = time.time()
        if best and now > best["t0"] + shrink_for:
            raise Stop
        if not best and now > deadline:
            res["stopped"] = True
            raise Stop
        blob = pickle.dumps(case, 4)  # before the run: checks update the document in place
        if not best:
            res["evaluations"] += 1
        check.nontrivial = False
        try:
            execute(check, case)
        except Violation as e:
            if not best or len(blob) < best["size"]:
                best.update(size=len(blob), blob=blob, message=str(e))
                best.setdefault("t0", now)
            raise
        if not best and check.nontrivial:
            h = hashlib.sha1(blob).digest()[:8]
            if h not in seen:
                seen.add(h)
                n = len(seen)
                if n in (1, 2, 3, 7, 20):
                    res["samples"].append(check.describe(case))

    try:
        test()
    except Stop:
        pass
    except Violation:
        pass
    except BaseException as e:  # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        if not best:
            res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    if best:
        res["failure"] = {"message": best["message"],
                          "case": base64.b64encode(best["blob"]).decode()}
    res["distinct"] = len(seen)
    res["hashes"] = [h.hex() for h in seen]
    res["counts"] = dict(check.counts)
    return res


def write_replay(path, prop, part, failure, describe):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump({"property": prop, "part": part, "message": failure["message"],
                   "case_readable": describe, "case": failure["case"]}, f, indent=1)


def load_case(blob):
    return pickle.loads(base64.b64decode(blob))
