"""C23: concurrent calls do not interfere."""
import sys
import threading

import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import COMPILE, call, expect
from ..core import Leg, Violation
from .c17 import DEP, OTHER, evaluate, flat

ID = "C23"
RULE = (
    "2 to 4 threads that start together, each repeating a drawn call of a "
    "public function on its own (or a shared) sample, with the interpreter "
    "switching threads as often as it can; oracle: every result equals the "
    "one of the same call made alone, and the shared samples are unchanged. "
    "Non-trivial: at least two threads with different data."
)
ASSUMPTIONS = ["Interleavings are those that the interpreter and the system produce."]


@st.composite
def cases(draw, lo=8, hi=40):
    k = draw(st.integers(2, 4))
    pool = [{"n": draw(gen.sizes(lo, hi)), "d": draw(st.sampled_from([0, 0, 1, 2])),
             "s": draw(gen.SEED)} for _ in range(draw(st.integers(1, 3)))]
    if draw(st.booleans()):       # all of one size: shared buffers would fit
        for p in pool:
            p["n"], p["d"] = pool[0]["n"], pool[0]["d"]
    fun = draw(st.sampled_from(DEP + OTHER))
    same = draw(st.booleans())
    tasks = []
    for _ in range(k):
        op = {"f": fun if same else draw(st.sampled_from(DEP + OTHER)),
              "p": draw(st.integers(0, len(pool) - 1))}
        d = pool[op["p"]]["d"]
        if op["f"] in DEP and d < 2 and draw(st.booleans()):
            op["m"] = draw(st.sampled_from(["avl", "mergesort", "naive"]))
            if op["m"] != "naive" and draw(st.booleans()):
                op["c"] = "NO_COMPILE"
        elif draw(st.integers(0, 3)) == 0:
            op["e"] = draw(gen.exponents())
        tasks.append(op)
    return {"pool": pool, "tasks": tasks, "r": draw(st.sampled_from([3, 6, 12]))}


def _data(spec):
    rng = np.random.RandomState(spec["s"])
    shape = (3, spec["n"]) + ((spec["d"],) if spec["d"] else ())
    a = rng.normal(size=shape)
    a[1] += 0.5 * a[0]
    return a


def _one(op, data):
    x, y, z = data
    if "c" in op:
        return flat(call(getattr(dcor, op["f"]), x, y, method=op["m"],
                         compile_mode=COMPILE[op["c"]]))
    return flat(evaluate(op, x, y, z))


def check(case):
    pool = [_data(s) for s in case["pool"]]
    keep = [a.copy() for a in pool]
    alone = [_one(op, pool[op["p"]]) for op in case["tasks"]]
    barrier = threading.Barrier(len(alone))
    failures = []

    def work(i):
        op = case["tasks"][i]
        try:
            barrier.wait(60)
            for r in range(case["r"]):
                got = _one(op, pool[op["p"]])
                want = alone[i]
                if not (got.shape == want.shape and np.all(
                        np.abs(got - want) <= 1e-9 * (1 + np.abs(want)))):
                    failures.append(f"{op['f']} in one of {len(alone)} threads gives {got[:4]!r}, "
                                    f"alone {want[:4]!r}")
                    return
        except Violation as exc:
            failures.append(f"in one of {len(alone)} threads: {exc}")
        except Exception as exc:  # noqa: BLE001
            failures.append(f"{op['f']} in one of {len(alone)} threads raised {exc!r}")

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [threading.Thread(target=work, args=(i,), daemon=True)
                   for i in range(len(alone))]
        for t in threads:
            t.start()
        for t in threads:
            t.join(200)
            expect(not t.is_alive(), "a thread does not finish")
    finally:
        sys.setswitchinterval(old)
    expect(not failures, failures[0] if failures else "")
    for a, b in zip(pool, keep):
        expect(np.array_equal(a, b), "a shared sample was changed")
    labels = sorted({op["f"] for op in case["tasks"]})
    if len({op["p"] for op in case["tasks"]}) < 2:
        labels.append("same-data")
    return labels


LEGS = [Leg("threads", cases, check, quick=600, thorough=15000),
        Leg("larger", lambda: cases(lo=100, hi=400), check, quick=48, thorough=1200)]
