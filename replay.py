"""Replays a counterexample (or validates witnesses, --serve) on the real code, no solver.

    /opt/venv/bin/python /verif/replay.py FILE    exit 1 when the violation reproduces
"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

from sx.native import run_native  # noqa: E402
from sx.state import State  # noqa: E402


def lookup(module, case, tier):
    m = importlib.import_module("props." + module)
    for c in m.cases(tier):
        if c[0] == case:
            return c
    raise SystemExit("unknown case %s in %s" % (case, module))


def serve():
    import logging

    logging.disable(logging.CRITICAL)
    out = os.fdopen(os.dup(1), "w")
    sys.stdout = sys.stderr
    cache = {}
    state = None
    for line in sys.stdin:
        q = json.loads(line)
        k = (q["module"], q["tier"], q["case"])
        if k not in cache:
            cache[k] = lookup(q["module"], q["case"], q["tier"])
        c = cache[k]
        if state is None:
            state = State()
        state.restore()
        st, msg, obs = run_native(c[1], c[2], q["witness"], q.get("known", ()), state)
        out.write(json.dumps([st, msg, obs]) + "\n")
        out.flush()


def main():
    if sys.argv[1] == "--serve":
        return serve()
    with open(sys.argv[1]) as f:
        q = json.load(f)
    c = lookup(q["module"], q["case"], q["tier"])
    st, msg, obs = run_native(c[1], c[2], q["witness"], (), State())
    print("case %s of %s" % (q["case"], q["property"]))
    for k, v in q["witness"].items():
        if isinstance(v, list):
            v = "".join(map(chr, v))
        print("  %s = %r" % (k, v))
    for label, v in obs:
        print("  observed %s: %s" % (label, v))
    print("%s %s" % (st, msg))
    sys.exit(1 if st == "fail" else 0)


if __name__ == "__main__":
    main()
