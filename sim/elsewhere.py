"""Another process, with another hash seed, in which a run goes on after a restart: only files cross over.

The helper is started at its first use, and lives as long as the worker that started it.
"""
import atexit
import os
import pickle
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
_helper = None


def _read(f):
    head = f.read(4)
    if len(head) < 4:
        return None
    return pickle.loads(f.read(struct.unpack("<I", head)[0]))


def _write(f, obj):
    b = pickle.dumps(obj)
    f.write(struct.pack("<I", len(b)) + b)
    f.flush()


def _stop():
    global _helper
    if _helper is not None:
        _helper.kill()
        _helper.wait()
        _helper = None


def finish(plan, start, state, tmp, cwd=None):
    """Runs the operations of the plan from number start on. Returns what runner.execute returns."""
    global _helper
    if _helper is None:
        env = dict(os.environ)
        own = env.get("PYTHONHASHSEED", "0")
        env["PYTHONHASHSEED"] = str((int(own) if own.isdigit() else 0) + 4242)
        env["KERAS_BACKEND"] = plan["backend"]
        _helper = subprocess.Popen([sys.executable, os.path.join(HERE, "elsewhere.py"), plan["backend"]],
                                   stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
        atexit.register(_stop)
    try:
        _write(_helper.stdin, (plan, start, state, tmp))
        r = _read(_helper.stdout)
    except OSError:
        r = None
    if r is None:
        _stop()
        return {"outcome": "harness", "what": "the second process ended", "op_index": start}
    return r


def serve(backend):
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)  # nothing else writes among the answers
    import runner

    keras = runner.boot(backend)
    while True:
        req = _read(sys.stdin.buffer)
        if req is None:
            break
        plan, start, state, tmp = req
        r = runner.execute(plan, keras, start=start, state=state, tmp=tmp)
        _write(out, r)


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    serve(sys.argv[1])
    sys.stdout.flush()
    os._exit(0)
