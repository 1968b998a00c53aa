"""Executes plans: one plan = one exactly repeatable run."""
import gc
import hashlib
import os
import shutil
import sys
import tempfile
import traceback
import warnings

warnings.filterwarnings("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")


def boot(backend):
    os.environ["KERAS_BACKEND"] = backend
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    sys.path.insert(0, HERE)
    import keras

    keras.mixed_precision.set_dtype_policy("float32")
    keras.config.disable_traceback_filtering() if hasattr(keras.config, "disable_traceback_filtering") else None
    import faults

    faults.patch_locks(src)
    import decomon
    import decomon.wrapper_with_tuning  # noqa
    import decomon.metrics.loss  # noqa

    assert os.path.realpath(decomon.__file__).startswith(os.path.realpath(src)), decomon.__file__
    faults.setup(src)
    return keras


def make_plan(prop, backend, seed, tier):
    import nets
    import registry as props
    from rng import Rng

    nets.CF = backend != "tensorflow"
    rng = Rng("plan", prop, backend, seed)
    ops = props.PLANS[prop](rng, tier)
    plan = {"prop": prop, "backend": backend, "seed": seed, "ops": ops}
    if Rng("precision", prop, backend, seed).chance(0.3):
        plan["floatx"] = "float64"
    return plan


def execute(plan, keras, start=0, state=None, tmp=None):
    """Returns a dict: outcome ok|violation|harness, digest, stats, observations.

    With start, the first operations are those of another process, which left the directory tmp and the state.
    """
    import elsewhere
    import registry as props
    from engine import HarnessError, Violation

    keras.backend.clear_session()
    gc.collect()
    if not gc.get_freeze_count():
        gc.freeze()  # what was imported is not looked at again: collections inside runs are cheap
    keras.utils.set_random_seed(1234)
    keras.config.set_image_data_format("channels_last")
    own = tmp is None
    if own:
        tmp = tempfile.mkdtemp(prefix="sim_")
    fx = plan.get("floatx", "float32")
    keras.config.set_floatx(fx)
    keras.mixed_precision.set_dtype_policy(fx)
    w = props.WORLDS[plan["prop"]](plan, keras, tmp)
    if state is not None:
        w.come_up(state)
    res = {"outcome": "ok"}
    i = -1
    rest = None
    try:
        for i, op in enumerate(plan["ops"]):
            if i < start:
                continue
            w.cur = i
            r = w.run_op(op)
            w.note(i, op["op"], r)
            if hasattr(w, "after") and r != "skip":
                w.after(op)
            if op.get("elsewhere") and not start:
                rest = elsewhere.finish(plan, i + 1, w.go_down(), tmp)
                break
        if rest is None and hasattr(w, "final"):
            i = len(plan["ops"])
            w.final()
    except Violation as v:
        res.update(outcome="violation", what=v.what, info=v.info, op_index=i,
                   op=plan["ops"][i]["op"] if 0 <= i < len(plan["ops"]) else "end of run")
    except HarnessError as e:
        res.update(outcome="harness", what=str(e), op_index=i)
    except Exception as e:  # noqa
        files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        inside = any(os.path.realpath(f).startswith(os.path.realpath(os.path.join(REPO, "src"))) for f in files)
        # every call made outside of w.lib() is one that must succeed too
        res.update(outcome="violation" if inside else "harness", what=("a library call failed: " if inside else "")
                   + f"{type(e).__name__}: {str(e)[:300]}", tb=traceback.format_exc()[-3000:], op_index=i,
                   op=plan["ops"][i]["op"] if 0 <= i < len(plan["ops"]) else "end of run")
    finally:
        if hasattr(w, "close"):
            w.close()
        if own:
            shutil.rmtree(tmp, ignore_errors=True)
    res["digest"] = w.digest.hexdigest()
    res["stats"] = w.stats
    res["ran"] = w.ran
    res["observations"] = w.observations
    res["schedules"] = w.schedules
    if rest is not None:
        res.update({k: v for k, v in rest.items() if k in ("outcome", "what", "info", "op_index", "op", "tb")})
        if "digest" in rest:
            res["digest"] = hashlib.sha256((res["digest"] + rest["digest"]).encode()).hexdigest()
            res["stats"] = merge(res["stats"], rest["stats"])
            res["ran"] = res["ran"] + rest["ran"]
            res["observations"] = res["observations"] + rest["observations"]
            res["schedules"].update(rest["schedules"])
    return res


def merge(a, b):
    """Statistics of the two parts of a run."""
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: (max(a[k], b[k]) if k.startswith("max") else merge(a[k], b[k])) if k in a and k in b else a.get(k, b.get(k))
                for k in {**a, **b}}
    if isinstance(a, bool) or isinstance(a, str) or a is None:
        return b
    return a + b
