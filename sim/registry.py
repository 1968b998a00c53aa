"""Worlds and plan generators by property."""
import props
import props2

WORLDS, PLANS = {}, {}
for _m in (props, props2):
    for _k, _v in vars(_m).items():
        if len(_k) == 3 and _k[0] == "C" and isinstance(_v, type):
            WORLDS[_k] = _v
        elif _k.startswith("plan_C"):
            PLANS[_k[5:]] = _v
