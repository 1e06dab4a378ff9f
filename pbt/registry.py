"""All checks by property id."""
import importlib

PROPS = {}
for _m in ("p_struct", "p_tokens", "p_xml", "p_run"):
    try:
        _m = importlib.import_module("pbt." + _m)
    except ModuleNotFoundError:
        continue
    for _k, _v in sorted(vars(_m).items()):
        if len(_k) == 3 and _k[0] == "C" and _k[1:].isdigit():
            PROPS[_k] = _v()
