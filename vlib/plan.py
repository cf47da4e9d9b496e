"""Case plans. Imports no code under test: a property module keeps `cases`,
RULE, MUST, ... importable without fast_bss_eval (checks import it lazily
through vlib.lib inside the workers)."""
import importlib


def _mod(prop):
    return importlib.import_module(f"vlib.props.{prop.lower()}")


def cases(prop, tier, seed):
    out = []
    for i, c in enumerate(_mod(prop).cases(tier, seed)):
        out.append(c)
    return out


def default_lanes(here, tier):
    return [{"name": "main"}]


def meta(prop):
    m = _mod(prop)
    return {
        "rule": m.RULE,
        "assumptions": getattr(m, "ASSUMPTIONS", []),
        "lanes": getattr(m, "lanes", default_lanes),
        "must": getattr(m, "MUST", []),
        "cap": getattr(m, "CAP", {"quick": 240, "thorough": 3000}),
        "timeout": getattr(m, "TIMEOUT", {"quick": 240, "thorough": 600}),
    }
