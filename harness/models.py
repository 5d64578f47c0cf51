"""The bounded models of the specification and the properties they belong to."""
import alphabets


def jobs(prop, seed, tier, limit):
    out = []
    for model, parts in alphabets.USES.get(prop, {}).items():
        for k in range(parts):
            out.append((f"model {model} {k}", ["mc.py", model, prop, str(seed), tier, str(k), str(parts)], limit, {"PYTHONHASHSEED": str(1 + k)}))
    return out
