"""Fixed probes that accompany the seeded search: known findings.

A probe is an ordinary case (plan + schedule) run by the simulator.  A probe
listed in known-findings.txt and failing prints a KNOWN-FINDING line; one that
fails without being listed is a violation like any other.
"""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
KNOWN = os.path.join(os.path.dirname(HERE), "known-findings.txt")

# (kind of atom, value created and held by another client, value then created by the observed client)
EQUAL_PAIRS = [
    ("Val", "0.0", "-0.0"), ("Val", "-0.0", "0.0"),
    ("Val", "1", "True"), ("Val", "True", "1"), ("Val", "1", "1.0"), ("Val", "1.0", "1"),
    ("Val", "(1,)", "(True,)"),
    ("Integer", "1", "True"), ("Integer", "True", "1"),
    # values that are not equal must never be confused
    ("Val", "'1'", "1"), ("Val", "None", "0"), ("Val", "b'x'", "'x'"), ("Val", "(1, 2)", "(2, 1)"),
    ("Val", "1", "2"), ("Integer", "-1", "1"), ("Symbol", "'x'", "'X'"), ("Function", "'f'", "'g'"),
]


def known():
    out = {}
    with open(KNOWN) as f:
        for line in f:
            if line.startswith("known: "):
                d = dict(w.split("=", 1) for w in line[7:].split(" -- ")[0].split())
                out[d["property"], d["key"]] = line.split(" -- ", 1)[1].strip()
    return out


def probe(kind, first, second, how):
    plan = {
        "prop": "P16", "pool": [], "shared": {}, "perturb": 0, "transcript": True, "seed": 0,
        "knobs": {"gap": 0, "p_bound": 0, "p_exc": 0, "p_gc": 0, "exc_span": 6, "exc_kinds": ["interrupt"]},
        "programs": [[{"id": 1, "op": "eqv", "kind": kind, "v": second, "how": how}],
                     [{"id": 2, "op": "eqv", "kind": kind, "v": first, "how": how}]],
    }
    return {"prop": "P16", "seed": 0, "tier": "quick", "cls": 0, "plan": plan, "acts": [[0, 1, [[0, "sw", 1]]]]}


def equal_values(check, runner, extra):
    listed = known()
    done = failed = 0
    code = 0
    for kind, a, b in EQUAL_PAIRS:
        key = f"{kind}:{a}:{b}".replace(" ", "")
        case = probe(kind, a, b, 0)
        v, _ = runner.run(case)
        done += 1
        if v is None:
            continue
        failed += 1
        if v[0] == "P16:differs" and ("P16", key) in listed:
            print(f"KNOWN-FINDING: property=P16 {key}: {listed['P16', key]}")
            continue
        out = os.environ.get("DST_REPLAYS") or os.path.join(os.path.dirname(HERE), "replays")
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, "P16-" + "".join(ch if ch.isalnum() else "_" for ch in key) + ".json")
        with open(path, "w") as f:
            json.dump({"property": "P16", "violation": v[0], "message": v[1], "kind": "trace", "case": case}, f)
        print(f"{v[0]}: {v[1]}")
        print(f"VIOLATION property=P16 replay={path}")
        code = 1
    extra["fixed_probes"] = {"run": done, "failed_and_listed_as_known": failed if not code else None}
    return code


SPECIAL = {"P16": [equal_values]}
