"""One simulated run, inside a forked child."""

import gc
import json
import os
import random
import sys

from . import engine, gen, ops, world

NEED_LLVM = {"P02", "P03", "P09", "P13"}
NEED_SYMPY = {"P03", "P11", "P13", "P16"}
WALL = 150

# which oracles are armed for which property
CHECKS = {f"P{i:02d}": [f"P{i:02d}"] for i in range(1, 17)}
CHECKS["P13"] = ["P13", "P01", "P02", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P14", "P15"]
CHECKS["P16"] = ["P16"]


def warm():
    """Touch what children will touch, so that first-use effects are gone."""
    p = gen.Gen("P15", 0, "quick").plan()
    json.dumps(p)


def emit(res):
    data = (json.dumps(res, separators=(",", ":")) + "\n").encode()
    while data:
        k = os.write(1, data)
        data = data[k:]


def child(req):
    kind = req[:1]
    if kind == b"S":  # seed
        prop, seed, tier, mode = req[1:].decode().split()[:4]
        r = {"prop": prop, "seed": int(seed), "tier": tier, "mode": mode}
    else:  # file
        with open(req[1:].decode().strip()) as f:
            r = json.load(f)
    execute(r)


def execute(r):
    prop = r["prop"]
    plan = r.get("plan")
    if plan is None:
        plan = gen.Gen(prop, r["seed"], r["tier"]).plan()
        if r.get("mode") == "solo":
            plan["programs"] = plan["programs"][:1]
            plan["knobs"].update(p_exc=0, p_gc=0, p_fin=0)
        plan["seed"] = r["seed"]
    acts = r.get("acts")
    rng = None
    if acts is None:
        rng = random.Random(f"sched/{prop}/{r['seed']}")
    else:
        acts = {(c, o): a for c, o, a in acts}
    keep = [object() for _ in range(plan.get("perturb", 0))] + [[None] * (k % 5) for k in range(plan.get("perturb", 0))]
    limit = 1_500_000
    if any(o["op"] == "big" for p in plan["programs"] for o in p) or any(
            d[0] == "@" and len(d[1]) > 24 for d in plan.get("pool", ())):
        limit = 30_000_000  # differentiating a term of many operands is quadratic
    W = None

    def result(status, **kw):
        st = dict(sim.stats)
        res = {"status": status, "digest": sim.digest, "stats": st, "seed": r.get("seed"),
               "clients": len(plan["programs"])}
        if W is not None:
            res["cut"] = W.cut
            res["raced"] = W.raced
            res["checked"] = W.checked
            res["skipped"] = W.skipped
        res["sites"] = sorted(sim.sites)
        if prop == "P13":
            res["failed"] = sim.failed
        res.update(kw)
        return res

    def on_fail(cls, msg, c):
        tr = [[k[0], k[1], v] for k, v in sim.trace.items()]
        if cls == "HARNESS":
            emit(result("harness", msg=msg))
        else:
            if cls == "unexpected-error":
                cls = f"{prop}:unexpected-error"
            plan2 = dict(plan)
            emit(result("violation", cls=cls, msg=msg[:3000], plan=plan2, acts=tr,
                        client=c.id if c else None, opid=c.opid if c else None))
        os._exit(0)

    sim = engine.SIM = engine.Sim(plan["knobs"], rng, acts, on_fail, op_limit=limit)
    checks = frozenset(r.get("checks") or CHECKS[prop])
    try:
        W = world.World(plan, sim, checks)
        if plan.get("sympy"):
            import protosym.simplecas.sympy_conversions  # noqa
        if any(o["op"] == "leak" for p in plan["programs"] for o in p):
            gc.unfreeze()
        base = {id(o): o for o in W.live()} if "P03" in checks else None
        ops.setup(W)
    except engine.Violation:
        return
    except Exception as e:
        import traceback
        on_fail(f"{prop}:setup", "".join(traceback.format_exception(e))[-1500:], None)
    sys.setswitchinterval(1000)
    before = world.settings()
    sim.run(plan["programs"], ops.body(W))
    W.closing = True
    W.drain()
    for what, now in world.settings().items():
        if now != before[what]:
            for p in ("P13", "P16", "P03") if what.startswith("garbage") else ("P13", "P16"):
                W.bad(p, "left-behind", f"after all operations {what}: {before[what]} has become {now}")
    final = getattr(ops, "final_checks", None)
    if final:
        final(W)
    if base is not None:
        ops.closing_checks(W, base)
    out = {}
    if plan.get("transcript"):
        out["transcript"] = W.transcripts
        out["observed"] = [o["id"] for o in plan["programs"][0]]
    if r.get("want_trace"):
        out["acts"] = [[k[0], k[1], v] for k, v in sim.trace.items()]
        out["plan"] = plan
    emit(result("ok", **out))
