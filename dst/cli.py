"""The checks: seeded search, minimisation, replay, evidence.

  check PROP [quick|thorough]     exit 0 / exit 1 + VIOLATION line / exit 2 = harness error
  check --replay FILE             re-execute a replay file in a fresh process
  check --selftest [N]            determinism of the simulator
"""

import collections
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CLASSES = 8  # hash-seed classes; run i belongs to class i % 8 whatever the machine

# number of runs per tier
RUNS = {
    "P01": (16000, 160000), "P02": (8000, 80000), "P03": (8000, 80000), "P04": (10400, 100000),
    "P05": (12000, 100000), "P06": (11200, 120000), "P07": (7200, 60000), "P08": (10400, 80000),
    "P09": (5600, 40000), "P10": (9600, 80000), "P11": (8800, 70000), "P12": (2800, 24000),
    "P13": (7200, 60000), "P14": (8800, 70000), "P15": (12000, 120000), "P16": (4800, 40000),
}
QUICK_SECONDS = 480  # no new runs after this long, on a slow machine
SPREAD = 10_000_019
STAT_FAULTS = {
    "f_interrupt": "KeyboardInterrupt at an instruction",
    "f_memory": "MemoryError at an instruction",
    "f_recursion": "RecursionError (lowered limit)",
    "f_callback": "exception from caller-supplied function",
    "f_import": "optional dependency fails to import",
    "f_gc": "cyclic collection at an instruction",
    "gc_ops": "cyclic collection between operations",
    "f_reenter": "library re-entered at an instruction (finaliser or signal handler)",
    "finalizer_reentry": "finaliser re-entering the library",
    "inflight_switches": "preemption inside an operation",
}


class HarnessError(Exception):
    pass


class HungRun(HarnessError):
    pass


_aslr = None


def no_aslr():
    global _aslr
    if _aslr is None:
        _aslr = []
        exe = shutil.which("setarch")
        if exe:
            cmd = [exe, os.uname().machine, "-R"]
            try:
                if subprocess.run(cmd + ["true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20).returncode == 0:
                    _aslr = cmd
            except Exception:
                pass
    return _aslr


class Zygote:
    """One warmed-up process; requests are answered one at a time."""

    def __init__(self, prop, cls, hashseed=None):
        env = {k: v for k, v in os.environ.items()
               if not k.startswith(("PYTHON", "DST_", "VERIF_", "LD_PRELOAD", "MALLOC_"))}
        env.update(PYTHONHASHSEED=str(cls if hashseed is None else hashseed), OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                   MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8")
        if os.environ.get("DST_DEBUG"):
            env["DST_DEBUG"] = "1"
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(no_aslr() + [sys.executable, "-m", "dst.zygote", SRC, prop], cwd=ROOT,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=None if os.environ.get("DST_DEBUG") else self.err, env=env)
        self.cls = cls

    def ask(self, text):
        req = text.encode()
        assert len(req) <= 256, text
        try:
            self.p.stdin.write(req.ljust(256))
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = b""
        if not line:
            self.p.wait()
            self.err.seek(0)
            raise HarnessError("simulator process ended: " + self.err.read().decode(errors="replace")[-3000:])
        try:
            r = json.loads(line)
        except ValueError:
            # a dying child can leave a partial line; the parent's line follows
            i = line.rfind(b'{"status":"died"')
            if i < 0:
                raise HarnessError("unreadable result: " + line[:300].decode(errors="replace"))
            r = json.loads(line[i:])
        return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.stdout.close()
        except Exception:
            pass
        try:
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.err.close()


def seed_req(prop, seed, tier, mode="full"):
    return f"S{prop} {seed} {tier} {mode}"


def outcome(prop, r):
    """(class, message) of a result, or None if fine.  Raises on harness errors."""
    st = r["status"]
    if st == "ok":
        return None
    if st == "violation":
        return r["cls"], r["msg"]
    if st == "harness":
        raise HarnessError(r.get("msg", "")[-3000:])
    if st == "died":
        sig = r["signal"]
        if sig in (4, 6, 7, 8, 11):
            return f"{prop}:crash", f"the process was killed by signal {sig}"
        if sig == 14:
            raise HungRun(f"a run was stopped by the wall clock: {r}")
        raise HarnessError(f"a run ended abnormally: {r}")
    raise HarnessError(str(r)[:500])


# ---------------------------------------------------------------------------
# one property-specific layer above "run once": P16 compares two runs,
# P13 needs the fault to be what makes the difference
# ---------------------------------------------------------------------------


def p16_compare(full, solo):
    if full.get("raced"):
        return None
    for opid in full.get("observed", []):
        k = str(opid)
        a, b = full["transcript"].get(k), solo["transcript"].get(k)
        if a != b:
            return "P16:differs", f"operation {opid} observed {json.dumps(a)[:900]} in company, but {json.dumps(b)[:900]} alone in a fresh process"
    return None


class Runner:
    """Runs cases of one property, for search, minimisation and replay."""

    def __init__(self, prop, tier, tmp):
        self.prop = prop
        self.tier = tier
        self.tmp = tmp
        self.z = {}
        self.n = 0
        self.lock = threading.Lock()

    def zyg(self, cls, lane=0):
        with self.lock:
            z = self.z.get((cls, lane))
            if z is None:
                z = self.z[cls, lane] = Zygote(self.prop, cls)
        return z

    def close(self):
        for z in self.z.values():
            z.close()
        self.z = {}

    def file_req(self, d):
        with self.lock:
            self.n += 1
            path = os.path.join(self.tmp, f"r{self.n:09d}.json")
        with open(path, "w") as f:
            json.dump(d, f)
        return path

    def ask_file(self, cls, lane, d):
        path = self.file_req(d)
        try:
            return self.zyg(cls, lane).ask("F" + path)
        finally:
            os.unlink(path)

    # a case: {"prop","seed","tier","cls", optional "plan","acts"}
    def run(self, case, lane=0):
        """-> (violation or None, raw result)"""
        prop, cls = self.prop, case["cls"]
        if "plan" not in case:
            r = self.zyg(cls, lane).ask(seed_req(prop, case["seed"], case["tier"]))
        else:
            d = {k: case[k] for k in ("prop", "seed", "tier", "plan", "acts")}
            d["want_trace"] = bool(case.get("want_trace"))
            r = self.ask_file(cls, lane, d)
        v = outcome(prop, r)
        if v is None and prop == "P16" and "transcript" in r:
            solo = self.solo(case, lane)
            v2 = outcome(prop, solo)
            if v2 is not None:
                return v2, solo
            v = p16_compare(r, solo)
        return v, r

    def solo(self, case, lane):
        cls = (case["cls"] + 3) % CLASSES
        if "plan" not in case:
            return self.zyg(cls, lane).ask(seed_req(self.prop, case["seed"], case["tier"], "solo"))
        plan = dict(case["plan"])
        plan["programs"] = plan["programs"][:1]
        plan["knobs"] = dict(plan["knobs"], p_exc=0, p_gc=0, p_fin=0)
        return self.ask_file(cls, lane, {"prop": self.prop, "seed": case["seed"], "tier": case["tier"], "plan": plan, "acts": []})

    def trace(self, case, lane=0):
        """The same run with its decisions written out (or None if it cannot be)."""
        v, r = self.run(case, lane)
        if v is None:
            return None
        if "acts" in r:
            return v, dict(case, plan=r["plan"], acts=r["acts"])
        if self.prop == "P16" and v[0] == "P16:differs":
            r = self.ask_file(case["cls"], lane, {"prop": self.prop, "seed": case["seed"], "tier": case["tier"], "want_trace": True})
            if "acts" in r:
                c2 = dict(case, plan=r["plan"], acts=r["acts"])
                v2, _ = self.run(c2, lane)
                if v2 and v2[0] == v[0]:
                    return v2, c2
        return v, None


# ---------------------------------------------------------------------------
# P13: would it also have happened without the failures?
# ---------------------------------------------------------------------------


def strip_failures(case, failed, keep):
    plan = json.loads(json.dumps(case["plan"]))
    failed = set(failed) - {keep}
    progs = []
    for p in plan["programs"]:
        ops = []
        for o in p:
            if o["id"] in failed:
                continue
            for k in ("rl", "imp", "raise_at", "retry", "kf", "fi"):
                o.pop(k, None)
            ops.append(o)
        progs.append(ops)
    plan["programs"] = progs
    plan["knobs"] = dict(plan["knobs"], p_exc=0)
    acts = [[c, o, [a for a in al if a[1] != "exc"]] for c, o, al in case["acts"]]
    return dict(case, plan=plan, acts=acts)


def p13_caused_by_failure(runner, case, r, v):
    """False if the same thing happens when nothing fails."""
    if v[0].startswith("P13:") or "plan" not in r:
        return True
    case = dict(case, plan=r["plan"], acts=r["acts"])
    base = strip_failures(case, r.get("failed", []), r.get("opid"))
    ctrl = [base]
    for k, gap in enumerate((None, None, 2, 6, 20, 60)):
        plan = base["plan"] if gap is None else dict(base["plan"], knobs=dict(base["plan"]["knobs"], gap=gap))
        ctrl.append(dict(base, plan=plan, acts=None, seed=f"{case['seed']}c{k}"))
    for c in ctrl:
        v2, _ = runner.run(c)
        if v2 is not None:
            return False
    return True


# ---------------------------------------------------------------------------
# minimisation
# ---------------------------------------------------------------------------


def all_ops(plan):
    return [o["id"] for p in plan["programs"] for o in p]


def only_ops(case, keep):
    plan = dict(case["plan"])
    plan["programs"] = [[o for o in p if o["id"] in keep] for p in plan["programs"]]
    acts = [[c, o, al] for c, o, al in case["acts"] if o in keep]
    return dict(case, plan=plan, acts=acts)


def flat_acts(case):
    return [(c, o, tuple(a)) for c, o, al in case["acts"] for a in al]


def with_acts(case, fa):
    d = {}
    for c, o, a in fa:
        d.setdefault((c, o), []).append(list(a))
    return dict(case, acts=[[c, o, al] for (c, o), al in d.items()])


class Shrinker:
    def __init__(self, runner, case, cls, budget, lanes, extra=None):
        self.runner, self.case, self.cls = runner, case, cls
        self.end = time.time() + budget
        self.lanes = lanes
        self.tried = 0
        self.extra = extra  # further condition on (case, result, violation)

    def ok(self, case, lane=0):
        try:
            v, r = self.runner.run(case, lane)
        except HarnessError:
            return False
        if v is None or v[0] != self.cls:
            return False
        return self.extra is None or self.extra(case, r, v)

    def first(self, cands):
        """First candidate (in order) that still fails, evaluated in parallel."""
        for i in range(0, len(cands), self.lanes):
            if time.time() > self.end:
                return None
            batch = cands[i:i + self.lanes]
            res = [False] * len(batch)

            def go(j):
                res[j] = self.ok(batch[j], j)
            ts = [threading.Thread(target=go, args=(j,)) for j in range(len(batch))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            self.tried += len(batch)
            for j, good in enumerate(res):
                if good:
                    return batch[j]
        return None

    def ddmin(self, items, make):
        n = 2
        items = list(items)
        while items and time.time() < self.end:
            k = max(1, len(items) // n)
            chunks = [items[i:i + k] for i in range(0, len(items), k)]
            got = None
            cands = []
            for ch in chunks:
                s = set(map(repr, ch))
                rest = [x for x in items if repr(x) not in s]
                cands.append(make(rest))
            got = self.first(cands)
            if got is not None:
                self.case = got
                j = cands.index(got)
                s = set(map(repr, chunks[j]))
                items = [x for x in items if repr(x) not in s]
                n = max(2, n - 1)
            elif k == 1:
                return items
            else:
                n = min(len(items), n * 2)
        return items

    def run(self):
        for _ in range(3):
            before = (len(all_ops(self.case["plan"])), len(flat_acts(self.case)))
            # whole clients
            nprog = len(self.case["plan"]["programs"])
            cands = []
            for i in range(nprog):
                p = self.case["plan"]["programs"]
                if p[i]:
                    cands.append(only_ops(self.case, {o["id"] for j, q in enumerate(p) if j != i for o in q}))
            got = self.first(cands)
            if got:
                self.case = got
            self.ddmin(all_ops(self.case["plan"]), lambda keep: only_ops(self.case, set(keep)))
            self.ddmin(flat_acts(self.case), lambda fa: with_acts(self.case, fa))
            self.simplify()
            if (len(all_ops(self.case["plan"])), len(flat_acts(self.case))) == before:
                break
            if time.time() > self.end:
                break
        return self.case

    def simplify(self):
        """Drop per-operation extras and unused shared objects."""
        case = self.case
        cands = []
        for ip, p in enumerate(case["plan"]["programs"]):
            for io, o in enumerate(p):
                for k in ("rl", "imp", "retry", "raise_at", "kf", "fi", "mut", "re", "s"):
                    if k in o and o[k] is not None:
                        plan = json.loads(json.dumps(case["plan"]))
                        plan["programs"][ip][io].pop(k)
                        cands.append(dict(case, plan=plan))
        for name in case["plan"].get("shared", {}):
            plan = json.loads(json.dumps(case["plan"]))
            del plan["shared"][name]
            cands.append(dict(case, plan=plan))
        while cands and time.time() < self.end:
            got = self.first(cands)
            if got is None:
                return
            self.case = got
            return self.simplify() if time.time() < self.end else None


# ---------------------------------------------------------------------------
# a check
# ---------------------------------------------------------------------------


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        i = 0 if tier == "quick" else 1
        self.runs = int(os.environ.get("DST_RUNS", 0)) or RUNS[prop][i]
        self.tmp = tempfile.mkdtemp(prefix="dst-")
        self.stats = collections.Counter()
        self.digests = set()
        self.sites = bytearray(1 << 17)
        self.samples = []
        self.unattributed = 0
        self.found = []
        self.errors = []
        self.lock = threading.Lock()
        self.next = [0] * CLASSES
        self.stop = False
        self.done = 0
        self.t0 = time.time()

    def case(self, i):
        return {"prop": self.prop, "seed": self.seed * SPREAD + i, "tier": self.tier, "cls": i % CLASSES}

    def note(self, i, r):
        st = r.get("stats", {})
        with self.lock:
            self.done += 1
            for k, v in st.items():
                self.stats[k] += v
            for k in ("cut", "checked", "skipped"):
                self.stats[k] += r.get(k) or 0
            self.stats["clients"] += r.get("clients", 0)
            if any(st.get(k) for k in STAT_FAULTS):
                self.digests.add(r.get("digest"))
                self.stats["nontrivial"] += 1
            for s in r.get("sites", ()):
                self.sites[s >> 3 & 0x1FFFF] |= 1 << (s & 7)

    def lane(self, w, runner):
        try:
            for i in range(w, self.runs, CLASSES):
                if self.stop:
                    return
                if self.tier == "quick" and time.time() > self.t0 + QUICK_SECONDS:
                    self.stats["time_limit"] = 1
                    return
                case = self.case(i)
                try:
                    v, r = runner.run(case, 100 + w)
                except HungRun:
                    # the machine stalled or the simulator did: no verdict from this run
                    with self.lock:
                        self.stats["hung"] += 1
                        if self.stats["hung"] > 2:
                            raise
                    continue
                if r.get("status") != "died":
                    self.note(i, r)
                else:
                    with self.lock:
                        self.done += 1
                if v is not None:
                    if self.prop == "P13" and not p13_caused_by_failure(runner, case, r, v):
                        with self.lock:
                            self.unattributed += 1
                        continue
                    with self.lock:
                        self.found.append((i, v, case, r))
                        self.stop = True
                    return
        except HarnessError as e:
            with self.lock:
                self.errors.append((i, str(e)))
                self.stop = True
        except Exception:
            import traceback
            with self.lock:
                self.errors.append((i, traceback.format_exc()))
                self.stop = True

    def search(self, runner):
        ts = [threading.Thread(target=self.lane, args=(w, runner)) for w in range(CLASSES)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def resample(self, runner):
        """The same seeds again, in another order: same executions?"""
        n = min(2 * CLASSES, self.runs)
        same = 0
        for i in reversed(range(n)):
            case = self.case(i)
            z = runner.zyg(case["cls"], 100 + i % CLASSES)
            a = z.ask(seed_req(self.prop, case["seed"], self.tier))
            b = z.ask(seed_req(self.prop, case["seed"], self.tier))
            same += a == b
        return n, same

    def go(self):
        t0 = time.time()
        runner = Runner(self.prop, self.tier, self.tmp)
        try:
            self.search(runner)
            t1 = time.time()
            if self.found:
                return self.report(runner, t0)
            if self.errors:
                i, msg = self.errors[0]
                print(f"HARNESS ERROR in run {i} of {self.prop}: {msg}", file=sys.stderr)
                return 2
            rs = self.resample(runner)
            extra = {}
            code = 0
            from . import special
            for fn in special.SPECIAL.get(self.prop, ()):
                code = max(code, fn(self, runner, extra))
            self.evidence(t0, t1 - t0, rs, extra, 0 if code == 0 else 1)
            return code
        finally:
            runner.close()
            shutil.rmtree(self.tmp, ignore_errors=True)

    def report(self, runner, t0):
        i, v, case, r = min(self.found, key=lambda x: x[0])
        path, shown = minimise(self, runner, case, r, v)
        self.evidence(t0, time.time() - t0, (0, 0), {}, 1)
        print(f"run {i}: {v[0]}: {v[1][:1500]}")
        print(shown)
        print(f"VIOLATION property={self.prop} replay={path}")
        return 1

    def evidence(self, t0, search_s, rs, extra, violations):
        st = self.stats
        bits = sum(bin(b).count("1") for b in self.sites)
        cov = {
            "evaluations": self.done,
            "distinct_nontrivial": len(self.digests),
            "rule": "one evaluation = one simulated run (programs, schedule and faults generated from one seed); "
                    "non-trivial = at least one preemption inside an operation or one injected fault; "
                    "distinct = different digests of the sequence of scheduling and fault decisions",
            "samples": self.samples_of(runner_free=True),
            "seed_base": self.seed * SPREAD,
            "runs_planned": self.runs,
            "stopped_by_time_limit": bool(st["time_limit"]),
            "runs_without_verdict": st["hung"],
            "runs_per_hour": round(self.done / max(search_s, 1e-9) * 3600),
            "simulated_time_instructions": st["events"],
            "operations": st["ops"],
            "oracle_checked_operations": st["checked"],
            "operations_cut_short_by_faults": st["cut"],
            "faults_swallowed_with_correct_result_required": st["swallowed"],
            "fault_kinds": {d: st[k] for k, d in STAT_FAULTS.items()},
            "context_switches": st["switches"],
            "lock_waits": st["blocked"],
            "distinct_switch_site_pairs": bits,
            "distinct_switch_site_pairs_rule": "pairs (instruction preempted, instruction resumed), hashed to 2^20 buckets, over all runs",
            "determinism_resampled_runs": rs[0],
            "determinism_identical": rs[1],
            "hash_seed_classes": CLASSES,
            "address_randomisation_off": bool(no_aslr()),
            "components_real": REAL,
            "components_stubbed": STUB,
        }
        cov.update(extra)
        if self.prop == "P13":
            cov["violations_of_other_properties_not_caused_by_failures"] = self.unattributed
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": cov,
            "assumptions": ASSUME,
            "wall_s": round(time.time() - t0, 2),
            "violations": violations,
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")

    def samples_of(self, runner_free=True):
        from . import gen, lexicon
        lexicon.load(SRC)
        out = []
        for i in (0, 1):
            plan = gen.Gen(self.prop, self.seed * SPREAD + i, self.tier).plan()
            out.append({"seed": self.seed * SPREAD + i, "hash_seed": i % CLASSES, "knobs": plan["knobs"],
                        "pool_terms": len(plan["pool"]), "shared": list(plan["shared"]),
                        "programs": [[{k: v for k, v in o.items() if k != "id"} for o in p[:6]] for p in plan["programs"]]})
        return out


REAL = ["protosym (every module, from the working tree)", "CPython's weakref dictionaries, reference counting and cyclic collector",
        "Python threads (one running at a time)", "import system", "numpy", "llvmlite/LLVM (P09, P13)", "SymPy (P11, P13, P16)"]
STUB = ["thread scheduler (seeded, per instruction)", "locks created by or for protosym (simulated)",
        "automatic collection (off; seeded instead)", "signal delivery and allocation failure (injected exceptions)",
        "clients, rule functions and finalisers (generated)"]
ASSUME = ["CPython 3.12 with the GIL: C functions without Python callbacks are atomic",
          "MemoryError and KeyboardInterrupt surface where CPython polls (call returns, backward jumps, function entry), not inside C code",
          "the reference model in dst/model.py is right"]


def describe(case):
    lines = []
    plan = case["plan"]
    from .model import Model
    m = Model.load(plan["pool"])
    for name, d in plan.get("shared", {}).items():
        lines.append(f"  shared {name}: " + json.dumps({k: v for k, v in d.items()})[:300])
    used = set()

    def terms(o):
        out = []
        for k, v in o.items():
            if k in ("t", "x", "a", "b", "h") and isinstance(v, int) and not isinstance(v, bool) and v < len(m.terms):
                out.append(f"{k}: {m.terms[v]}")
        return "   # " + ", ".join(out) if out else ""
    for i, p in enumerate(plan["programs"]):
        for o in p:
            a = [x for c, oid, al in (case["acts"] or []) if c == i and oid == o["id"] for x in al]
            lines.append(f"  client {i}: {json.dumps({k: v for k, v in o.items()})}{terms(o)}"[:600])
            for n, kind, arg in a:
                what = {"sw": f"switch to client {arg}", "gc": "collect garbage", "exc": f"inject {arg}",
                        "fin": f"a finaliser or signal handler uses the library (choice {arg})"}[kind]
                lines.append(f"      at instruction {n}: {what}")
    return "\n".join(lines)


def minimise(check, runner, case, r, v):
    prop = check.prop
    out = os.environ.get("DST_REPLAYS") or os.path.join(ROOT, "replays")
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, f"{prop}-{case['seed']}.json")
    best, shown = None, ""
    try:
        tr = runner.trace(case)
        if tr is not None and tr[1] is not None:
            v2, full = tr
            full = dict(full)
            extra = None
            if prop == "P13":
                def extra(c, r2, v3):
                    return p13_caused_by_failure(runner, c, r2, v3)
            again, _ = runner.run(full)
            if again is not None and again[0] == v2[0]:
                sh = Shrinker(runner, full, v2[0], 45 if check.tier == "quick" else 120, 8, None)
                if extra is not None:
                    sh.lanes = 1
                    sh.extra = extra
                best = sh.run()
                v4, r4 = runner.run(best)
                if v4 is None or v4[0] != v2[0]:
                    best = full
                    v4 = again
                v = v4
                shown = f"minimised to {len(all_ops(best['plan']))} operations and {len(flat_acts(best))} scheduling/fault decisions:\n" + describe(best)
    except Exception as e:
        shown = f"(not minimised: {e!r})"
        best = None
    doc = {"property": prop, "violation": v[0], "message": v[1][:3000]}
    if best is not None:
        doc["kind"] = "trace"
        doc["case"] = best
        with open(path, "w") as f:
            json.dump(doc, f)
        if fresh_replay(path) != v[0]:
            best = None
    if best is None:
        doc["kind"] = "seed"
        doc["case"] = case
        doc["violation"], doc["message"] = v[0], v[1][:3000]
        with open(path, "w") as f:
            json.dump(doc, f)
        got = fresh_replay(path)
        shown += f"\n(replay by seed; fresh process gives {got})"
    return path, shown


def fresh_replay(path):
    with open(path) as f:
        doc = json.load(f)
    tmp = tempfile.mkdtemp(prefix="dst-")
    runner = Runner(doc["property"], doc["case"]["tier"], tmp)
    try:
        v, r = runner.run(doc["case"])
        return v[0] if v else None
    finally:
        runner.close()
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    tmp = tempfile.mkdtemp(prefix="dst-")
    runner = Runner(doc["property"], doc["case"]["tier"], tmp)
    try:
        v, r = runner.run(doc["case"])
    finally:
        runner.close()
        shutil.rmtree(tmp, ignore_errors=True)
    if doc["kind"] == "trace":
        print(describe(doc["case"]))
    if v is None:
        print("not reproduced")
        return 0
    print(f"{v[0]}: {v[1]}")
    print("same violation" if v[0] == doc["violation"] else f"different violation (recorded: {doc['violation']})")
    print(f"VIOLATION property={doc['property']} replay={path}")
    return 1


def selftest(n, props):
    """Same seed, same execution: other process, other order, other number of workers."""
    bad = 0
    for prop in props:
        runs = {}
        for variant in ("a", "b"):
            tmp = tempfile.mkdtemp(prefix="dst-")
            runner = Runner(prop, "quick", tmp)
            res = {}

            def work(lane, idx):
                for i in idx:
                    z = runner.zyg(i % CLASSES, lane)
                    res[i] = z.ask(seed_req(prop, i, "quick"))
            if variant == "a":
                ts = [threading.Thread(target=work, args=(0, range(w, n, CLASSES))) for w in range(CLASSES)]
            else:  # 3 workers, reversed order
                ts = [threading.Thread(target=work, args=(k, [i for i in reversed(range(n)) if i % 3 == k])) for k in range(3)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            runner.close()
            shutil.rmtree(tmp, ignore_errors=True)
            runs[variant] = res
        diff = [i for i in range(n) if runs["a"].get(i) != runs["b"].get(i)]
        bad += len(diff)
        print(f"{prop}: {n} seeds, {len(diff)} differ {diff[:10]}")
    return 1 if bad else 0


def main(argv):
    sys.path.insert(0, ROOT)
    sys.stdout.reconfigure(errors="backslashreplace")
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    if argv and argv[0] == "--selftest":
        return selftest(int(argv[1]) if len(argv) > 1 else 64, argv[2:] or sorted(RUNS))
    if not argv or argv[0] not in RUNS:
        print(__doc__)
        return 2
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return Check(prop, tier, seed).go()
    except HarnessError as e:
        print(f"HARNESS ERROR: {e}", file=sys.stderr)
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
