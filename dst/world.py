"""Bridge between the reference model and the real library, and the oracles
that do not belong to one operation (uniqueness, snapshots, live-set)."""

import gc
import os
import random
import signal
import sys
import weakref

from . import engine
from .engine import SimFault, BIG, mon, TOOL, EV_INSTR
from .model import Model, Key

CUT = object()


class DecodeError(Exception):
    pass


class Cls:
    pass


_lib = None


def settings():
    """Interpreter-wide settings that other code depends on."""
    return {"garbage collection": (gc.isenabled(), gc.get_threshold()), "recursion limit": sys.getrecursionlimit(),
            "switch interval": sys.getswitchinterval(), "digits limit": sys.get_int_max_str_digits(),
            "signal handlers": (signal.getsignal(signal.SIGINT), signal.getsignal(signal.SIGTERM)),
            "hooks": (sys.excepthook, sys.unraisablehook, sys.displayhook), "directory": os.getcwd()}


def own_settings():
    """The same for what each thread has its own of."""
    s = {}
    p = sys.modules.get("sympy.core.parameters")
    p = getattr(p, "global_parameters", None)
    if p is not None:
        s["SymPy's evaluation"] = p.evaluate, p.distribute
    return s


def lib():
    """The public names used (imported once, through the instrumenting loader)."""
    global _lib
    if _lib is None:
        L = Cls()
        import protosym.core.atom as atom
        import protosym.core.tree as tree
        import protosym.core.sym as sym
        import protosym.core.evaluate as evaluate
        import protosym.core.exceptions as cexc
        import protosym.simplecas as sc
        import protosym.simplecas.expr as expr
        import protosym.simplecas.exceptions as sexc
        L.Atom, L.AtomType = atom.Atom, atom.AtomType
        L.Tree, L.Tr = tree.Tree, tree.Tr
        L.tree, L.sym, L.evaluate, L.sc, L.expr = tree, sym, evaluate, sc, expr
        L.Sym, L.Expr = sym.Sym, sc.Expr
        L.NoRule, L.BadRule = cexc.NoEvaluationRuleError, cexc.BadRuleError
        L.ExpressifyError = sexc.ExpressifyError
        L.LLVMNotImplemented = sexc.LLVMNotImplementedError
        engine.instrument(Key.__hash__.__code__)
        engine.instrument(Key.__eq__.__code__)
        _lib = L
    return _lib


class World:
    def __init__(self, plan, sim, checks):
        self.L = lib()
        self.plan = plan
        self.sim = sim
        self.checks = checks
        self.m = Model.load(plan["pool"])
        self.t = self.m.terms  # pool index -> term
        self.reg = {}
        self.rega = {}
        self.regs = {}
        self.gslots = {}
        self.obj = {}
        self.transcripts = {}
        self.reterms = [t for t in self.m.terms if not any(u.kind in ("Star", "Wild") for u in self.m.subterms(t, heads=True))] or [self.m.sym("x")]
        sim.reenter = self.reenter
        self.late = []  # results made by finalisers, to be checked
        self.cut = 0
        self.raced = 0  # operations of the first client cut short by an import that failed elsewhere
        self.checked = 0
        self.skipped = 0
        self.hist = []
        sc = self.L.sc
        self.satype = {
            "Integer": sc.Integer, "Symbol": sc.Symbol, "Function": sc.Function,
            "Sym2": sc.Expr.new_atom("Symbol", str),
            "Key": sc.Expr.new_atom("Key", Key),
            "Val": sc.Expr.new_atom("Val", object),
        }
        self.atype = {k: v.atom_type for k, v in self.satype.items()}
        self.atype["Wild"] = self.L.sym.Wild
        self.kind_of = {id(v): k for k, v in self.atype.items()}
        self.kind_names = {k: repr(v) for k, v in self.atype.items()}
        star = sc.a
        self.star_head = self.L.sym.star(star).rep.children[0]
        self.kind_of[id(self.star_head.value.atom_type)] = "Star"
        self.atype["Star"] = self.star_head.value.atom_type
        self.kind_names["Star"] = repr(self.atype["Star"])

        # rules are registered on the printing tables themselves in this run
        self.printing_rules = any(d.get("builtin") in ("eval_latex", "eval_repr")
                                  for d in plan.get("shared", {}).values())
        self.tok_atom = sc.Symbol("tok").rep

        class MySym(self.L.Sym):
            pass

        class SubExpr(self.L.Expr):
            pass

        # other classes with the same names
        MySym2 = type("MySym", (self.L.Sym,), {"__module__": MySym.__module__, "__qualname__": MySym.__qualname__})
        Expr2 = type("Expr", (self.L.Expr,), {"__module__": self.L.Expr.__module__})

        self.cls = {"Expr": self.L.Expr, "Sym": self.L.Sym, "MySym": MySym, "SubExpr": SubExpr,
                    "MySym2": MySym2, "Expr2": Expr2}

        # whoever keeps an exception keeps its frames (P03)
        self.keep_frames = "P03" in self.checks
        self.cur, self.wrong = None, False
        self.right = set()  # (operation, term) that gave the right answer
        self.spoiled = set()  # terms with a returned container that was changed

    # -- failing ---------------------------------------------------------
    def bad(self, prop, cls, msg):
        """Report a violation if `prop` is one of the properties checked here."""
        if prop in self.checks:
            self.sim.fail(f"{prop}:{cls}", msg)
        self.wrong = True
        if "P02" in self.checks and self.cur in self.right and self.cur[1] in self.spoiled:
            self.sim.fail("P02:handed-back", f"after the caller changed a container it had been handed: {msg}")

    def want(self, *props):
        for p in props:
            if p in self.checks:
                return True
        return False

    # -- running library code inside the simulation -------------------------
    def act(self, c, op, fn, quiet=False):
        rl = op.get("rl") if not quiet else None
        imp = op.get("imp") if not quiet else None
        if (rl is not None or imp is not None) and engine.locks_held():  # no preemption below, so nobody may be waited for
            rl = imp = None
        if rl is not None:
            return self._act_limited(c, op, fn, rl)
        if imp is not None:
            return self._act_noimport(c, op, fn, imp)
        c.inop = True
        try:
            v = fn()
            return True, v
        except engine.Violation:
            raise
        except BaseException as e:
            self.sim.failed.append(op["id"])
            return False, e
        finally:
            c.inop = False

    def _act_limited(self, c, op, fn, rl):
        """Recursion exhaustion: a lowered limit, no preemption meanwhile."""
        depth = 0
        f = sys._getframe()
        while f is not None:
            depth += 1
            f = f.f_back
        old = sys.getrecursionlimit()
        mon.register_callback(TOOL, EV_INSTR, engine._count_only)
        try:
            sys.setrecursionlimit(depth + 3 + rl)
            try:
                v = fn()
                out = True, v
            except BaseException as e:
                out = False, e
            left = sys.getrecursionlimit() - (depth + 3 + rl)
        finally:
            sys.setrecursionlimit(old)
            mon.register_callback(TOOL, EV_INSTR, engine._on_instr)
        if left:
            self.bad("P13", "left-behind", f"{op['op']} left the recursion limit changed by {left}")
        if not out[0]:
            self.sim.failed.append(op["id"])
        if not out[0] and isinstance(out[1], RecursionError):
            c.injected.append(out[1])
            self.sim.stats["f_recursion"] += 1
        return out

    def _act_noimport(self, c, op, fn, name):
        """An optional dependency fails to import, no preemption meanwhile."""
        saved = {k: v for k, v in sys.modules.items() if k == name or k.startswith(name + ".")}
        for k in saved:
            sys.modules[k] = None
        sys.modules[name] = None
        mon.register_callback(TOOL, EV_INSTR, engine._count_only)
        try:
            v = fn()
            out = True, v
        except BaseException as e:
            out = False, e
        finally:
            mon.register_callback(TOOL, EV_INSTR, engine._on_instr)
            for k in [k for k in sys.modules if k == name or k.startswith(name + ".")]:
                del sys.modules[k]
            sys.modules.update(saved)
        if not out[0]:
            self.sim.failed.append(op["id"])
        if not out[0] and isinstance(out[1], ImportError):
            c.injected.append(out[1])
            self.sim.stats["f_import"] += 1
        return out

    def faulted(self, c, e, strict=False):
        inj = c.injected
        if not inj:
            return False
        k = 0
        while e is not None and k < 12:
            for i in inj:
                if e is i:
                    return True
            if strict:
                return False
            e = e.__cause__ or e.__context__
            k += 1
        return False

    def attempt(self, c, op, fn, check, *, passed=()):
        """Run fn under the simulator; if a fault cut it short, optionally repeat
        without faults; otherwise hand the outcome to `check(ok, value)`.
        `passed` are the (what, container, copy) the caller goes on owning:
        nobody may find them changed, while the call runs or after it failed."""
        c.passed = passed, op
        ok, v = self.act(c, op, fn)
        c.passed = None
        if not ok and self.faulted(c, v):
            if not self.faulted(c, v, True):
                self.bad("P13", "error-replaced", f"{opname(op)}: injected {c.injected[-1]!r} surfaced as {v!r}")
                if op["op"] in ("ev", "tf", "read"):
                    self.bad("P04", "error-replaced", f"{opname(op)}: {c.injected[-1]!r} surfaced as {v!r}")
            self.cut += 1
            v = None
            for what, now, before in passed:
                self.untouched(self, op, what, now, before)
            self._forget(c)
            if not op.get("retry"):
                return CUT
            c.next_exc = BIG
            ok, v = self.act(c, op, fn, quiet=True)
            if not ok and (self.faulted(c, v) or self.import_race(v)):  # a replayed act may still hit
                self._forget(c)
                self.raced += c.id == 0
                return CUT
        elif ok and c.injected:
            self.sim.stats["swallowed"] += 1
        elif not ok and self.import_race(v):
            self.cut += 1
            self.raced += c.id == 0
            return CUT
        if not ok and not self.keep_frames:
            v.__traceback__ = None
        self.cur = (op["op"], op.get("t"))
        self.wrong = False
        check(ok, v)
        if not self.wrong and ok and op["op"] in ("fg", "topo", "split", "pr"):
            self.right.add(self.cur)
        self.cur = None
        self.checked += 1
        return v if ok else None

    def in_flight(self):
        """Containers lent to operations that are still running."""
        for c in self.sim.clients:
            p = getattr(c, "passed", None)
            if p:
                for what, now, before in p[0]:
                    self.untouched(self, p[1], what + " while it is in use", now, before)

    def import_race(self, e):
        """CPython hands a module whose import was interrupted in one thread to
        other threads that were waiting for that import."""
        st = self.sim.stats
        return (isinstance(e, (ImportError, AttributeError)) and st["blocked"] > 0
                and st["f_interrupt"] + st["f_memory"] > 0
                and ("cannot import name" in str(e) or "partially initialized" in str(e)))

    def _forget(self, c):
        for e in c.injected if not self.keep_frames else ():
            e.__traceback__ = None
            e.__context__ = None
        # keep the objects (identity matters for later chaining), not the frames

    # -- building ----------------------------------------------------------
    def mk_atom(self, t, r):
        L = self.L
        if t.kind == "Star":
            return self.L.sc.Expr(self.star_head)
        if t.kind == "Wild":
            if r % 2:
                return L.Expr(L.Tr(L.sym.Wild(t.value)))
            return L.Expr.new_wild(t.value)
        r = r % 4
        if r == 0 and t.kind == "Integer":
            return L.sc.expressify(t.value)
        if r == 1:
            return L.Expr(L.Tr(self.atype[t.kind](t.value)))
        if r == 2:
            return L.Expr(L.Tree.atom(L.Atom(self.atype[t.kind], t.value)))
        return self.satype[t.kind](t.value)

    def mk_atom_core(self, t, r):
        L = self.L
        if t.kind == "Star":
            return self.star_head
        a = self.atype[t.kind](t.value) if r % 2 else L.Atom(self.atype[t.kind], t.value)
        return L.Tr(a) if r % 3 else L.Tree.atom(a)

    def mk_app(self, u, memo, r):
        """One user-level compound node; `memo` maps term -> Expr."""
        L = self.L
        h, args = u.ch[0], u.ch[1:]
        r = r % 8
        if r in (1, 2, 3) and h.kind == "Function":
            if h.value == "Add" and len(args) == 2:
                a, b = args
                if (r == 1 and b.ch and len(b.ch) == 3 and b.ch[0].value == "Mul" and b.ch[0].kind == "Function"
                        and b.ch[1].kind == "Integer" and b.ch[1].value == -1):
                    if a.kind == "Integer":
                        return a.value - memo[b.ch[2]]
                    return memo[a] - memo[b.ch[2]]
                if b.kind == "Integer":
                    return memo[a] + b.value
                if a.kind == "Integer":
                    return a.value + memo[b]
                return memo[a] + memo[b]
            if h.value == "Mul" and len(args) == 2:
                a, b = args
                if r == 1 and a.kind == "Integer" and a.value == -1:
                    return -memo[b]
                if (r == 2 and b.ch and len(b.ch) == 3 and b.ch[0].kind == "Function" and b.ch[0].value == "pow"
                        and b.ch[2].kind == "Integer" and b.ch[2].value == -1):
                    return memo[a] / memo[b.ch[1]]
                if b.kind == "Integer":
                    return memo[a] * b.value
                if a.kind == "Integer":
                    return a.value * memo[b]
                return memo[a] * memo[b]
            if h.value == "pow" and len(args) == 2:
                a, b = args
                if b.kind == "Integer" and type(b.value) is int:
                    return memo[a] ** b.value
                return memo[a] ** memo[b]
        if r == 4:
            return L.Expr(L.Tree(*[memo[x].rep for x in u.ch]))
        if r == 5:
            return L.Expr(memo[h].rep(*[memo[x].rep for x in args]))
        if r == 6:
            return memo[h](*[x.value if x.kind == "Integer" and type(x.value) is int else memo[x] for x in args])
        return memo[h](*[memo[x] for x in args])

    def build(self, t, rt=0, cls="Expr"):
        """Construct the real object for term t (called inside the simulation)."""
        L = self.L
        memo = {}
        k = rt
        if cls == "Expr":
            for u in self.m.subterms(t, heads=True):
                k = (k * 1103515245 + 12345) & 0x7FFFFFFF
                memo[u] = self.mk_app(u, memo, k >> 8) if u.ch else self.mk_atom(u, k >> 8)
            return memo[t]
        for u in self.m.subterms(t, heads=True):
            k = (k * 1103515245 + 12345) & 0x7FFFFFFF
            if u.ch:
                ch = [memo[x] for x in u.ch]
                memo[u] = L.Tree(*ch) if k & 256 else ch[0](*ch[1:])
            else:
                memo[u] = self.mk_atom_core(u, k >> 8)
        if cls == "Tree":
            return memo[t]
        if cls == "Atom":
            return memo[t].value
        return self.cls[cls](memo[t])

    def quiet_build(self, t, cls="Expr"):
        return self.build(t, 0, cls)

    # -- decoding ------------------------------------------------------------
    def atom_term(self, atom):
        at = atom.atom_type
        kind = self.kind_of.get(id(at))
        if kind is None:
            kind = f"?{at!r}"
            self.kind_of[id(at)] = kind
            self.atype[kind] = at
            self.kind_names[kind] = repr(at)
        return self.m.atom(kind, atom.value)

    def decode(self, x):
        """Structure of a real object, as a term."""
        L = self.L
        try:
            if isinstance(x, L.Sym):
                t = self._decode_tree(x.rep)
                self._uniq_sym(x, t)
                return t
            if isinstance(x, L.Tree):
                return self._decode_tree(x)
            if isinstance(x, L.Atom):
                t = self.atom_term(x)
                self._uniq(self.rega, t, x)
                return t
        except AttributeError as e:
            raise DecodeError(f"half-built object: {e!r}")
        raise DecodeError(f"not an expression: {type(x).__name__} {str(x)[:80]}")

    def _decode_tree(self, tree):
        Tree = self.L.Tree
        memo = {}
        stack = [tree]
        uniq = self.want("P01")
        while stack:
            u = stack[-1]
            if id(u) in memo:
                stack.pop()
                continue
            if not isinstance(u, Tree):
                raise DecodeError(f"child is a {type(u).__name__}")
            ch = u.children
            if not ch:
                v = u.value
                t = self.atom_term(v)
                if uniq:
                    self._uniq(self.rega, t, v)
            else:
                todo = [x for x in ch if id(x) not in memo]
                if todo:
                    stack.extend(todo)
                    continue
                t = self.m.app(*[memo[id(x)] for x in ch])
            memo[id(u)] = t
            if uniq:
                self._uniq(self.reg, t, u)
            stack.pop()
        return memo[id(tree)]

    def _uniq(self, reg, t, obj):
        wr = reg.get(t.id)
        o = wr() if wr is not None else None
        if o is None:
            reg[t.id] = weakref.ref(obj)
        elif o is not obj and not (o == obj and obj == o and hash(o) == hash(obj)):
            self.bad("P01", "duplicate", f"two live {type(obj).__name__} objects for {t} that are not equal")

    def _uniq_sym(self, x, t):
        if not self.want("P01"):
            return
        key = (type(x), t.id)
        wr = self.regs.get(key)
        o = wr() if wr is not None else None
        if o is None:
            self.regs[key] = weakref.ref(x)
        elif o is not x:
            self.bad("P01", "duplicate-sym", f"two live {type(x).__name__} objects for {t}")

    def check_distinct(self, x, t, k):
        """Objects built differently compare unequal (sampled)."""
        if isinstance(x, self.L.Sym):
            pool = [(key, wr()) for key, wr in list(self.regs.items())]
            mine = (type(x), t.id)
        elif isinstance(x, self.L.Tree):
            pool = [(key, wr()) for key, wr in list(self.reg.items())]
            mine = t.id
        else:
            pool = [(key, wr()) for key, wr in list(self.rega.items())]
            mine = t.id
        for key, o in pool:
            if o is not None and key != mine and (o == x or not (o != x)):
                self.bad("P01", "conflated", f"{type(x).__name__} for {t} equals an object built differently ({key})")

    # -- slots -----------------------------------------------------------------
    def slots(self, c, s):
        return self.gslots if s < 3 else c.slots

    def get(self, c, s):
        e = self.slots(c, s).get(s)
        return e[0] if e else None

    def put(self, c, s, real, t=None, extra=None):
        if s is None:
            return
        if t is None and isinstance(real, (self.L.Sym, self.L.Tree, self.L.Atom)):
            t = self.decode(real)
        snap = None
        if self.want("P02") and t is not None:
            snap = self.snapshot(real, t)
        self.slots(c, s)[s] = (real, t, snap, extra)

    def snapshot(self, real, t):
        out = [type(real).__name__, hash(real)]
        if self.m.string_size(t) < 2000 and not self.printing_rules:
            for show in (str, repr):
                try:
                    out.append(show(real))
                except Exception as e:  # an expression the printers do not support
                    out.append(f"raises {type(e).__name__}")
        return out

    def verify_held(self, where):
        """P02: everything held is still what it was when it was obtained."""
        for c in self.sim.clients:
            for s, e in c.slots.items():
                self._verify(e, where)
        for s, e in self.gslots.items():
            self._verify(e, where)

    def _verify(self, e, where):
        real, t, snap, extra = e
        if t is not None:
            try:
                now = self.decode(real)
            except DecodeError as x:
                self.bad("P02", "expression-changed", f"after {where}: {t} became undecodable: {x}")
                return
            if now is not t:
                self.bad("P02", "expression-changed", f"after {where}: {t} became {now}")
            if snap is not None and self.snapshot(real, t) != snap:
                self.bad("P02", "expression-changed", f"after {where}: shown form of {t} was {snap} is {self.snapshot(real, t)}")
        elif extra is not None and extra[0] == "mat":
            self.verify_matrix(real, extra[1], extra[2], where)

    def mat_state(self, M):
        shape = tuple(M.shape)
        rows = M.tolist()
        dec = tuple(tuple(self.decode(e).id for e in row) for row in rows)
        idx = tuple(tuple(self.decode(M[i, j]).id for j in range(shape[1])) for i in range(shape[0]))
        more = []
        for name in ("elements", "elements_graph", "entrymap"):  # public attributes
            v = getattr(M, name, None)
            if isinstance(v, list):
                more.append([self.decode(e).id for e in v])
            elif isinstance(v, dict):
                more.append(sorted(v.items()))
            elif v is not None:
                more.append(self.decode(v).id)
        return (shape, M.nrows, M.ncols, dec, idx, more)

    def verify_matrix(self, M, state, pres, where):
        try:
            now = self.mat_state(M)
        except Exception as x:
            now = f"unreadable: {x!r}"
        if now != state:
            self.bad("P02", "matrix-changed", f"after {where}: matrix was {state} is {now}")

    # -- late results (finalisers) ----------------------------------------------
    def drain(self):
        if self.late:
            late, self.late = self.late, []
            for obj, t in late:
                try:
                    d = self.decode(obj)
                except DecodeError as x:
                    self.bad("P01", "half-built", f"finaliser built {t}: {x}")
                    continue
                if d is not t:
                    self.bad("P15", "wrong-structure", f"finaliser built {d} instead of {t}")

    # -- re-entry at an instruction ------------------------------------------------
    def reenter(self, c, arg):
        """What a signal handler, or a finaliser run by the collector, may do
        between two bytecodes of an operation: use the library itself."""
        if self.closing:
            return
        r = random.Random(arg)
        t = r.choice(self.reterms)
        how = r.randrange(6)
        rt = r.randrange(1 << 30)
        cls = "Expr" if how else r.choice(["Tree", "Sym", "MySym"])
        try:
            v = self.build(t, rt, cls)
            if how == 2:
                v = None  # at once unused
            elif how == 3:
                n = self.L.tree.topological_sort(v.rep)
                n = len(n)
            elif how == 4:
                n = v.count_ops_graph()
            elif how == 5:
                z = self.L.sc.Symbol("zz")
                v.xreplace({z: v})
        except engine.Violation:
            raise
        except BaseException as e:
            if not self.faulted(c, e) and not isinstance(e, RecursionError):
                was, c.inop = c.inop, False
                self.bad("P01" if how < 3 else "P13", "construction-failed", f"finaliser using {t}: {err(e)}")
                c.inop = was
            return
        was, c.inop = c.inop, False
        if how == 3 and n != len(self.m.subterms(t)):
            self.bad("P08", "reentrant-count", f"finaliser found {n} subexpressions in {t}, not {len(self.m.subterms(t))}")
        if how == 4 and n != self.m.count_graph(t):
            self.bad("P14", "reentrant-count", f"finaliser counted {n} operations in {t}, not {self.m.count_graph(t)}")
        if v is not None and how in (1, 3, 4):
            self.late.append((v, t))
        v = None
        c.inop = was

    # -- live set (P03) -----------------------------------------------------------
    def live(self):
        L = self.L
        kinds = (L.Tree, L.Atom, L.Sym)
        return [o for o in gc.get_objects() if isinstance(o, kinds)]


def opname(op):
    return {k: v for k, v in op.items() if k not in ("id",)}
