"""The operations clients perform, each with its oracle against the model."""

import re
import copy
import decimal
import fractions
import gc
import math
import sys
import weakref
import zlib
from collections import Counter

from . import ccount, engine
from .engine import SimFault, BIG
from .model import Model, DualField, P61, Key, short
from .world import World, DecodeError, CUT, opname, own_settings

OPS = {}


def op(name):
    def reg(fn):
        OPS[name] = fn
        return fn
    return reg


def body(W):
    """What the simulator calls for each operation of each client."""
    sim = W.sim
    p02 = W.want("P02")
    W.untouched = untouched

    def run(c, o):
        sim.stats["ops"] += 1
        c.scratch = None
        sim.arm(c, o)
        W.clock += 1
        try:
            OPS[o["op"]](W, c, o)
        finally:
            c.inop = False
        sim.stats["events"] += c.n
        if c.injected:
            for e in c.injected if not W.keep_frames else ():
                e.__traceback__ = None
            c.injected = []
        W.drain()
        for what, now in own_settings().items():
            if now != (True, True):
                for p in ("P13", "P16", "P11"):
                    W.bad(p, "left-behind", f"{o['op']} left {what} at {now} in its thread")
        if p02:
            W.in_flight()
            W.verify_held(f"{o['op']} by client {c.id}")
    return run


# ---------------------------------------------------------------------------
# helpers
# ---------------------------------------------------------------------------


def tr(W, c, *items):
    """Record what this client observed (P16)."""
    if W.transcripts is not None and c.id == 0:
        W.transcripts.setdefault(c.opid, []).append([str(i) for i in items])


def err(e):
    return f"{type(e).__name__}: {str(e)[:300]}"


def outcome(v):
    """What a client sees of a refusal (P16), without machine addresses."""
    return re.sub(r"0x[0-9a-fA-F]+", "0x", err(v)) if isinstance(v, BaseException) else type(v).__name__


def unexpected(W, prop, o, e):
    if isinstance(e, RecursionError):
        W.bad("P12", "depth-limit", f"{opname(o)}: {err(e)}")
    W.bad("P12", "unexpected-error", f"{opname(o)}: {err(e)}")
    W.bad(prop, "unexpected-error", f"{opname(o)}: {err(e)}")


def dec(W, prop, o, v):
    try:
        return W.decode(v)
    except DecodeError as x:
        W.bad("P01", "half-built", f"{opname(o)}: {x}")
        W.bad(prop, "undecodable", f"{opname(o)}: {x}")
        return None


def show(W, c, v, t):
    """Transcript entry for an expression."""
    if W.transcripts is not None and c.id == 0 and t is not None:
        items = [W.m.raw_repr(t, W.kind_names)] if W.m.string_size(t) < 4000 else [W.m.count_graph(t)]
        if isinstance(v, W.L.Sym) and W.m.string_size(t) < 4000:
            try:
                items.append(str(v))
            except Exception as e:  # not every expression can be printed
                items.append(err(e))
        tr(W, c, *items)


def fresh_list(W, o, xs):
    """A caller-owned list, remembered so that it can be compared afterwards."""
    return list(xs), list(xs)


def untouched(W, o, what, now, before):
    same = type(now) is type(before) and len(now) == len(before)
    if same:
        if isinstance(now, dict):
            same = all(a is b and x is y for (a, x), (b, y) in zip(now.items(), before.items()))
        elif isinstance(now, set):
            same = all(any(a is b for b in before) for a in now)
        else:
            same = all(a is b for a, b in zip(now, before))
    if not same:
        W.bad("P02", "argument-modified", f"{opname(o)} modified the {what} it was given: {before!r} -> {now!r}")


# ---------------------------------------------------------------------------
# building, dropping, collecting
# ---------------------------------------------------------------------------


@op("mk")
def _mk(W, c, o):
    t = W.t[o["t"]]
    cls = o.get("cls", "Expr")
    rt = o.get("rt", 0)

    def check(ok, v):
        if not ok:
            tr(W, c, outcome(v))
            W.bad("P01", "construction-failed", f"{opname(o)} {t}: {err(v)}")
            unexpected(W, "P15", o, v)
            return
        d = dec(W, "P15", o, v)
        if d is None:
            return
        if d is not t:
            W.bad("P15", "wrong-structure", f"{opname(o)}: built {d} instead of {t}")
            W.bad("P01", "conflated", f"{opname(o)}: asked for {t}, got {d}")
        want = {"Tree": W.L.Tree, "Atom": W.L.Atom}.get(cls) or W.cls[cls]
        if type(v) is not want:
            W.bad("P01", "wrong-class", f"{opname(o)}: got a {type(v).__name__} for {t}")
        if W.want("P01"):
            W.check_distinct(v, d, 3)
            again = W.quiet_build(t, cls)
            if again is not v and isinstance(v, W.L.Sym) or not (again == v and hash(again) == hash(v)):
                W.bad("P01", "duplicate", f"{opname(o)}: rebuilding {t} while it is held gives another object")
        show(W, c, v, d)
        W.put(c, o.get("s"), v, d)

    W.attempt(c, o, lambda: W.build(t, rt, cls), check)


@op("churn")
def _churn(W, c, o):
    """Build and drop several expressions in a row."""
    ts = [W.t[i] for i in o["ts"]]
    cls = o.get("cls", "Expr")

    def go():
        for k, t in enumerate(ts):
            W.build(t, o.get("rt", 0) + k, cls)
        return W.build(ts[-1], 0, cls)

    def check(ok, v):
        if not ok:
            W.bad("P01", "construction-failed", f"{opname(o)}: {err(v)}")
            unexpected(W, "P15", o, v)
            return
        d = dec(W, "P15", o, v)
        if d is not None and d is not ts[-1]:
            W.bad("P15", "wrong-structure", f"{opname(o)}: built {d} instead of {ts[-1]}")

    W.attempt(c, o, go, check)


@op("drop")
def _drop(W, c, o):
    s = o["s"]
    slots = W.slots(c, s)
    e = slots.pop(s, None)
    if e is None:
        W.skipped += 1
        return
    c.inop = True
    try:
        del e  # reclamation runs protosym/weakref callbacks under the scheduler
    finally:
        c.inop = False


@op("gc")
def _gc(W, c, o):
    W.sim.stats["gc_ops"] += 1
    c.inop = True
    try:
        gc.collect()
    finally:
        c.inop = False


@op("cyc")
def _cyc(W, c, o):
    """Cyclic garbage holding an expression: reclaimed by some later collection."""
    t = W.t[o["t"]]

    def check(ok, v):
        if not ok:
            W.bad("P01", "construction-failed", f"{opname(o)}: {err(v)}")
            return
        box = [v]
        box.append(box)

    W.attempt(c, o, lambda: W.build(t, o.get("rt", 0), o.get("cls", "Expr")), check)


class Reviver:
    """Finaliser that re-enters the library while something is reclaimed."""

    def __init__(self, W, obj, t, rt):
        self.W, self.obj, self.t, self.rt = W, obj, t, rt

    def __del__(self):
        W = self.W
        if W.sim.running and not W.closing:
            W.sim.stats["finalizer_reentry"] += 1
            obj, self.obj = self.obj, None
            del obj
            try:
                v = W.build(self.t, self.rt)
            except engine.Violation:
                raise
            except BaseException as e:
                c = engine.CUR
                if c is not None and not W.faulted(c, e):
                    was, c.inop = c.inop, False
                    W.bad("P01", "construction-failed", f"finaliser building {self.t}: {err(e)}")
                    c.inop = was
                return
            W.late.append((v, self.t))


def _reborn(W, t, rt):
    """Weak-reference callback that rebuilds the very expression that died."""
    def cb(_):
        if W.sim.running and not W.closing:
            W.sim.stats["finalizer_reentry"] += 1
            try:
                v = W.build(t, rt)
            except engine.Violation:
                raise
            except BaseException as e:
                c = engine.CUR
                if c is not None and not W.faulted(c, e):
                    was, c.inop = c.inop, False
                    W.bad("P01", "construction-failed", f"callback building {t}: {err(e)}")
                    c.inop = was
                return
            W.late.append((v, t))
    return cb


@op("fin")
def _fin(W, c, o):
    """Attach finalisers that call back into the library, then hold the object."""
    t = W.t[o["t"]]

    def check(ok, v):
        if not ok:
            return
        if o.get("mode") == "wr":
            W.keep.append(weakref.ref(v, _reborn(W, t, o.get("rt", 0))))
            W.keep.append(weakref.ref(v.rep, _reborn(W, t, o.get("rt", 0) + 1)))
            W.put(c, o.get("s"), v, t)
        else:
            r = Reviver(W, v, t, o.get("rt", 0))
            W.slots(c, o["s"])[o["s"]] = (r, None, None, None)

    W.attempt(c, o, lambda: W.build(t, 0), check)


@op("rebuild")
def _rebuild(W, c, o):
    """Rebuild an expression from its own head and arguments / atom parts."""
    t = W.t[o["t"]]
    e = W.quiet_build(t)
    how = o.get("how", 0)

    def go():
        if t.ch:
            if how == 0:
                return e.head(*e.args)
            if how == 1:
                return W.L.Expr(W.L.Tree(*e.rep.children))
            ch = e.rep.children
            return W.L.Expr(ch[0](*ch[1:]))
        at = e.rep.value
        if how == 0:
            return W.L.Expr(W.L.Tr(at.atom_type(at.value)))
        if how == 1:
            return W.L.sc.expressify(e)
        return W.L.Expr(W.L.Tree.atom(W.L.Atom(at.atom_type, at.value)))

    def check(ok, v):
        if not ok:
            tr(W, c, outcome(v))
            return unexpected(W, "P15", o, v)
        d = dec(W, "P15", o, v)
        if d is None:
            return
        if v is not e:
            W.bad("P15", "rebuild", f"{opname(o)}: rebuilding {t} gives {d}, not the same object")
        show(W, c, v, d)

    W.attempt(c, o, go, check)


@op("eqv")
def _eqv(W, c, o):
    """An atom holding one particular Python value."""
    import ast
    value = ast.literal_eval(o["v"])

    def check(ok, v):
        if not ok:
            return tr(W, c, outcome(v))
        tr(W, c, repr(v.rep.value.value), str(v), repr(v.rep))
        W.slots(c, 5)[5] = (v, None, None, None)

    W.attempt(c, o, lambda: W.satype[o["kind"]](value), check)


# ---------------------------------------------------------------------------
# operators and constructors
# ---------------------------------------------------------------------------

class Same:
    """Equal to everything."""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1

    def __index__(self):
        return 1


BADOPS = [1.5, "x", None, [1], (1, 2), {}, object, 2j, b"q", 1.0, 0.0, -1.0, 2.0, 1 + 0j, fractions.Fraction(1, 2), decimal.Decimal(1), "", Same(), "1", (), frozenset()]


def _opr_model(m, k, a, b):
    neg = m.int(-1)
    if k in ("add", "iadd"):
        return m.add(a, b)
    if k == "sub":
        return m.add(a, m.mul(neg, b))
    if k == "mul":
        return m.mul(a, b)
    if k == "div":
        return m.mul(a, m.pow(b, neg))
    if k == "pow":
        return m.pow(a, b)
    if k == "neg":
        return m.mul(neg, a)
    if k == "pos":
        return a
    raise KeyError(k)


def _opr_real(k, a, b):
    if k == "add":
        return a + b
    if k == "iadd":
        a += b
        return a
    if k == "sub":
        return a - b
    if k == "mul":
        return a * b
    if k == "div":
        return a / b
    if k == "pow":
        return a ** b
    if k == "neg":
        return -a
    if k == "pos":
        return +a
    raise KeyError(k)


@op("opr")
def _opr(W, c, o):
    k = o["k"]
    ta = W.t[o["a"]]
    tb = W.t[o["b"]]
    a = W.quiet_build(ta)
    b = W.quiet_build(tb)
    if o.get("ia") and ta.kind == "Integer":
        a = ta.value
    if o.get("ib") and tb.kind == "Integer" and isinstance(a, W.L.Sym):
        b = tb.value
    if not isinstance(a, W.L.Sym) and not isinstance(b, W.L.Sym):
        b = W.quiet_build(tb)
    if k in ("neg", "pos") and not isinstance(a, W.L.Sym):
        a = W.quiet_build(ta)
    want = _opr_model(W.m, k, ta, tb)

    def check(ok, v):
        if not ok:
            tr(W, c, outcome(v))
            return unexpected(W, "P15", o, v)
        d = dec(W, "P15", o, v)
        if d is None:
            return
        if d is not want or type(v) is not W.L.Expr:
            W.bad("P15", "operator", f"{opname(o)}: {k} of {ta} and {tb} gives {d}, not {want}")
        show(W, c, v, d)
        W.put(c, o.get("s"), v, d)

    W.attempt(c, o, lambda: _opr_real(k, a, b), check)


@op("call")
def _call(W, c, o):
    """Head called with expressions and Python integers; n-ary sums and products."""
    h = W.t[o["h"]]
    ts = [W.t[i] for i in o["args"]]
    hr = W.quiet_build(h)
    args = [t.value if t.kind == "Integer" and (o.get("im", 0) >> k) & 1 else W.quiet_build(t)
            for k, t in enumerate(ts)]
    want = W.m.app(h, *ts)

    def check(ok, v):
        if not ok:
            tr(W, c, outcome(v))
            return unexpected(W, "P15", o, v)
        d = dec(W, "P15", o, v)
        if d is None:
            return
        if d is not want or type(v) is not W.L.Expr:
            W.bad("P15", "call", f"{opname(o)}: {h} of {ts} gives {d}")
        show(W, c, v, d)
        W.put(c, o.get("s"), v, d)

    W.attempt(c, o, lambda: hr(*args), check)


@op("badopr")
def _badopr(W, c, o):
    """Unsupported operands are refused with a type error and no effect."""
    t = W.t[o["t"]]
    e = W.quiet_build(t)
    bad = BADOPS[o["bad"] % len(BADOPS)]
    k = o["k"]
    L = W.L

    def go():
        if k == "call":
            return e(e, bad)
        if k == "expressify":
            return L.sc.expressify(bad)
        if k == "radd":
            return bad + e
        if k == "rmul":
            return bad * e
        if k == "rpow":
            return bad ** e
        if k == "tree":
            return L.Tree(e.rep, bad)
        if k == "treecall":
            return e.rep(bad)
        if k == "tratom":
            return L.Tr(bad)
        if k == "sym":
            return L.Sym(bad)
        if k == "expr":
            return L.Expr(bad)
        if k == "exprtree":
            return L.Tree(e)
        return _opr_real(k, e, bad)

    def check(ok, v):
        if ok:
            W.bad("P15", "accepted", f"{opname(o)}: {k} with {bad!r} accepted, gave {v!r}"[:400])
            tr(W, c, "accepted")
            return
        tr(W, c, outcome(v))
        if not isinstance(v, TypeError):
            W.bad("P15", "wrong-error", f"{opname(o)}: {k} with {bad!r} raised {err(v)}")

    W.attempt(c, o, go, check)
    d = W.decode(e)
    if d is not t:
        W.bad("P15", "operand-changed", f"{opname(o)}: {t} became {d}")


def binary(m, t):
    A, M = m.fun("Add"), m.fun("Mul")

    def f(h, a, u):
        if h in (A, M):
            r = a[0]
            for x in a[1:]:
                r = m.app(h, r, x)
            return r
        return m.app(h, *a)

    if any(u.ch and u.ch[0] in (A, M) and len(u.ch) == 1 for u in m.subterms(t)):
        return None
    return m.evaluate(t, lambda u: u, f)


@op("binx")
def _binx(W, c, o):
    """bin_expand: left-associates sums and products, changes nothing else."""
    t = W.t[o["t"]]
    e = W.quiet_build(t)
    m = W.m
    want = binary(m, t)
    if want is None:
        return

    def check(ok, v):
        if not ok:
            tr(W, c, outcome(v))
            return unexpected(W, "P15", o, v)
        d = dec(W, "P15", o, v)
        if d is None:
            return
        if d is not want:
            W.bad("P15", "bin-expand", f"{opname(o)}: {t} expands to {d}, not {want}")
        show(W, c, v, d)
        W.put(c, o.get("s"), v, d)

    W.attempt(c, o, lambda: e.bin_expand(), check)


# ---------------------------------------------------------------------------
# printing and counting
# ---------------------------------------------------------------------------


@op("pr")
def _pr(W, c, o):
    t = W.t[o["t"]]
    e = W.quiet_build(t)
    m = W.m
    if m.string_size(t) > 20000:
        return
    if o.get("drop"):
        pass
    forms = o["forms"]
    fn = {
        "str": lambda: str(e), "repr": lambda: repr(e), "eval_repr": lambda: e.eval_repr(),
        "latex": lambda: e.eval_latex(), "_latex": lambda: e._repr_latex_(),
        "tstr": lambda: str(e.rep), "trepr": lambda: repr(e.rep),
        "tree": lambda: e.count_ops_tree(), "graph": lambda: e.count_ops_graph(),
        "sstr": lambda: str(W.cls["MySym"](e.rep)), "srepr": lambda: repr(W.cls["MySym"](e.rep)),
    }

    def expected(k):
        if k in ("str", "repr", "eval_repr"):
            return m.plain(t)
        if k == "latex":
            return m.latex(t)
        if k == "_latex":
            return "$" + m.latex(t) + "$"
        if k in ("tstr", "sstr"):
            return m.raw_str(t)
        if k == "trepr":
            return m.raw_repr(t, W.kind_names)
        if k == "srepr":
            return "Sym(" + m.raw_repr(t, W.kind_names) + ")"
        if k == "tree":
            return m.count_tree(t)
        return m.count_graph(t)

    def check(ok, v):
        if not ok:
            tr(W, c, outcome(v))
            return unexpected(W, "P14", o, v)
        tr(W, c, *v)
        for k, got in zip(forms, v):
            w = expected(k)
            if got != w or type(got) is not type(w):
                W.bad("P14", "form-" + k, f"{k} of {t} is {got!r}, not {w!r}")

    if any(u.kind in ("Key", "Val", "Wild", "Star", "Sym2") or str(u.kind).startswith("?")
           for u in m.subterms(t)) and any(k in ("latex", "_latex") for k in forms):
        forms = [k for k in forms if k not in ("latex", "_latex")]
    if not forms:
        return
    W.attempt(c, o, lambda: [fn[k]() for k in forms], check)


# ---------------------------------------------------------------------------
# traversals
# ---------------------------------------------------------------------------


def check_sort(W, o, t, got, heads, exclude, ds=None):
    m = W.m
    try:
        if ds is None:
            ds = [W.decode(x) for x in got]
    except DecodeError as x:
        W.bad("P08", "undecodable", f"{opname(o)}: {x}")
        return None
    want = m.subterms(t, heads=heads, exclude=exclude)
    if len(set(ds)) != len(ds):
        W.bad("P08", "repeated", f"{opname(o)}: listing of {t} repeats a subexpression: {ds}")
    if set(ds) != set(want):
        W.bad("P08", "wrong-set", f"{opname(o)}: listing of {t} (heads={heads}, exclude={exclude}) is {ds}, expected the set {want}")
    pos = {d: k for k, d in enumerate(ds)}
    for d in ds:
        for ch in (d.ch if heads else d.ch[1:]):
            if ch in pos and pos[ch] >= pos[d]:
                W.bad("P08", "order", f"{opname(o)}: {d} listed before its argument {ch}")
    if want and (not ds or ds[-1] is not t):
        W.bad("P08", "not-last", f"{opname(o)}: listing of {t} ends with {ds[-1:]}")
    return ds


@op("topo")
def _topo(W, c, o):
    t = W.t[o["t"]]
    ex = [W.t[i] for i in o.get("ex", [])]
    heads = bool(o.get("heads"))
    e = W.quiet_build(t, "Tree")
    exr = {W.quiet_build(x, "Tree") for x in ex} if o.get("ex") is not None else None
    before = set(exr) if exr is not None else None

    def go():
        if exr is not None:
            return W.L.tree.topological_sort(e, heads=heads, exclude=exr)
        if heads:
            return W.L.tree.topological_sort(e, heads=True)
        return W.L.tree.topological_sort(e)

    def check(ok, v):
        if exr is not None:
            untouched(W, o, "exclude set", exr, before)
        if not ok:
            tr(W, c, outcome(v))
            return unexpected(W, "P08", o, v)
        ds = check_sort(W, o, t, v, heads, ex)
        tr(W, c, ds)
        if isinstance(v, list):  # the caller owns the list it was handed
            v.reverse()
            v.clear()
            W.spoiled.add(o["t"])

    W.attempt(c, o, go, check, passed=[("exclude set", exr, before)] if exr is not None else ())


@op("split")
def _split(W, c, o):
    t = W.t[o["t"]]
    ex = [W.t[i] for i in o.get("ex", [])]
    e = W.quiet_build(t, "Tree")
    exr = {W.quiet_build(x, "Tree") for x in ex} if o.get("ex") is not None else None
    before = set(exr) if exr is not None else None

    def go():
        if exr is not None:
            return W.L.tree.topological_split(e, exclude=exr)
        return W.L.tree.topological_split(e)

    def check(ok, v):
        if exr is not None:
            untouched(W, o, "exclude set", exr, before)
        if not ok:
            tr(W, c, outcome(v))
            return unexpected(W, "P08", o, v)
        atoms, heads, nodes = v
        try:
            da = [W.decode(x) for x in atoms]
            dh = [W.decode(x) for x in heads]
            dn = [W.decode(x) for x in nodes]
        except DecodeError as x:
            return W.bad("P08", "undecodable", f"{opname(o)}: {x}")
        want = W.m.subterms(t, exclude=ex)
        wa = [u for u in want if not u.ch]
        wn = [u for u in want if u.ch]
        wh = {u.ch[0] for u in wn}
        if sorted(u.id for u in da) != sorted(u.id for u in wa):
            W.bad("P08", "split-atoms", f"{opname(o)}: atoms of {t} are {da}, not {wa}")
        if sorted(u.id for u in dn) != sorted(u.id for u in wn):
            W.bad("P08", "split-nodes", f"{opname(o)}: nodes of {t} are {dn}, not {wn}")
        if set(dh) != wh or len(dh) != len(wh):
            W.bad("P08", "split-heads", f"{opname(o)}: heads of {t} are {dh}, not {wh}")
        pos = {d: k for k, d in enumerate(dn)}
        for d in dn:
            for ch in d.ch[1:]:
                if ch in pos and pos[ch] >= pos[d]:
                    W.bad("P08", "order", f"{opname(o)}: {d} before its argument {ch}")
        tr(W, c, da, sorted(map(str, dh)), dn)
        for col in (atoms, nodes):
            if isinstance(col, list):
                col.clear()
        if isinstance(heads, set):
            heads.clear()
        W.spoiled.add(o["t"])

    W.attempt(c, o, go, check, passed=[("exclude set", exr, before)] if exr is not None else ())


def spoil(x):
    if isinstance(x, list) and x:
        x.reverse()
        x.append(x[0])
        del x[1:-1]
    elif isinstance(x, set):
        x.clear()


@op("fg")
def _fg(W, c, o):
    t = W.t[o["t"]]
    e = W.quiet_build(t, "Tree")

    def check(ok, g):
        if not ok:
            tr(W, c, err(g))
            return unexpected(W, "P08", o, g)
        try:
            stack = list(g.atoms)
            seen = [W.decode(x) for x in stack]
            hs = {W.decode(h) for h in g.heads}
            for head, idx in g.operations:
                stack.append(head(*[stack[i] for i in idx]))
                seen.append(W.decode(stack[-1]))
            used = {W.decode(h) for h, _ in g.operations}
        except (DecodeError, IndexError, TypeError) as x:
            return W.bad("P08", "replay", f"{opname(o)}: forward graph of {t} does not replay: {x!r}")
        want = W.m.subterms(t)
        if stack[-1] is not e and not stack[-1] == e:
            W.bad("P08", "replay", f"{opname(o)}: forward graph of {t} rebuilds {seen[-1]}")
        if sorted(u.id for u in seen) != sorted(u.id for u in want):
            W.bad("P08", "replay-set", f"{opname(o)}: forward graph of {t} rebuilds {seen}, not each of {want} once")
        if used != hs:
            W.bad("P08", "heads", f"{opname(o)}: heads {hs} but operations use {used}")
        tr(W, c, seen, [list(i) for _, i in g.operations], sorted(map(str, hs)))
        if o.get("mut"):  # what the caller was handed back is the caller's
            for _, idx in g.operations:
                spoil(idx)
            for x in (g.atoms, g.operations, g.heads):
                spoil(x)
            W.spoiled.add(o["t"])

    W.attempt(c, o, lambda: W.L.tree.forward_graph(e), check)


# ---------------------------------------------------------------------------
# substitution
# ---------------------------------------------------------------------------


@op("subs")
def _subs(W, c, o):
    """mode: xreplace | as_function | SubsFunc | ExprFunction, several calls."""
    t = W.t[o["t"]]
    frm = [W.t[i] for i in o["frm"]]
    calls = [[W.t[i] for i in cl] for cl in o["calls"]]
    mode = o["mode"]
    core = mode == "SubsFunc"
    kind = "Tree" if core else "Expr"
    e = W.quiet_build(t, kind)
    fr = [W.quiet_build(x, kind) for x in frm]
    to = [[W.quiet_build(x, kind) for x in cl] for cl in calls]
    wants = [W.m.subst(t, dict(zip(frm, cl))) for cl in calls]
    box = {}

    if mode == "xreplace":
        reps = dict(zip(fr, to[0]))
        before = dict(reps)
        if o.get("pyint"):  # plain integers allowed on either side
            to_of = dict(zip(frm, calls[0]))
            reps = {(k if x.kind != "Integer" else x.value): (v if y.kind != "Integer" else y.value)
                    for (k, v), (x, y) in zip(reps.items(), to_of.items())}
            before = dict(reps)
        if o.get("junk") is not None:
            k = (1.5, "x", None)[o["junk"] % 3]
            if o["junk"] < 3:
                reps[k] = e
            else:
                reps[e] = k
            before = dict(reps)
        box["arg"] = reps

        def go():
            return [e.xreplace(reps)]
        wants = wants[:1]
    else:
        args = []
        before = []
        box["arg"] = args

        def go():
            args[:] = before[:] = fr
            if core:
                f = W.L.tree.SubsFunc(e, args)
            elif mode == "ExprFunction":
                f = W.L.expr.ExprFunction(e, tuple(args))
            else:
                f = e.as_function(*args)
            if o.get("mut") and core:
                untouched(W, o, "argument list", args, before)
                args.reverse()
                args.append(e)
                before[:] = args
            return [f(*cl) for cl in to]

    def check(ok, v):
        untouched(W, o, "arguments", box["arg"], before)
        if o.get("junk") is not None and mode == "xreplace":
            tr(W, c, outcome(v) if not ok else "accepted")
            return
        if not ok:
            tr(W, c, outcome(v))
            return unexpected(W, "P06", o, v)
        for k, (r, w) in enumerate(zip(v, wants)):
            d = dec(W, "P06", o, r)
            if d is None:
                return
            if d is not w:
                if o.get("mut") and core and W.want("P02"):
                    again = W.quiet_decode(W.L.tree.SubsFunc(e, list(fr))(*to[k]))
                    if again is w:
                        W.bad("P02", "argument-list-kept", f"substituting {frm} in {t} by {calls[k]} gives {d} once the caller changed its list of parameters")
                W.bad("P06", "wrong-result", f"{mode} of {t} with {dict(zip(frm, calls[k]))} gives {d}, not {w}")
            show(W, c, r, d)
        if v:
            W.put(c, o.get("s"), v[-1])

    W.attempt(c, o, go, check, passed=[("arguments", box["arg"], before)])


@op("scall")
def _scall(W, c, o):
    """Call a shared substitution function."""
    ob = W.obj.get(o["o"])
    if ob is None:
        W.skipped += 1
        return
    f, t, frm, core = ob
    cl = [W.t[i] for i in o["args"]]
    kind = "Tree" if core else "Expr"
    to = [W.quiet_build(x, kind) for x in cl]
    wrong = len(cl) != len(frm)
    bad = o.get("bad")
    if bad is not None and not core and to:
        to[bad % len(to)] = BADOPS[bad % len(BADOPS)]
    want = None if wrong else W.m.subst(t, dict(zip(frm, cl)))

    def check(ok, v):
        if wrong or (bad is not None and not core and to):
            tr(W, c, outcome(v) if not ok else "accepted")
            if ok:
                W.bad("P06", "arity" if wrong else "bad-argument", f"{opname(o)}: call with {len(cl)} arguments {to} for {len(frm)} parameters accepted")
            return
        if not ok:
            tr(W, c, outcome(v))
            return unexpected(W, "P06", o, v)
        d = dec(W, "P06", o, v)
        if d is None:
            return
        if d is not want:
            if core and W.want("P02"):
                fresh = W.L.tree.SubsFunc(W.quiet_build(t, "Tree"), [W.quiet_build(x, "Tree") for x in frm])
                if W.quiet_decode(fresh(*to)) is want:
                    W.bad("P02", "argument-list-kept", f"shared function of {t} over {frm} called with {cl} gives {d} since the caller changed its list of parameters")
            W.bad("P06", "wrong-result", f"shared function of {t} over {frm} called with {cl} gives {d}, not {want}")
        show(W, c, v, d)
        W.put(c, o.get("s"), v, d)

    W.attempt(c, o, lambda: f(*to), check)


# ---------------------------------------------------------------------------
# evaluation
# ---------------------------------------------------------------------------

FALSY = [0, None, "", False, (), 0.0]


def vfun(token, args):
    """Value of rule `token` at `args`: falsy and None values are common."""
    h = zlib.crc32(repr((token, args)).encode())
    k = h % 16
    if k < 6:
        return FALSY[k]
    return h


def venc(v):
    return repr(v)


class RuleError(Exception):
    pass


RAISE = [SimFault, KeyError, TypeError, AttributeError, StopIteration, RuleError, IndexError, ValueError, LookupError, ArithmeticError,
         RecursionError, MemoryError, OSError, NotImplementedError, AssertionError, ImportError, NameError, RuntimeError, GeneratorExit, SystemExit]


class EvalCtx:
    __slots__ = ("log", "raise_at", "raise_cls", "exc", "count", "reenter", "own", "W", "kept")

    def __init__(self, W):
        self.W = W
        self.log = []
        self.raise_at = None
        self.raise_cls = None
        self.exc = None
        self.count = 0
        self.reenter = None
        self.kept = []  # argument sequences handed to rules, with what they held


class Rule:
    """A rule that is an object: false in a boolean context, equal to others."""

    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *args):
        return self.fn(*args)

    def __len__(self):
        return 0

    def __eq__(self, other):
        return isinstance(other, Rule)

    def __hash__(self):
        return 7


def dress(token, fn):
    return Rule(fn) if token % 5 == 0 else fn


def _keep(args):
    c = engine.CUR
    ctx = c.scratch if c is not None else None
    if isinstance(ctx, EvalCtx):
        ctx.kept.append((args, tuple(args)))


def _rule_body(token, args):
    """Runs for every rule call; instrumented, so preemptible and interruptible."""
    c = engine.CUR
    ctx = c.scratch if c is not None else None
    if ctx is None:
        return vfun(token, args)
    ctx.count += 1
    if ctx.raise_at is not None and ctx.count == ctx.raise_at:
        ctx.exc = ctx.raise_cls(f"rule {token}")
        ctx.W.sim.stats["f_callback"] += 1
        raise ctx.exc
    ctx.log.append((token, args, ctx.W.tick()))
    if ctx.reenter is not None and ctx.count == 2:
        again, ctx.reenter = ctx.reenter, None
        again(c, ctx)
    return vfun(token, args)


def star_rule(token, ar="*"):
    if ar == "1!":
        def rule(one):
            return _rule_body(token, (one,))
    elif ar == "2!":
        def rule(one, two):
            return _rule_body(token, (one, two))
    else:
        def rule(*args):
            return _rule_body(token, args)
    return dress(token, rule)


def seq_rule(token):
    def rule(args):
        _keep(args)
        return _rule_body(token, tuple(args))
    return dress(token, rule)


def head_rule(W, token):
    def rule(head, args):
        c = engine.CUR
        was = c.inop if c else False
        if c:
            c.inop = False
        h = W.decode(head).id
        if c:
            c.inop = was
        _keep(args)
        return _rule_body(token, (h, tuple(args)))
    return dress(token, rule)


def atomt_rule(W, token):
    def rule(atom):
        c = engine.CUR
        was = c.inop if c else False
        if c:
            c.inop = False
        h = W.decode(atom).id
        if c:
            c.inop = was
        return _rule_body(token, (h,))
    return dress(token, rule)


def make_eval(W, d):
    """Evaluator from a description; api core or sym."""
    L = W.L
    if d["api"] == "core":
        ev = L.evaluate.Evaluator()
        for kind, tok in d["atoms"]:
            ev.add_atom(W.atype[kind], star_rule(tok))
        for h, ar, tok in d["ops"]:
            H = W.quiet_build(W.t[h], "Tree")
            if ar[0] == "1":
                ev.add_op1(H, star_rule(tok, ar))
            elif ar[0] == "2":
                ev.add_op2(H, star_rule(tok, ar))
            else:
                ev.add_opn(H, seq_rule(tok))
        if d.get("ga") is not None:
            ev.add_atom_generic(atomt_rule(W, d["ga"]))
        if d.get("go") is not None:
            ev.add_op_generic(head_rule(W, d["go"]))
        return ev
    S = L.sym
    ev = L.Expr.new_evaluator(d.get("name", "ev"), object)
    a, b = L.sc.a, L.sc.b
    for kind, tok in d["atoms"]:
        ev[W.satype[kind][a]] = S.PyFunc1(star_rule(tok))(a)
    for h, ar, tok in d["ops"]:
        H = W.quiet_build(W.t[h])
        if ar[0] == "1":
            ev[H(a)] = S.PyOp1(star_rule(tok, ar))(a)
        elif ar[0] == "2":
            ev[H(a, b)] = S.PyOp2(star_rule(tok, ar))(a, b)
        else:
            ev[H(S.star(a))] = S.PyOpN(seq_rule(tok))(a)
    if d.get("ga") is not None:
        ev[S.AtomRule[a]] = S.AtomFunc(atomt_rule(W, d["ga"]))(a)
    if d.get("go") is not None:
        ev[S.HeadRule(a, b)] = S.HeadOp(head_rule(W, d["go"]))(a, b)
    return ev


class Arity(str):
    """A rule that is called with a number of arguments it does not take."""


def model_eval(W, d, t, values):
    """(value | None, atoms and heads without rule, rules applied) by the documented lookup order."""
    atoms = dict((k, tok) for k, tok in d["atoms"])
    ops = {W.t[h]: (ar, tok) for h, ar, tok in d["ops"]}
    log = []
    norule = []

    def atom(u):
        if u in values:
            return values[u]
        if u.kind in atoms:
            args = (u.value,)
            log.append((atoms[u.kind], args, False))
            return vfun(atoms[u.kind], args)
        if d.get("ga") is not None:
            log.append((d["ga"], (u.id,), False))
            return vfun(d["ga"], (u.id,))
        norule.append(u)
        return None

    def opv(h, a, u):
        if h in ops:
            tok = ops[h][1]
            args = tuple(a)
            if ops[h][0][1:] and len(a) != int(ops[h][0][0]):
                norule.append(Arity(f"{h} of {len(a)}"))
                return None
        elif d.get("go") is not None:
            tok = d["go"]
            args = (h.id, tuple(a))
        else:
            norule.append(h)
            return None
        log.append((tok, args, True))
        return vfun(tok, args)

    v = W.m.evaluate(t, atom, opv)
    return v, norule, log


def same(a, b):
    return type(a) is type(b) and (a == b)


@op("ev")
def _ev(W, c, o):
    ob = W.obj.get(o["o"])
    if ob is None:
        W.skipped += 1
        return
    ev, d = ob
    core = d["api"] == "core"
    kind = "Tree" if core else "Expr"
    t = W.t[o["t"]]
    e = W.quiet_build(t, kind)
    vals = {W.t[i]: dec_val(v) for i, v in o.get("vals", [])}
    real_vals = {W.quiet_build(k, kind): v for k, v in vals.items()}
    before = dict(real_vals)
    want, norule, log = model_eval(W, d, t, vals)
    ctx = EvalCtx(W)
    how = o.get("how", "call")
    if o.get("raise_at"):
        ctx.raise_at = o["raise_at"]
        ctx.raise_cls = RAISE[o.get("rc", 0) % len(RAISE)]
    if o.get("re") is not None:
        t2 = W.t[o["re"]]
        vals2 = {W.t[i]: dec_val(v) for i, v in o.get("rv", [])}

        def again(c2, ctx2):
            was, c2.inop = c2.inop, False
            e2 = W.quiet_build(t2, kind)
            real2 = {W.quiet_build(k, kind): v for k, v in vals2.items()}
            c2.scratch = sub = EvalCtx(W)
            c2.inop = was
            try:
                r = ev(e2, real2) if real2 else ev(e2)
                ok2 = True
            except engine.Violation:
                raise
            except BaseException as x:
                r, ok2 = x, False
                if W.faulted(c2, x):
                    raise
            finally:
                c2.scratch = ctx2
            c2.inop = False
            check_eval(W, o, d, t2, vals2, sub, ok2, r, how="call")
            W.build(t2, 1, kind)
            c2.inop = was
        ctx.reenter = again
    c.scratch = ctx

    def go():
        ctx.log.clear()
        ctx.count = 0
        if how == "recursive":
            return (ev if core else ev.evaluator).eval_recursive(
                e if core else e.rep, real_vals if core else {k.rep: v for k, v in real_vals.items()})
        if not vals and o.get("novals"):
            return ev(e)
        return ev(e, real_vals)

    def check(ok, v):
        untouched(W, o, "values dictionary", real_vals, before)
        tr(W, c, repr(v) if ok else err(v))
        check_eval(W, o, d, t, vals, ctx, ok, v, how)

    W.attempt(c, o, go, check, passed=[("values dictionary", real_vals, before)])
    c.scratch = None


def check_eval(W, o, d, t, vals, ctx, ok, v, how):
    want, norule, log = model_eval(W, d, t, vals)
    for a, was in ctx.kept:
        if len(a) != len(was) or any(x is not y for x, y in zip(a, was)):
            for p in ("P04", "P02"):
                W.bad(p, "arguments-changed", f"{opname(o)}: the arguments a rule was called with were {was!r} and later became {a!r}")
    if ctx.exc is not None:
        if ok:
            W.bad("P04", "rule-error-swallowed", f"{opname(o)}: rule raised {ctx.exc!r} but the evaluation returned {v!r}")
        elif v is not ctx.exc and not (norule and isinstance(v, (W.L.NoRule, TypeError))):
            W.bad("P04", "rule-error-changed", f"{opname(o)}: rule raised {ctx.exc!r}, caller saw {v!r}")
        return
    if norule:
        if ok:
            W.bad("P04", "missing-rule", f"{opname(o)}: no rule for {norule} in {t} but the result was {v!r}")
        elif not any(isinstance(v, TypeError if isinstance(n, Arity) else W.L.NoRule) for n in norule):
            unexpected(W, "P04", o, v)
        return
    if not ok:
        return unexpected(W, "P04", o, v)
    if not same(v, want):
        W.bad("P04", "wrong-value", f"{opname(o)}: value of {t} with {vals} is {v!r}, not {want!r}")
    if how == "recursive":
        return
    got = Counter((tok, repr(args)) for tok, args, _ in ctx.log)
    comp = Counter((tok, repr(args)) for tok, args, isop in log if isop)
    toks = {tok for tok, args, isop in log if isop}
    got_ops = Counter({k: n for k, n in got.items() if k[0] in toks})
    if got_ops != comp:
        W.bad("P04", "not-exactly-once", f"{opname(o)}: rule applications for {t} were {dict(got_ops)}, not {dict(comp)}")


def dec_val(v):
    if isinstance(v, dict):
        return FALSY[v["falsy"]]
    return v


@op("f64")
def _f64(W, c, o):
    t = W.t[o["t"]]
    env = {W.t[i]: v for i, v in o["vals"]}
    e = W.quiet_build(t)
    rv = {W.quiet_build(k): v for k, v in env.items()}
    junk = o.get("junk")  # a key that is no expression: refused or ignored, never removed
    if junk is not None:
        rv[(1.5, "x", 7, None)[junk % 4]] = 0.5
    before = dict(rv)
    try:
        want, tol = W.m.f64(t, env)
    except (OverflowError, ValueError, ZeroDivisionError):
        return
    except KeyError:
        want = None

    def check(ok, v):
        untouched(W, o, "values dictionary", rv, before)
        tr(W, c, repr(v) if ok else err(v))
        if junk is not None:
            return
        if want is None:
            if ok:
                W.bad("P04", "missing-rule", f"{opname(o)}: eval_f64 of {t} returned {v!r}")
            elif not isinstance(v, W.L.NoRule):
                unexpected(W, "P04", o, v)
            return
        if not ok:
            return unexpected(W, "P04", o, v)
        if not close(v, want, tol):
            W.bad("P04", "wrong-value", f"{opname(o)}: eval_f64 of {t} at {env} is {v!r}, not {want!r}")

    W.attempt(c, o, lambda: e.eval_f64(rv) if rv else e.eval_f64(), check, passed=[("values dictionary", rv, before)])


def close(v, want, tol):
    try:
        v = float(v)
    except Exception:
        return False
    return abs(v - want) <= 4 * tol + 1e-290


# ---------------------------------------------------------------------------
# transformers
# ---------------------------------------------------------------------------


def make_trans(W, d):
    L = W.L
    T = L.evaluate.Transformer()
    for h, to, perm in d["ops"]:
        H = W.quiet_build(W.t[h], "Tree")
        T2 = W.quiet_build(W.t[to], "Tree")

        def rule(args, T2=T2, perm=perm):
            engine.callback_point(RAISE)
            args = list(args)
            if perm:
                args.reverse()
            return T2(*args)
        engine.instrument(rule.__code__)
        T.add_opn(H, rule)
    return T


@op("tf")
def _tf(W, c, o):
    ob = W.obj.get(o["o"])
    if ob is None:
        W.skipped += 1
        return
    T, d = ob
    m = W.m
    t = W.t[o["t"]]
    e = W.quiet_build(t, "Tree")
    rules = {W.t[h]: (W.t[to], perm) for h, to, perm in d["ops"]}
    vals = {W.t[i]: W.t[j] for i, j in o.get("vals", [])}
    rv = {W.quiet_build(k, "Tree"): W.quiet_build(v, "Tree") for k, v in vals.items()}
    before = dict(rv)

    def f(h, a, u):
        if h in rules:
            to, perm = rules[h]
            return m.app(to, *(a[::-1] if perm else a))
        return m.app(h, *a)

    want = m.evaluate(t, lambda u: vals.get(u, u), f)

    def check(ok, v):
        untouched(W, o, "values dictionary", rv, before)
        if not ok:
            tr(W, c, outcome(v))
            return unexpected(W, "P04", o, v)
        dd = dec(W, "P04", o, v)
        if dd is None:
            return
        if dd is not want:
            W.bad("P04", "wrong-transform", f"{opname(o)}: {t} transforms to {dd}, not {want}")
        show(W, c, v, dd)

    W.attempt(c, o, lambda: T(e, rv) if rv else T(e), check, passed=[("values dictionary", rv, before)])


# ---------------------------------------------------------------------------
# rule registration (P05)
# ---------------------------------------------------------------------------


class RegObj:
    def __init__(self, W, d):
        self.W = W
        self.d = d
        self.writes = {}  # key -> [record]
        self.reads = {}
        L = W.L
        api = d["api"]
        if d.get("builtin"):
            self.ev = getattr(L.expr, d["builtin"])
        elif api == "core":
            self.ev = L.evaluate.Evaluator()
        elif api == "trans":
            self.ev = L.evaluate.Transformer()
        elif api == "sym":
            self.ev = L.Expr.new_evaluator("ev", object)
        elif api == "diff":
            sc = L.sc
            self.ev = L.sym.SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
        self.wild = (L.sc.a, L.sc.b)

    def key_writes(self, key):
        ws = self.writes.get(key)
        if ws is None:
            ws = self.writes[key] = [{"tok": None, "start": -1, "end": -1, "ok": True}]
        return ws

    def allowed(self, key, s, u):
        out = []
        ws = self.key_writes(key)
        for r in ws:
            if r["start"] > u:
                continue
            if any(w["ok"] is True and w["end"] < s and w["start"] > r["end"] for w in ws):
                continue
            out.append(r)
        return out


def reg_rule(W, ob, key, tok, ar="1"):
    """A rule function that reports its token."""
    api = ob.d["api"]
    if key == "ga":
        if api == "trans":
            def rule(atom):
                _reg_log(W, key, tok, W.quiet_decode(atom).kind)
                return atom
            return dress(tok, rule)

        def rule(atom):
            _reg_log(W, key, tok, W.quiet_decode(atom).kind)
            return float(tok)
        return dress(tok, rule)
    if key == "go":
        if api == "trans":
            def rule(head, args):
                _reg_log(W, key, tok, W.quiet_decode(head).id)
                return head(*args)
            return dress(tok, rule)

        def rule(head, args):
            _reg_log(W, key, tok, W.quiet_decode(head).id)
            return float(tok)
        return dress(tok, rule)
    if api == "trans":
        if key.startswith("atom:"):
            def rule(value):
                _reg_log(W, key, tok, None)
                return W.tok_atom
            return dress(tok, rule)

        def rule(*args):
            _shape(W, key, ar, args)
            _reg_log(W, key, tok, None)
            return W.tok_atom
        return dress(tok, rule)

    val = str(tok) if ob.d.get("builtin") in ("eval_latex", "eval_repr") else float(tok)

    def rule(*args):
        _shape(W, key, ar, args)
        _reg_log(W, key, tok, None)
        return val
    return dress(tok, rule)


def _shape(W, key, ar, args):
    """A rule for any number of arguments gets one sequence, others get values."""
    if key.startswith("atom:"):
        ok = len(args) == 1
    elif ar == "n":
        ok = len(args) == 1 and isinstance(args[0], (list, tuple))
    else:
        ok = not any(isinstance(a, (list, tuple)) for a in args)
    if not ok:
        c = engine.CUR
        was = c.inop if c else False
        if c:
            c.inop = False
        W.bad("P05", "wrong-call", f"rule for {key} (arity {ar}) called with {args!r}"[:400])
        if c:
            c.inop = was


def _reg_log(W, key, tok, what):
    c = engine.CUR
    if c is not None and c.scratch is not None:
        c.scratch.append((key, tok, what, W.tick()))
    engine.callback_point(RAISE)


@op("reg")
def _reg(W, c, o):
    ob = W.obj.get(o["o"])
    if ob is None:
        W.skipped += 1
        return
    ob = ob[0]
    L, S = W.L, W.L.sym
    api, key, tok = ob.d["api"], o["key"], o["tok"]
    a, b = ob.wild
    ev = ob.ev
    bad = o.get("bad")
    ar = o.get("ar", "1")
    rule = None if api == "diff" else reg_rule(W, ob, key, tok, ar)
    if key.startswith("op:"):
        H = W.quiet_build(W.t[int(key[3:])])
    elif key.startswith(("dist:", "diff:")):
        H = W.quiet_build(W.t[int(key.split(":")[1])])

    def good():
        if api == "diff":
            if key.startswith("dist:"):
                return ev.add_distributive_rule(H)
            _, h, n, i = key.split(":")
            ws = (a, b)[:int(n)]
            ev[H(*ws), ws[int(i)]] = W.tokhead(tok)(*ws)
            return
        if api in ("core", "trans"):
            if key == "ga":
                return ev.add_atom_generic(rule)
            if key == "go":
                return ev.add_op_generic(rule)
            if key.startswith("atom:"):
                return ev.add_atom(W.atype[key[5:]], rule)
            return {"1": ev.add_op1, "2": ev.add_op2, "n": ev.add_opn}[ar](H.rep, rule)
        if key == "ga":
            ev[S.AtomRule[a]] = S.AtomFunc(rule)(a)
        elif key == "go":
            ev[S.HeadRule(a, b)] = S.HeadOp(rule)(a, b)
        elif key.startswith("atom:"):
            ev[W.satype[key[5:]][a]] = S.PyFunc1(rule)(a)
        elif ar == "1":
            ev[H(a)] = S.PyOp1(rule)(a)
        elif ar == "2":
            ev[H(a, b)] = S.PyOp2(rule)(a, b)
        elif o.get("direct"):
            ev.add_op(H, S.PyOpN(rule))
        else:
            ev[H(S.star(a))] = S.PyOpN(rule)(a)

    def malformed():
        if api == "diff":
            _, h, n, i = key.split(":")
            H = W.quiet_build(W.t[int(h)])
            ws = (a, b)[:int(n)]
            k = bad % 7
            rhs = W.tokhead(tok)(*ws)
            if k == 0:
                ev[H(*ws)] = rhs
            elif k == 1:
                ev[H(a, a), a] = rhs
            elif k == 2:
                ev[H(b), a] = rhs
            elif k == 3:
                ev[H(*ws), ws[int(i)]] = 3
            elif k == 4:
                ev[H(*ws), "a"] = rhs
            elif k == 5:
                ev[ws[int(i)], ws[int(i)]] = rhs
            else:
                ev[H(*ws), ws[int(i)], 1] = rhs
            return
        H = W.quiet_build(W.t[int(key[3:])]) if key.startswith("op:") else W.L.sc.f
        k = bad % 16
        if k == 8:
            ev[H(a, b)] = S.PyOp2(rule)(b, a)
        elif k == 9:
            ev[H(a, b)] = S.PyOp2(rule)(a, a)
        elif k == 10:
            ev[H(S.star(b))] = S.PyOpN(rule)(a)
        elif k == 11:
            ev[S.HeadRule(a, b)] = S.HeadOp(rule)(b, a)
        elif k == 12:
            ev[H()] = S.PyOp1(rule)(a)
        elif k == 13:
            ev[W.satype["Integer"][a]] = S.PyFunc1(rule)(b)
        elif k == 14:
            ev[S.AtomRule[a]] = S.AtomFunc(rule)(b)
        elif k == 15:
            ev[H(a, a)] = S.PyOp2(rule)(a, b)
        elif k == 0:
            ev[H(a, b)] = S.PyOp1(rule)(a)
        elif k == 1:
            ev[H(a)] = S.PyOpN(rule)(a)
        elif k == 2:
            ev[H(a)] = rule
        elif k == 3:
            ev[S.AtomRule[a]] = S.PyFunc1(rule)(a)
        elif k == 4:
            ev[W.satype["Integer"][a]] = S.AtomFunc(rule)(a)
        elif k == 5:
            ev[S.HeadRule(a, b)] = S.PyOp2(rule)(a, b)
        elif k == 6:
            ev[H(a)] = S.AtomFunc(rule)(a)
        else:
            ev.add_op(H, rule)

    if bad is not None:
        def check(ok, v):
            if ok:
                W.bad("P05", "malformed-accepted", f"{opname(o)}: malformed registration accepted")
        W.attempt(c, o, malformed, check)
        return

    rec = {"tok": tok, "start": W.tick(), "end": BIG, "ok": False}
    ob.key_writes(key).append(rec)

    def check(ok, v):
        if not ok:
            return unexpected(W, "P05", o, v)
        rec["ok"] = True

    W.attempt(c, o, good, check)
    rec["end"] = W.tick()


@op("read")
def _read(W, c, o):
    """Use an object whose rules are being registered; judge every lookup."""
    ob = W.obj.get(o["o"])
    if ob is None:
        W.skipped += 1
        return
    ob = ob[0]
    api = ob.d["api"]
    m = W.m
    s = W.tick()
    if api == "diff":
        h, hid, n, i = o["key"].split(":") if o["key"].startswith("diff:") else ("dist", o["key"][5:], o.get("n", "1"), "0")
        H = W.t[int(hid)]
        n, i = int(n), int(i)
        if h == "dist":
            n = 2 if H.value == "g" else 1
        dkey = f"dist:{H.id}"
        E = m.app(H, *[m.int(1 if j == i else 0) for j in range(n)])
        x = m.sym("x")
        args = [m.sym("y")] * n
        args[i] = x
        t = m.app(H, *args)
        e = W.quiet_build(t)
        xr = W.quiet_build(x)

        def check(ok, v):
            u = W.tick()
            # a head is distributive, or has rules, or neither; the first wins
            dist = {r["tok"] for r in ob.allowed(dkey, s, u)}
            key = f"diff:{H.id}:{n}:{i}"
            toks = {r["tok"] for r in ob.allowed(key, s, u)}
            if not ok:
                if None not in dist or None not in toks:
                    W.bad("P05", "rule-missing", f"{opname(o)}: derivative of {t} failed with {err(v)} though rule {dist | toks} is registered")
                return
            d = dec(W, "P05", o, v)
            if d is None:
                return
            if d is E:
                if dist == {None}:
                    W.bad("P05", "foreign-rule", f"{opname(o)}: {t} treated as distributive but that was never registered here")
                return
            if None not in dist:
                W.bad("P05", "rule-bypassed", f"{opname(o)}: {H} was registered as distributive, but the derivative of {t} is {d}")
                return
            tok = None
            if d.ch and d.ch[0].kind == "Function" and d.ch[0].value.startswith("T") and d.ch[1:] == t.ch[1:]:
                tok = int(d.ch[0].value[1:])
            else:
                return W.bad("P05", "wrong-rule", f"{opname(o)}: the derivative of {t} is {d}, which no registered rule gives")
            judge(W, o, ob, key, tok, s, u, f"derivative {d}")

        W.attempt(c, o, lambda: ob.ev(e, xr), check)
        return

    t = W.t[o["t"]]
    kind = "Expr" if api == "sym" else "Tree"
    e = W.quiet_build(t, kind)
    c.scratch = log = []

    def go():
        del log[:]
        return ob.ev(e)

    def check(ok, v):
        u = W.tick()
        for key, tok, what, stamp in log:
            if key == "go":
                sk = f"op:{what}"
                if None not in {r["tok"] for r in ob.allowed(sk, s, stamp)}:
                    W.bad("P05", "rule-bypassed", f"{opname(o)}: fallback used for head {m.terms[what]} though a rule for it is registered")
            elif key == "ga":
                sk = f"atom:{what}"
                if None not in {r["tok"] for r in ob.allowed(sk, s, stamp)}:
                    W.bad("P05", "rule-bypassed", f"{opname(o)}: fallback used for atom kind {what} though a rule for it is registered")
            judge(W, o, ob, key, tok, s, stamp, "evaluation")
        subs = m.subterms(t)
        if not ok:
            if not isinstance(v, W.L.NoRule):
                return unexpected(W, "P05", o, v)
            if api == "trans":
                return unexpected(W, "P05", o, v)
            may = False
            for n in subs:
                sk = f"op:{n.ch[0].id}" if n.ch else f"atom:{n.kind}"
                gk = "go" if n.ch else "ga"
                if None in {r["tok"] for r in ob.allowed(sk, s, u)} and None in {r["tok"] for r in ob.allowed(gk, s, u)}:
                    may = True
            if not may and not ob.d.get("builtin"):
                W.bad("P05", "rule-missing", f"{opname(o)}: {err(v)} evaluating {t} though every rule needed is registered")
            return
        # every node must have used some rule (heads are unique to this object when built-in)
        if not ob.d.get("builtin") and api != "trans":
            want = len(subs)
            if len(log) != want:
                W.bad("P05", "lookup-count", f"{opname(o)}: {len(log)} rule applications for {want} subexpressions of {t}")
            for sk, cnt in Counter(f"op:{n.ch[0].id}" if n.ch else f"atom:{n.kind}" for n in subs).items():
                seen = sum(k == sk or k in ("go", "ga") and sk == ("op:" if k == "go" else "atom:") + str(w) for k, _, w, _ in log)
                if seen != cnt:
                    W.bad("P05", "wrong-rule", f"{opname(o)}: {seen} applications of rules for {sk} to {cnt} such subexpressions of {t}")
        elif api == "trans" or ob.d.get("builtin"):
            seen = Counter(k for k, *_ in log)
            for n in set(x.ch[0] for x in subs if x.ch):
                k = f"op:{n.id}"
                must = None not in {r["tok"] for r in ob.allowed(k, s, u)}
                if must and not seen.get(k):
                    W.bad("P05", "rule-bypassed", f"{opname(o)}: the registered rule for head {n} was not used on {t}")

    W.attempt(c, o, go, check)
    c.scratch = None


def judge(W, o, ob, key, tok, s, u, what):
    al = ob.allowed(key, s, u)
    src = [r for r in ob.key_writes(key) if r["tok"] == tok]
    if not src:
        W.bad("P05", "foreign-rule", f"{opname(o)}: {what} used rule {tok} for {key}, never registered on this object")
        return
    if not any(r is src[0] for r in al):
        W.bad("P05", "stale-rule", f"{opname(o)}: {what} used rule {tok} for {key}; the rules it may use are {[r['tok'] for r in al]}")
        return
    src = src[0]
    for (s0, u0, r0) in ob.reads.setdefault(key, []):
        if u0 < s and src["end"] < r0["start"]:
            W.bad("P05", "went-back", f"{opname(o)}: {what} used rule {tok} for {key} after a finished operation had used the newer {r0['tok']}")
    ob.reads[key].append((s, u, src))


# ---------------------------------------------------------------------------
# differentiation
# ---------------------------------------------------------------------------


def rhs_closure(W, rhs, wilds):
    m = W.m

    def f(field, vals):
        env = dict(zip(wilds, vals))

        def atom(u):
            if u in env:
                return env[u]
            return field.base(u)

        return m.evaluate(rhs, atom, lambda h, a, u: field.apply(h, a))
    return f


def builtin_rules(W):
    m = W.m
    a, b = m.atom("Wild", "a"), m.atom("Wild", "b")
    neg = m.int(-1)
    sin, cos = m.fun("sin"), m.fun("cos")
    return {
        sin: {0: rhs_closure(W, m.app(cos, a), [a])},
        cos: {0: rhs_closure(W, m.mul(neg, m.app(sin, a)), [a])},
        m.fun("pow"): {0: rhs_closure(W, m.mul(b, m.pow(a, m.add(b, neg))), [a, b])},
    }


def make_diff(W, d):
    L, sc = W.L, W.L.sc
    if d.get("builtin"):  # rules added to the differentiator that Expr.diff uses
        D, rules = sc.diff, builtin_rules(W)
        W.more_rules = rules
    else:
        D = L.sym.SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
        rules = {}
    for h, n, i, rhs, wilds in d["rules"]:
        H = W.quiet_build(W.t[h])
        ws = [W.quiet_build(W.t[w]) for w in wilds]
        D[H(*ws), ws[i]] = W.quiet_build(W.t[rhs])
        rules.setdefault(W.t[h], {})[i] = rhs_closure(W, W.t[rhs], [W.t[w] for w in wilds])
    for h in d.get("dist", []):
        D.add_distributive_rule(W.quiet_build(W.t[h]))
    dist = {W.t[h] for h in d.get("dist", [])}
    if D is sc.diff:
        dist.add(W.m.fun("List"))
    return D, rules, dist


@op("diff")
def _diff(W, c, o):
    m = W.m
    t = W.t[o["t"]]
    x = W.t[o["x"]]
    n = o.get("n", 1)
    if o["o"] == "builtin":
        rules, dist = W.more_rules or builtin_rules(W), {m.fun("List")}
        D = W.L.sc.diff
    else:
        ob = W.obj.get(o["o"])
        if ob is None:
            W.skipped += 1
            return
        (D, rules, dist), _ = ob
    e = W.quiet_build(t)
    xr = W.quiet_build(x)
    # is the derivative determined by the registered rules?
    defined = has_rules(m, t, x, rules, dist)

    def go():
        if D is W.L.sc.diff and o.get("how") == "method":
            return e.diff(xr, n) if n != 1 else e.diff(xr)
        return D(e, xr, n) if n != 1 else D(e, xr)

    def check(ok, v):
        if not ok:
            tr(W, c, outcome(v))
            if defined and n == 1 or isinstance(v, RecursionError):
                unexpected(W, "P07", o, v)
            return
        d = dec(W, "P07", o, v)
        if d is None:
            return
        show(W, c, v, d)
        u = n and ruleless(m, t, x, rules, dist)
        if u:
            W.bad("P07", "invented-rule", f"{opname(o)}: no rule says what the derivative of {u} is, but that of {t} came out as {short(d, 12)}")
        key = (o["o"], t.id, x.id, n)
        old = W.dmemo.setdefault(key, d)
        if old is not d:
            W.bad("P07", "changed-answer", f"{opname(o)}: derivative of {t} was {old}, now {d}")
        if not W.want("P07", "P13"):
            W.put(c, o.get("s"), v, d)
            return
        # step by step, each step judged algebraically
        cur, curt = e, t
        for k in range(n):
            try:
                nxt = D(cur, xr)
            except Exception as ex:
                if k == 0:
                    W.bad("P07", "inconsistent", f"{opname(o)}: repeating the derivative of {curt} failed: {err(ex)}")
                return
            nt = dec(W, "P07", o, nxt)
            if nt is None:
                return
            algebra(W, o, curt, x, nt, rules, dist)
            cur, curt = nxt, nt
        if curt is not d or cur is not v:
            W.bad("P07", "nth", f"{opname(o)}: derivative {n} of {t} is {d}, but differentiating {n} times gives {curt}")
        W.put(c, o.get("s"), v, d)

    W.attempt(c, o, go, check)


def has_rules(m, t, x, rules, dist):
    """Every rule that any way of differentiating t could need is registered."""
    dep = set()
    free = set(dist) | {m.fun("Add"), m.fun("Mul")}
    for u in m.subterms(t):
        if not u.ch:
            if u is x:
                dep.add(u)
            continue
        on = [i for i, a in enumerate(u.ch[1:]) if a in dep]
        if on:
            dep.add(u)
            if u.ch[0] not in free and not set(on) <= set(rules.get(u.ch[0], ())):
                return False
    return True


def ruleless(m, t, x, rules, dist):
    """A part of t that any way of differentiating t needs a rule for, but has none."""
    todo = [t]
    while todo:
        u = todo.pop()
        if not u.ch or u.ch[0] in dist:
            continue
        if u.ch[0] is m.fun("Add"):
            todo.extend(u.ch[1:])
        elif u.ch[0] is not m.fun("Mul") and any(a is x and i not in rules.get(u.ch[0], ()) for i, a in enumerate(u.ch[1:])):
            return u
    return None


def algebra(W, o, t, x, d, rules, dist):
    for salt in (1, 2):
        F = DualField(W.m, rules, dist, salt=salt)
        try:
            v, want = W.m.dual(t, x, F)
            got = F.value(d)
        except DualField.NoRule:
            return
        except TypeError:
            return
        if isinstance(want, tuple):
            ok = isinstance(got, tuple) and _zip_eq(got, want)
        else:
            ok = got == want
        if not ok:
            W.bad("P07", "wrong-derivative", f"{opname(o)}: d/d{x} of {t} is {short(d, 12)}, which is not its derivative")
            return


def _zip_eq(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return False
        return all(_zip_eq(x, y) for x, y in zip(a, b))
    return a == b


# ---------------------------------------------------------------------------
# compiled functions
# ---------------------------------------------------------------------------


def _jit_expect(W, ent, pt):
    """Expected value(s), with tolerance, at argument values pt."""
    kind, spec, args = ent
    env = dict(zip(args, pt))
    if kind == "e":
        return W.m.f64(spec, env)
    return [[(0.0, 0.0) if t is None else W.m.f64(t, env) for t in row] for row in spec]


def _bound_late(W, o, ent, pt, v):
    """The answer for the argument list as the caller changed it after compiling?"""
    if not W.want("P02"):
        return
    late = (ent[0], ent[1], ent[2][::-1])
    try:
        if close(v, *_jit_expect(W, late, pt)):
            W.bad("P02", "argument-list-kept", f"{opname(o)}: compiled {ent[1]} of {ent[2]} at {pt} is {v!r} once the caller reversed its list")
    except (OverflowError, ValueError, ZeroDivisionError, KeyError):
        pass


def _jit_check(W, c, o, ent, pt, ok, v):
    try:
        want = _jit_expect(W, ent, pt)
    except (OverflowError, ValueError, ZeroDivisionError):
        return
    except KeyError:
        return
    if not ok:
        tr(W, c, outcome(v))
        return unexpected(W, "P09", o, v)
    if ent[0] == "e":
        tr(W, c, repr(v))
        if not close(v, *want):
            _bound_late(W, o, ent, pt, v)
            W.bad("P09", "wrong-value", f"{opname(o)}: compiled {ent[1]} of {ent[2]} at {pt} is {v!r}, not {want[0]!r}")
        return
    tr(W, c, repr(v.tolist()))
    shape = (len(want), len(want[0]))
    if tuple(v.shape) != shape:
        return W.bad("P09", "wrong-shape", f"{opname(o)}: compiled matrix has shape {v.shape}, not {shape}")
    for i, row in enumerate(want):
        for j, (w, tol) in enumerate(row):
            if not close(v[i, j], w, tol):
                W.bad("P09", "wrong-value", f"{opname(o)}: compiled matrix entry {(i, j)} ({ent[1][i][j]}) at {pt} is {v[i, j]!r}, not {w!r}")


def _compilable(W, t, args):
    m = W.m
    ok = {m.fun(n): k for n, k in (("Add", 0), ("Mul", 0), ("pow", 2), ("sin", 1), ("cos", 1))}
    for u in m.subterms(t):
        if u.ch:
            if u.ch[0] not in ok:
                return False
            if ok[u.ch[0]] and len(u.ch) - 1 != ok[u.ch[0]] or len(u.ch) == 1:
                return None
        elif u not in args and u.kind != "Integer":
            return False
    return True


@op("jit")
def _jit(W, c, o):
    L = W.L
    args = [W.t[i] for i in o["args"]]
    if "rows" in o:
        rows = [[W.t[i] for i in row] for row in o["rows"]]
        zero = W.m.int(0)
        spec = [[None if t is zero else t for t in row] for row in rows]
        flags = [_compilable(W, t, args) for row in spec for t in row if t is not None]
        ent = ("m", spec, args)
    else:
        t = W.t[o["t"]]
        flags = [_compilable(W, t, args)]
        ent = ("e", t, args)
    if None in flags:
        return
    good = all(flags)
    ar = [W.quiet_build(x) for x in args]
    before = list(ar)
    if "rows" in o:
        target = L.sc.Matrix([[W.quiet_build(t) for t in row] for row in rows])
    else:
        target = W.quiet_build(t)
    pts = o["pts"]
    out = []

    def go():
        f = L.sc.lambdify(ar, target)
        del out[:]
        out.append(f)
        return f

    def check(ok, v):
        untouched(W, o, "argument list", ar, before)
        if not good:
            if ok:
                W.bad("P09", "accepted", f"{opname(o)}: compiling an unsupported expression succeeded")
            elif not isinstance(v, L.LLVMNotImplemented):
                W.bad("P09", "wrong-error", f"{opname(o)}: {err(v)}")
            tr(W, c, outcome(v))
            return
        if not ok:
            tr(W, c, outcome(v))
            return unexpected(W, "P09", o, v)
        ar.reverse()  # the caller may reuse its list
        if "s" in o:
            W.slots(c, o["s"])[o["s"]] = (v, None, None, ("jit", ent))

    f = W.attempt(c, o, go, check, passed=[("argument list", ar, before)])
    if f is CUT or f is None:
        return
    target = None
    for pt in pts:
        def ck(ok, v, pt=pt):
            _jit_check(W, c, o, ent, pt, ok, v)
        W.attempt(c, o, lambda: f(*pt), ck)


@op("jcall")
def _jcall(W, c, o):
    e = W.slots(c, o["s"]).get(o["s"])
    if e is None or not e[3] or e[3][0] != "jit":
        W.skipped += 1
        return
    f, ent = e[0], e[3][1]
    pts = [pt[:len(ent[2])] + [0.5] * (len(ent[2]) - len(pt)) for pt in o["pts"]]
    held = []

    def check(ok, vs):
        if not ok:
            return _jit_check(W, c, o, ent, pts[0], False, vs)
        for pt, v in zip(pts, vs):
            _jit_check(W, c, o, ent, pt, True, v)
        if ent[0] == "m" and len(vs) > 1:
            # each call returns its own array
            import numpy as np
            for k, v in enumerate(vs):
                v[...] = 1e9 + k
            for k, v in enumerate(vs):
                if not np.all(v == 1e9 + k):
                    W.bad("P09", "shared-array", f"{opname(o)}: two calls of a compiled matrix share an array")
    W.attempt(c, o, lambda: [f(*pt) for pt in pts], check)
    if ent[0] == "m":
        W.attempt(c, o, lambda: [f(*pts[0])], check)


@op("ir")
def _ir(W, c, o):
    """Generated code (P16 transcript, P12/P13 success)."""
    args = [W.t[i] for i in o["args"]]
    t = W.t[o["t"]]
    fl = _compilable(W, t, args)
    if fl is None:
        return
    ar = [W.quiet_build(x) for x in args]
    before = list(ar)
    e = W.quiet_build(t)

    def check(ok, v):
        untouched(W, o, "argument list", ar, before)
        tr(W, c, v if ok else outcome(v))
        if fl and not ok:
            unexpected(W, "P09", o, v)
        if not fl and ok:
            W.bad("P09", "accepted", f"{opname(o)}: code generated for an unsupported expression")

    W.attempt(c, o, lambda: e.to_llvm_ir(ar), check, passed=[("argument list", ar, before)])


# ---------------------------------------------------------------------------
# matrices
# ---------------------------------------------------------------------------


def put_matrix(W, c, o, s, M, rows, pres):
    """rows: terms; pres: set of positions stored explicitly."""
    if s is None:
        return
    state = None
    if W.want("P02"):
        state = W.mat_state(M)
    W.slots(c, s)[s] = (M, None, None, ("mat", state, pres, rows))


def get_matrix(W, c, s):
    e = W.slots(c, s).get(s)
    if e is None or not e[3] or e[3][0] != "mat":
        W.skipped += 1
        return None
    return e[0], e[3][3], e[3][2]


def check_matrix(W, o, M, rows, alts=None):
    """M's entries are `rows` (or, where given, one of the alternatives)."""
    m = W.m
    shape = (len(rows), len(rows[0]))
    try:
        sh = tuple(M.shape)
        if sh != shape or M.nrows != shape[0] or M.ncols != shape[1]:
            return W.bad("P10", "shape", f"{opname(o)}: shape is {sh}, not {shape}")
        lst = M.tolist()
        if len(lst) != shape[0] or any(len(r) != shape[1] for r in lst):
            return W.bad("P10", "tolist-shape", f"{opname(o)}: tolist gives {lst}")
        for i in range(shape[0]):
            for j in range(shape[1]):
                ok = {rows[i][j]} | (alts[i][j] if alts else set())
                d1, d2 = W.decode(lst[i][j]), W.decode(M[i, j])
                if d1 not in ok or d2 not in ok or d1 is not d2:
                    W.bad("P10", "entry", f"{opname(o)}: entry {(i, j)} is {d2} (in the list form {d1}), not {rows[i][j]}")
        rep = repr(M)
    except DecodeError as x:
        return W.bad("P10", "undecodable", f"{opname(o)}: {x}")
    if alts is None:
        if all(m.string_size(t) < 3000 for r in rows for t in r):
            want = "Matrix([" + ", ".join("[" + ", ".join(m.plain(t) for t in r) + "]" for r in rows) + "])"
            if rep != want:
                W.bad("P10", "repr", f"{opname(o)}: shown as {rep}, not {want}")
    return True


@op("mnew")
def _mnew(W, c, o):
    rows = [[W.t[i] for i in row] for row in o["rows"]]
    ents = [[t.value if t.kind == "Integer" and (o.get("im", 0) >> (3 * i + j)) & 1 else W.quiet_build(t)
             for j, t in enumerate(row)] for i, row in enumerate(rows)]
    before = [list(r) for r in ents]
    zero = W.m.int(0)

    def check(ok, M):
        for r, b in zip(ents, before):
            untouched(W, o, "matrix entries", r, b)
        if not ok:
            tr(W, c, err(M))
            return unexpected(W, "P10", o, M)
        pres = {(i, j) for i, r in enumerate(rows) for j, t in enumerate(r) if t is not zero}
        put_matrix(W, c, o, o.get("s"), M, rows, pres)
        # later changes to the caller's lists do not matter
        for r in ents:
            r.reverse()
            r.append(7)
        ents.append([1])
        check_matrix(W, o, M, rows)
        tr(W, c, repr(M))

    W.attempt(c, o, lambda: W.L.sc.Matrix(ents), check, passed=[("matrix entries", r, b) for r, b in zip(ents, before)])


@op("mbad")
def _mbad(W, c, o):
    """Malformed shapes, entries and indices are rejected without effect."""
    L = W.L
    Matrix = L.sc.Matrix
    e = W.quiet_build(W.t[o["t"]])
    k = o["k"]
    got = get_matrix(W, c, o["s"]) if "s" in o else None
    M = got[0] if got else Matrix([[e, 0], [1, e]])
    nr, nc = M.shape
    state = W.mat_state(M)
    i, j = o.get("ij", (0, 0))
    ok_exc = (TypeError,)

    def go():
        if k == "ragged":
            return Matrix([[e, 1], [e]])
        if k == "ragged2":
            return Matrix([[e, 1], [e], [1, e, e]])
        if k == "ragged3":
            return Matrix([[e], [e, 1]])
        if k == "ragged4":
            return Matrix([[e, 1], [e, 2], [e, 2, 0]])
        if k == "ragged5":
            return Matrix([[0, e, 0], [0, 0], [0, 0, 0], [e, e, e]])
        if k == "ragged6":
            return Matrix([[e, 1], [], [e, 1], [1, e, e, e]])
        if k == "notlist":
            return Matrix(((e, 1), (1, e)))
        if k == "rownotlist":
            return Matrix([[e, 1], (e, 1)])
        if k == "entry":
            return Matrix([[e, 1], [1, "q"]])
        if k == "entry2":
            return Matrix([[e, 1.5]])
        if k == "oob":
            return M[nr + i, j]
        if k == "oobc":
            return M[i % nr, nc + j]
        if k == "neg":
            return M[-1 - i, j % nc]
        if k == "negc":
            return M[i % nr, -1 - j]
        if k == "negboth":
            return M[-1 - i, -1 - j]
        if k == "negoob":
            return M[-1 - i, nc + j] if i % 2 else M[nr + i, -1 - j]
        if k == "wrap":
            return M[(i % nr) + nr, -nc + (j % nc)]
        if k == "idx1":
            return M[0]
        if k == "idx3":
            return M[0, 0, 0]
        if k == "idxs":
            return M["a", 0]
        if k == "idxf":
            return M[0.0, 0]
        if k == "idxslice":
            return M[0:1, 0]
        if k == "idxlist":
            return M[[0, 0]]
        if k == "shape":
            return M + Matrix([[e] * (nc + 1)] * nr)
        if k == "shape2":
            return Matrix([[e] * nc] * (nr + 1)) + M
        if k == "addnon":
            return M + e
        if k == "addint":
            return M + 1
        if k == "diffnon":
            return M.diff("x")
        raise KeyError(k)

    def check(ok, v):
        tr(W, c, outcome(v))
        if ok:
            return W.bad("P10", "accepted", f"{opname(o)}: accepted, gave {v!r}"[:300])
        want = IndexError if k in ("oob", "oobc", "neg", "negc", "negboth", "negoob", "wrap") else TypeError
        if not isinstance(v, want):
            W.bad("P10", "wrong-error", f"{opname(o)}: {err(v)}")

    W.attempt(c, o, go, check)
    try:
        now = W.mat_state(M)
    except Exception as x:
        now = repr(x)
    if now != state:
        W.bad("P10", "changed", f"{opname(o)}: the matrix changed from {state} to {now}")
        W.bad("P02", "matrix-changed", f"{opname(o)}: the matrix changed from {state} to {now}")


@op("madd")
def _madd(W, c, o):
    g1 = get_matrix(W, c, o["a"])
    g2 = get_matrix(W, c, o["b"])
    if g1 is None or g2 is None:
        return
    (A, ra, pa), (B, rb, pb) = g1, g2
    m = W.m
    shape_ok = len(ra) == len(rb) and len(ra[0]) == len(rb[0])
    f = o.get("f")
    F = W.quiet_build(W.t[f]) if f is not None else None
    head = W.t[f] if f is not None else m.fun("Add")
    sa, sb = W.mat_state(A), W.mat_state(B)

    def check(ok, M):
        if not shape_ok:
            if ok:
                W.bad("P10", "accepted", f"{opname(o)}: adding shapes {A.shape} and {B.shape} accepted")
            elif not isinstance(M, TypeError):
                W.bad("P10", "wrong-error", f"{opname(o)}: {err(M)}")
            return
        if not ok:
            tr(W, c, err(M))
            return unexpected(W, "P10", o, M)
        zero = m.int(0)
        rows, alts, pres = [], [], set()
        for i in range(len(ra)):
            row, alt = [], []
            for j in range(len(ra[0])):
                a, b = ra[i][j], rb[i][j]
                ina, inb = (i, j) in pa, (i, j) in pb
                extra = set()
                if ina and inb:
                    row.append(m.app(head, a, b))
                    if a is zero:  # an explicitly stored zero may count as absent
                        extra.add(b)
                    if b is zero:
                        extra.add(a)
                else:
                    row.append(a if ina else b)
                    if a is zero and ina or b is zero and inb:
                        extra |= {a, b}
                if ina or inb:
                    pres.add((i, j))
                alt.append(extra)
            rows.append(row)
            alts.append(alt)
        check_matrix(W, o, M, rows, alts)
        if any(e for r in alts for e in r):
            rows = [[W.decode(M[i, j]) for j in range(len(rows[0]))] for i in range(len(rows))]
        check_matrix(W, o, M, rows)
        tr(W, c, repr(M))
        put_matrix(W, c, o, o.get("s"), M, rows, pres)

    W.attempt(c, o, (lambda: A + B) if F is None else (lambda: A.binop(B, F)), check)
    for X, st, nm in ((A, sa, "left"), (B, sb, "right")):
        try:
            now = W.mat_state(X)
        except Exception as x:
            now = repr(x)
        if now != st:
            W.bad("P10", "operand-changed", f"{opname(o)}: {nm} operand changed from {st} to {now}")
            W.bad("P02", "matrix-changed", f"{opname(o)}: {nm} operand changed from {st} to {now}")


@op("mdiff")
def _mdiff(W, c, o):
    g = get_matrix(W, c, o["a"])
    if g is None:
        return
    M, rows, pres = g
    x = W.t[o["x"]]
    xr = W.quiet_build(x)
    want = []
    for row in rows:
        wr = []
        for t in row:
            try:
                wr.append(W.decode(W.quiet_build(t).diff(xr)))
            except Exception:
                return
        want.append(wr)

    def check(ok, D):
        if not ok:
            tr(W, c, err(D))
            return unexpected(W, "P10", o, D)
        check_matrix(W, o, D, want)
        tr(W, c, repr(D))
        put_matrix(W, c, o, o.get("s"), D, want, set(pres))

    W.attempt(c, o, lambda: M.diff(xr), check)


@op("mget")
def _mget(W, c, o):
    g = get_matrix(W, c, o["a"])
    if g is None:
        return
    M, rows, pres = g

    def go():
        lst = M.tolist()
        got = [[M[i, j] for j in range(len(rows[0]))] for i in range(len(rows))]
        return lst, got, repr(M)

    def check(ok, v):
        if not ok:
            tr(W, c, outcome(v))
            return unexpected(W, "P10", o, v)
        lst, got, rep = v
        tr(W, c, rep)
        try:
            for i, row in enumerate(rows):
                for j, t in enumerate(row):
                    a, b = W.decode(lst[i][j]), W.decode(got[i][j])
                    if a is not t or b is not t:
                        W.bad("P10", "entry", f"{opname(o)}: entry {(i, j)} is {b} / {a}, not {t}")
        except (DecodeError, IndexError) as x:
            return W.bad("P10", "tolist", f"{opname(o)}: {x!r}")
        for r in lst:
            r.clear()
        lst.append(3)
        check_matrix(W, o, M, rows)

    W.attempt(c, o, go, check)


# ---------------------------------------------------------------------------
# SymPy
# ---------------------------------------------------------------------------


def sympy_of(W, t, **kw):
    import sympy
    m = W.m
    A, M, P = m.fun("Add"), m.fun("Mul"), m.fun("pow")
    S, C, L = m.fun("sin"), m.fun("cos"), m.fun("List")

    def atom(u):
        return {"Integer": sympy.Integer, "Symbol": sympy.Symbol, "Function": sympy.Function}[u.kind](u.value)

    def f(h, a, u):
        if h is A:
            return sympy.Add(*a, **kw)
        if h is M:
            return sympy.Mul(*a, **kw)
        if h is P:
            return sympy.Pow(*a, **kw)
        if h is S:
            return sympy.sin(*a, **kw)
        if h is C:
            return sympy.cos(*a, **kw)
        if h is L:
            return sympy.Tuple(*a)
        return sympy.Function(m.raw_str(h))(*a)
    return m.evaluate(t, atom, f)


def sympy_same(a, b):
    if a == b and type(a) is type(b):
        return True
    import sympy
    try:
        if not isinstance(a, sympy.Expr) or not isinstance(b, sympy.Expr):
            return False
        if a.free_symbols != b.free_symbols or a.atoms(sympy.core.function.AppliedUndef) != b.atoms(sympy.core.function.AppliedUndef):
            return False
        rep = {s: sympy.Rational(3 + 2 * k, 7 + k) for k, s in enumerate(sorted(a.free_symbols, key=str))}
        d = (a - b).subs(rep)
        return bool(abs(complex(d.evalf(40))) < 1e-20)
    except Exception:
        return False


def from_sympy_supported(s):
    import sympy
    from sympy.core.function import AppliedUndef
    if isinstance(s, (sympy.Integer, sympy.Symbol)):
        return True
    if isinstance(s, (sympy.Add, sympy.Mul, sympy.Pow, sympy.sin, sympy.cos, sympy.Tuple, AppliedUndef)):
        return all(from_sympy_supported(a) for a in s.args)
    return False


def sy_unsupported():
    import sympy
    x = sympy.Symbol("x")
    y = sympy.Symbol("y")
    return [sympy.exp(x), sympy.Rational(1, 2), x + sympy.Rational(1, 3), sympy.Float(1.5), sympy.pi,
            sympy.I * x, sympy.tan(x), sympy.Integral(x, x), x < y, sympy.S.true, sympy.oo,
            sympy.Function("f")(x).diff(x), sympy.sin(sympy.exp(y)), sympy.Abs(x), sympy.E,
            sympy.atan2(x, y), sympy.besselj(x, y), sympy.Max(x, y), sympy.Mod(x, y), sympy.log(x), sympy.sinh(x),
            sympy.Piecewise((x, x < y), (y, True)), sympy.sqrt(2), sympy.binomial(x, y), sympy.Eq(x, y), sympy.And(x < y, y < 1),
            sympy.Lambda(x, x), sympy.FiniteSet(x, y), sympy.asin(x), sympy.sec(x), sympy.Dict({x: y}), sympy.nan, sympy.zoo,
            sympy.Rational(-7, 3), sympy.GoldenRatio, sympy.gamma(x), sympy.Derivative(sympy.Function("g")(x, y), y),
            sympy.S.Half * x, x ** sympy.Float(0.5), sympy.Limit(x, x, 0), sympy.KroneckerDelta(x, y)]


def sy_wrapped(s, w):
    """An unsupported object somewhere inside supported ones."""
    import sympy
    x = sympy.Symbol("x")
    if w == 0 or not isinstance(s, sympy.Basic):
        return s
    f = sympy.Function("f")
    try:
        r = [sympy.Tuple(x, s), sympy.Tuple(s, x), f(x, s), sympy.Tuple(x, sympy.Tuple(1, s), f(s)),
             f(sympy.Tuple(s)), sympy.Tuple(x, 1, f(x), s, x), sympy.Tuple(sympy.sin(x), sympy.cos(f(s)))][(w - 1) % 7]
    except Exception:
        return s
    return r if r.has(s) else s


@op("tosy")
def _tosy(W, c, o):
    t = W.t[o["t"]]
    e = W.quiet_build(t)
    try:
        want = sympy_of(W, t)
    except Exception:
        return
    import sympy
    if want.has(sympy.nan, sympy.zoo, sympy.oo):
        return
    how = o.get("how", 0)

    def go():
        if how == 1:
            return sympy.sympify(e)
        return e.to_sympy()

    def check(ok, v):
        if not ok:
            tr(W, c, outcome(v))
            return unexpected(W, "P11", o, v)
        tr(W, c, str(v))
        if not sympy_same(v, want):
            return W.bad("P11", "to-sympy", f"{opname(o)}: {t} converts to {sympy.srepr(v)[:300]}, not {sympy.srepr(want)[:300]}")
        if from_sympy_supported(v) and W.want("P11", "P13"):
            _roundtrip(W, c, o, v)

    W.attempt(c, o, go, check)


def _roundtrip(W, c, o, s):
    import sympy

    def check(ok, r):
        if not ok:
            return unexpected(W, "P11", o, r)
        p, back = r
        if type(p) is not W.L.Expr:
            W.bad("P11", "from-sympy", f"{opname(o)}: from_sympy gave {type(p)}")
        if back != s or type(back) is not type(s):
            W.bad("P11", "roundtrip", f"{opname(o)}: {sympy.srepr(s)[:300]} came back as {sympy.srepr(back)[:300]}")
        if sympy_of(W, W.decode(p)) != s:
            W.bad("P11", "from-sympy", f"{opname(o)}: {s} converted to {p}")

    def go():
        p = W.L.Expr.from_sympy(s)
        return p, p.to_sympy()
    W.attempt(c, o, go, check)


@op("fromsy")
def _fromsy(W, c, o):
    """SymPy object -> library -> SymPy."""
    if o.get("bad") is not None:
        bads = sy_unsupported()
        s = sy_wrapped(bads[o["bad"] % len(bads)], o.get("wrap", 0))

        def check(ok, v):
            tr(W, c, outcome(v))
            if ok:
                W.bad("P11", "accepted", f"{opname(o)}: unsupported SymPy object {s!r} gave {v!r}")
        W.attempt(c, o, lambda: W.L.Expr.from_sympy(s), check)
        return
    t = W.t[o["t"]]
    try:
        s = sympy_of(W, t)
    except Exception:
        return
    if not from_sympy_supported(s):
        return
    if o.get("uneval"):
        _unevaluated(W, c, o, t)
    _roundtrip(W, c, o, s)


def _unevaluated(W, c, o, t):
    """A SymPy object that SymPy would have simplified keeps its value."""
    import sympy
    try:
        s = sympy_of(W, t, evaluate=False)
        want = sympy_of(W, t)
    except Exception:
        return
    if not from_sympy_supported(s) or want.has(sympy.nan, sympy.zoo, sympy.oo):
        return

    def check(ok, p):
        if not ok:
            return unexpected(W, "P11", o, p)
        d = dec(W, "P11", o, p)
        if d is None:
            return
        try:
            got = sympy_of(W, d)
        except Exception as x:
            return W.bad("P11", "from-sympy", f"{opname(o)}: {s!r} (unevaluated) converted to {d}: {err(x)}")
        if not sympy_same(got, want):
            W.bad("P11", "from-sympy", f"{opname(o)}: {s!r} (unevaluated) converted to {d}, which is {got}, not {want}")

    W.attempt(c, o, lambda: W.L.Expr.from_sympy(s), check)


@op("msy")
def _msy(W, c, o):
    """Matrix <-> SymPy, both directions."""
    import sympy
    rows = [[W.t[i] for i in row] for row in o["rows"]]
    try:
        want = sympy.Matrix([[sympy_of(W, t) for t in row] for row in rows])
    except Exception:
        return
    if want.has(sympy.nan, sympy.zoo, sympy.oo):
        return
    M = W.L.sc.Matrix([[W.quiet_build(t) for t in row] for row in rows])
    back_ok = all(from_sympy_supported(x) for x in want)
    # SymPy has four kinds of matrices
    conv = {"im": sympy.ImmutableMatrix, "sp": sympy.SparseMatrix, "isp": sympy.ImmutableSparseMatrix}.get(o.get("mk"), lambda S: S)

    def go():
        S = M.to_sympy()
        if not back_ok:
            return S, None, None
        B = W.L.sc.Matrix.from_sympy(conv(S))
        return S, B, B.to_sympy()

    def check(ok, v):
        if not ok:
            tr(W, c, outcome(v))
            return unexpected(W, "P11", o, v)
        S, B, S2 = v
        tr(W, c, str(S))
        if S.shape != want.shape or not all(sympy_same(a, b) for a, b in zip(S, want)):
            W.bad("P11", "matrix-to-sympy", f"{opname(o)}: {rows} converts to {S}, not {want}")
        if B is None:
            return
        tr(W, c, repr(B))
        if S2 != S or S2.shape != S.shape or tuple(B.shape) != S.shape:
            W.bad("P11", "matrix-roundtrip", f"{opname(o)}: {S} came back as {S2}")
        for i in range(S.shape[0]):
            for j in range(S.shape[1]):
                d = W.decode(B[i, j])
                if sympy_of(W, d) != S[i, j]:
                    W.bad("P11", "matrix-from-sympy", f"{opname(o)}: entry {(i, j)} of {S} became {d}")

    W.attempt(c, o, go, check)


# ---------------------------------------------------------------------------
# many short-lived expressions that differ only at the root, one after another
# (each is dropped before the next is built, probably at the same address)
# ---------------------------------------------------------------------------


@op("sibs")
def _sibs(W, c, o):
    L, m, what = W.L, W.m, o["what"]
    items = [(W.t[h], [W.t[a] for a in args]) for h, args in o["items"]]
    terms = [m.app(h, *args) for h, args in items]
    if any(m.string_size(t) > 3000 for t in terms):
        return
    real = [(W.quiet_build(h), [W.quiet_build(a) for a in args]) for h, args in items]
    x, y = m.sym("x"), m.sym("y")
    X, Y = W.quiet_build(x), W.quiet_build(y)
    at = {x: 0.5, y: 1.25}
    D = L.sc.diff
    if what == "ev":
        E = L.evaluate.Evaluator()
        E.add_atom_generic(lambda a: ("a", str(W.quiet_decode(a))))
        E.add_op_generic(lambda h, args: (str(W.quiet_decode(h)), *args))
    dq = W.quiet_decode
    fns = {
        "str": str, "latex": lambda e: e.eval_latex(), "tree": lambda e: e.count_ops_tree(),
        "graph": lambda e: e.count_ops_graph(), "tstr": lambda e: str(e.rep),
        "diff": lambda e: dq(D(e, X)), "mdiff": lambda e: dq(e.diff(X)),
        "topo": lambda e: [dq(u) for u in L.tree.topological_sort(e.rep, heads=True)],
        "fg": lambda e: _fg_replay(W, dq, L.tree.forward_graph(e.rep)),
        "subs": lambda e: dq(e.xreplace({X: Y})), "func": lambda e: dq(e.as_function(X, Y)(Y, X)),
        "binx": lambda e: dq(e.bin_expand()), "f64": lambda e: e.eval_f64({X: 0.5, Y: 1.25}),
        "ev": lambda e: E(e.rep), "sympy": lambda e: e.to_sympy(),
        "jit": lambda e: L.sc.lambdify([X, Y], e)(0.5, 1.25),
        "ir": lambda e: e.to_llvm_ir([X, Y]),
        "args": lambda e: (dq(e.head), [dq(a) for a in e.args]),
    }
    f = fns[what]

    def one(H, args):
        e = H(*args)
        try:
            return f(e)
        except (TypeError, L.NoRule, L.LLVMNotImplemented, KeyError, ArithmeticError, ValueError) as ex:
            if W.faulted(c, ex):
                raise
            return type(ex)

    def go():
        return [one(H, args) for H, args in real]

    def check(ok, v):
        if not ok:
            tr(W, c, outcome(v))
            return unexpected(W, SIBPROP[what], o, v)
        if W.transcripts is not None:
            raw = lambda u: m.raw_repr(u, W.kind_names)
            tr(W, c, *[[raw(u) for u in r] if isinstance(r, list) else raw(r) if hasattr(r, "ch") else r for r in v])
        for t, r in zip(terms, v):
            _sib_judge(W, c, o, what, t, r, x, y, at)

    W.attempt(c, o, go, check)


SIBPROP = {"str": "P14", "latex": "P14", "tree": "P14", "graph": "P14", "tstr": "P14", "diff": "P07", "mdiff": "P07", "topo": "P08",
           "fg": "P08", "subs": "P06", "func": "P06", "binx": "P15", "args": "P15", "f64": "P04", "ev": "P04", "sympy": "P11",
           "jit": "P09", "ir": "P16"}


def _fg_replay(W, dq, g):
    m = W.m
    stack = [dq(a) for a in g.atoms]
    for head, indices in g.operations:
        stack.append(m.app(dq(head), *[stack[i] for i in indices]))
    return stack


def _sib_judge(W, c, o, what, t, r, x, y, at):
    m, prop = W.m, SIBPROP[what]

    def bad(want):
        W.bad(prop, "sibling-" + what, f"{opname(o)}: {what} of {t} is {r!r}, not {want!r}")

    failed = isinstance(r, type)
    if what in ("str", "latex", "tree", "graph", "tstr"):
        fn = {"str": m.plain, "latex": m.latex, "tree": m.count_tree, "graph": m.count_graph, "tstr": m.raw_str}[what]
        try:
            want = fn(t)
        except Exception:
            return
        if r != want:
            bad(want)
    elif what in ("diff", "mdiff"):
        rules, dist = W.more_rules or builtin_rules(W), {m.fun("List")}
        if failed:
            if has_rules(m, t, x, rules, dist):
                bad("a derivative")
            return
        algebra(W, o, t, x, r, rules, dist)
    elif failed:
        if what in ("topo", "fg", "subs", "func", "args", "ev") or what == "binx" and binary(m, t):
            bad("a result")
    elif what == "topo":
        check_sort(W, o, t, None, True, set(), r)
    elif what == "fg":
        if not r or r[-1] is not t:
            bad(t)
    elif what == "subs":
        want = m.subst(t, {x: y})
        if r is not want:
            bad(want)
    elif what == "func":
        want = m.subst(t, {x: y, y: x})
        if r is not want:
            bad(want)
    elif what == "binx":
        want = binary(m, t)
        if want is not None and r is not want:
            bad(want)
    elif what == "args":
        if (r[0], list(r[1])) != (t.ch[0], list(t.ch[1:])):
            bad(t.ch)
    elif what == "ev":
        want = m.evaluate(t, lambda u: ("a", str(u)), lambda h, a, u: (str(h), *a))
        if r != want:
            bad(want)
    elif what in ("f64", "jit"):
        try:
            v, tol = m.f64(t, at)
        except (OverflowError, ValueError, ZeroDivisionError, KeyError):
            return
        if not close(r, v, tol):
            bad(v)
    elif what == "sympy":
        try:
            want = sympy_of(W, t)
        except Exception:
            return
        import sympy
        if not want.has(sympy.nan, sympy.zoo, sympy.oo) and not sympy_same(r, want):
            bad(want)


# ---------------------------------------------------------------------------
# size and depth (P12)
# ---------------------------------------------------------------------------


def big_term(W, shape, n):
    m = W.m
    x, y = m.sym("x"), m.sym("y")
    f, g = m.fun("f"), m.fun("g")
    sin, cos = m.fun("sin"), m.fun("cos")
    A, M = m.fun("Add"), m.fun("Mul")
    if shape == "chain":
        t = x
        for k in range(n):
            t = m.app((sin, cos)[k % 2], t)
        return t
    if shape == "fchain":
        t = x
        for k in range(n):
            t = m.app(f, t, y) if k % 3 else m.app(g, t)
        return t
    if shape == "addchain":
        t = x
        for k in range(n // 2):
            t = m.app(A, t, m.int(k % 50)) if k % 2 else m.app(M, m.int(2), t)
        return t
    if shape == "shared":
        t = x
        for k in range(n):
            t = m.app(A, t, t) if k % 2 else m.app(M, t, t)
        return t
    if shape == "fib":
        a, b = x, y
        for k in range(n):
            a, b = b, m.app(A, a, b)
        return b
    if shape == "powshared":
        t = x
        for k in range(n // 2):
            t = m.app(A, m.pow(t, m.int(2)), t)
        return t
    if shape == "wide":
        return m.app(A, *[m.app(M, m.int(k), x) for k in range(n)])
    if shape == "wideatoms":
        return m.app(A, *[m.sym(f"w{k}") for k in range(n)])
    if shape == "headchain":
        t = f
        for k in range(n):
            t = m.app(t, x, y) if k % 3 else m.app(t)
        return t
    if shape == "fan":
        t = x
        for k in range(n // 8):
            t = m.app(A if k % 2 else f, *([t] * 7), y)
        return t
    if shape == "heads":
        return m.app(A, *[m.app(m.fun(f"F{k}"), x) for k in range(n)])
    if shape == "ladder":
        a, b = x, y
        for k in range(n // 2):
            a, b = m.app(f, a, b), m.app(g, b, a)
        return m.app(f, a, b)
    if shape == "comb":
        t = x
        for k in range(n // 2):
            t = m.app(A, m.app(sin, m.sym(f"w{k}")), t)
        return t
    if shape == "fshared":
        t = x
        for k in range(n):
            t = m.app(f, t, t)
        return t
    raise KeyError(shape)


def big_run(W, c, o, shape, what, n):
    """Returns (instructions used, result check) for one size."""
    m, L = W.m, W.L
    t = big_term(W, shape, n)
    if what == "build":
        e = None
    else:
        e = W.quiet_build(t)
    size = sum(max(1, len(u.ch)) for u in m.subterms(t, heads=True))
    xr = L.sc.x
    if what == "build":
        fn = lambda: W.build(t, 3)
        chk = lambda v: W.decode(v) is t
    elif what == "buildcore":
        fn = lambda: W.build(t, 3, "Tree")
        chk = lambda v: W.decode(v) is t
    elif what == "drop":
        box = [e]
        e = None

        def fn():
            box.clear()
        chk = lambda v: True
    elif what == "topo":
        fn = lambda: L.tree.topological_sort(e.rep)
        chk = lambda v: len(v) == m.count_graph(t)
    elif what == "topoheads":
        fn = lambda: L.tree.topological_sort(e.rep, heads=True)
        chk = lambda v: len(v) == len(m.subterms(t, heads=True))
    elif what == "split":
        fn = lambda: L.tree.topological_split(e.rep)
        chk = lambda v: len(v[0]) + len(v[2]) == m.count_graph(t)
    elif what == "fg":
        fn = lambda: L.tree.forward_graph(e.rep)
        chk = lambda v: len(v.atoms) + len(v.operations) == m.count_graph(t)
    elif what == "eval":
        ev = L.evaluate.Evaluator()
        ev.add_atom_generic(lambda a: 1)
        ev.add_op_generic(lambda h, a: (sum(a) + 1) % 1000003)
        want = m.evaluate(t, lambda u: 1, lambda h, a, u: (sum(a) + 1) % 1000003)
        fn = lambda: ev(e.rep)
        chk = lambda v: v == want
    elif what == "symeval":
        S = L.sym
        ev = L.Expr.new_evaluator("big", int)
        a, b = L.sc.a, L.sc.b
        ev[S.AtomRule[a]] = S.AtomFunc(lambda u: 1)(a)
        ev[S.HeadRule(a, b)] = S.HeadOp(lambda h, x: (sum(x) + 1) % 1000003)(a, b)
        want = m.evaluate(t, lambda u: 1, lambda h, a, u: (sum(a) + 1) % 1000003)
        fn = lambda: ev(e)
        chk = lambda v: v == want
    elif what == "f64":
        fn = lambda: e.eval_f64({xr: 0.5, L.sc.y: 0.25})
        chk = lambda v: isinstance(v, float)
    elif what == "trans":
        T = L.evaluate.Transformer()
        fn = lambda: T(e.rep)
        chk = lambda v: v is e.rep or v == e.rep
    elif what == "binx":
        fn = lambda: e.bin_expand()
        chk = lambda v: isinstance(v, L.Expr)
    elif what == "diff":
        fn = lambda: e.diff(xr)
        chk = lambda v: isinstance(v, L.Expr)
    elif what == "diff0":
        z = W.quiet_build(m.sym("zz"))
        fn = lambda: e.diff(z)
        chk = lambda v: v is L.sc.zero
    elif what == "diff2":
        fn = lambda: e.diff(xr, 2)
        chk = lambda v: isinstance(v, L.Expr)
    elif what == "rdiff":
        D = L.sym.SymDifferentiator(L.sc.Expr, add=L.sc.Add, mul=L.sc.Mul, zero=L.sc.zero, one=L.sc.one)
        a, b = L.sc.a, L.sc.b
        F, G = W.quiet_build(m.fun("f")), W.quiet_build(m.fun("g"))
        D[F(a, b), a] = G(a, b)
        D[F(a, b), b] = G(b, a)
        if shape != "fchain":
            D[G(a, b), a] = F(b, a)
        if shape != "fchain":
            D[G(a, b), b] = F(a, b)
        else:
            D[G(a), a] = G(a)
        fn = lambda: D(e, xr)
        chk = lambda v: isinstance(v, L.Expr)
    elif what == "subs0":
        z = W.quiet_build(m.sym("zz"))
        fn = lambda: e.xreplace({z: xr})
        chk = lambda v: v is e
    elif what == "subsmid":
        sub = m.subterms(t)
        mid = sub[len(sub) // 2]
        z = W.quiet_build(m.sym("zz"))
        mr = W.quiet_build(mid)
        want = m.subst(t, {mid: m.sym("zz")})
        fn = lambda: e.xreplace({mr: z})
        chk = lambda v: W.decode(v) is want
    elif what == "topoex":
        sub = m.subterms(t)
        mid = W.quiet_build(sub[len(sub) // 2], "Tree")
        fn = lambda: L.tree.topological_sort(e.rep, exclude=[mid])
        chk = lambda v: 0 < len(v) < len(sub)
    elif what == "evalvals":
        ev = L.evaluate.Evaluator()
        ev.add_op_generic(lambda h, a: (sum(a) + 1) % 1000003)
        vals = {W.quiet_build(u, "Tree"): 1 for u in m.subterms(t) if not u.ch}
        want = m.evaluate(t, lambda u: 1, lambda h, a, u: (sum(a) + 1) % 1000003)
        fn = lambda: ev(e.rep, vals)
        chk = lambda v: v == want
    elif what == "trvals":
        T = L.evaluate.Transformer()
        F, G = L.tree.Tr(W.atype["Function"]("f")), L.tree.Tr(W.atype["Function"]("g2"))
        T.add_opn(F, lambda args: G(*args))
        z = W.quiet_build(m.sym("zz"), "Tree")
        want = m.subst(t, {m.sym("x"): m.sym("zz")})
        want = m.evaluate(want, lambda u: u, lambda h, a, u: m.app(m.fun("g2") if h is m.fun("f") else h, *a))
        fn = lambda: T(e.rep, {xr.rep: z})
        chk = lambda v: W.decode(v) is want
    elif what == "str":
        fn = lambda: (str(e), e.eval_latex())
        chk = lambda v: len(v[0]) > n
    elif what == "mnew":
        fn = lambda: L.sc.Matrix([[e, e], [0, e]])
        chk = lambda v: v.shape == (2, 2)
    elif what == "rebuild":
        fn = lambda: e.head(*e.args)
        chk = lambda v: v is e
    elif what == "subs":
        z = W.quiet_build(m.sym("zz"))
        want = m.subst(t, {m.sym("x"): m.sym("zz")})
        fn = lambda: e.xreplace({xr: z})
        chk = lambda v: W.decode(v) is want
    elif what == "subscall":
        z = W.quiet_build(m.sym("zz"))
        F = e.as_function(xr)
        want = m.subst(t, {m.sym("x"): m.sym("zz")})
        fn = lambda: F(z)
        chk = lambda v: W.decode(v) is want
    elif what == "ctree":
        want = m.count_tree(t)
        fn = lambda: e.count_ops_tree()
        chk = lambda v: v == want
    elif what == "cgraph":
        want = m.count_graph(t)
        fn = lambda: e.count_ops_graph()
        chk = lambda v: v == want
    elif what == "ir":
        fn = lambda: e.to_llvm_ir([xr, L.sc.y])
        chk = lambda v: isinstance(v, str)
    elif what == "mdiff":
        M = L.sc.Matrix([[e, 0], [1, e]])
        fn = lambda: M.diff(xr)
        chk = lambda v: v.shape == (2, 2)
    elif what == "mir":
        M = L.sc.Matrix([[e, 0], [1, e]])
        fn = lambda: M.to_llvm_ir([xr, L.sc.y])
        chk = lambda v: isinstance(v, str)
    elif what == "tosy":
        fn = lambda: e.to_sympy()
        chk = lambda v: True
    else:
        raise KeyError(what)
    return fn, chk, size


def count_comparisons(W):
    """Comparisons that C code makes (searching a list, say) become steps.

    Classes that compare by identity get an equivalent Python-level __eq__."""
    L = W.L
    for cls in (L.Tree, L.Atom, L.Sym):
        if cls.__eq__ is object.__eq__:
            def __eq__(self, other):
                return True if self is other else NotImplemented
            engine.instrument(__eq__.__code__)
            cls.__eq__ = __eq__


@op("big")
def _big(W, c, o):
    """One operation on a deep / shared / wide expression at two sizes."""
    count_comparisons(W)
    shape, what = o["shape"], o["what"]
    sizes = o["n"]
    cost = []
    for n in sizes:
        fn, chk, size = big_run(W, c, o, shape, what, n)
        box = {}

        def check(ok, v):
            if not ok:
                tr(W, c, outcome(v))
                if isinstance(v, RecursionError):
                    W.bad("P12", "depth-limit", f"{what} of a {shape} expression of {n} levels: {err(v)}")
                W.bad("P12", "unexpected-error", f"{what} of a {shape} expression of {n} levels: {err(v)}")
                return
            if not chk(v):
                W.bad("P12", "wrong-result", f"{what} of a {shape} expression of {n} levels gave a wrong result")
            box["ok"] = True

        n0, (b0, c0) = c.n, ccount.now()
        ok = {}

        def run():
            v = fn()
            ok["now"] = ccount.now()
            return v

        r = W.attempt(c, o, run, check)
        r = None
        if not box:
            return
        b1, c1 = ok["now"]
        steps = c.n - n0 + c1 - c0
        cost.append((steps / size, steps, size, (b1 - b0) / size, b1 - b0))
        fn = chk = None
    if len(cost) == 2 and cost[0][1] > 2000 and cost[1][0] > o.get("factor", 1.5) * cost[0][0] + 20:
        W.bad("P12", "superlinear", f"{what} of a {shape} expression: {cost[0][1]} steps at size {cost[0][2]}, {cost[1][1]} at size {cost[1][2]}")
    if len(cost) == 2 and len(W.sim.clients) == 1 and what not in ("ctree", "str") and cost[1][3] > 1.35 * cost[0][3] + 200:
        # (operation counts and texts are themselves of any length)
        W.bad("P12", "superlinear", f"{what} of a {shape} expression: {cost[0][4]} bytes allocated at size {cost[0][2]}, {cost[1][4]} at size {cost[1][2]}")


# ---------------------------------------------------------------------------
# memory growth (P03)
# ---------------------------------------------------------------------------

LEAK = ["names", "print", "count", "f64", "diff", "subs", "func", "binx", "trav", "ev", "trans", "matrix", "ir", "fail", "failsub", "core", "rdiff"]


def leak_step(W, what, k, tools):
    """One use-and-drop of an expression nobody has seen before."""
    L = W.L
    sc = L.sc
    x = sc.Symbol(f"leak{k}")
    e = sc.Function("sin")(x * (k + 1000) + 1) ** 2 + x
    if what == "names":
        assert sc.Symbol(f"leak{k}") is x and sc.Function(f"leak{k}")(x, e) is not e
    elif what == "print":
        str(e), repr(e), e.eval_latex(), str(e.rep), repr(e.rep)
    elif what == "count":
        e.count_ops_tree(), e.count_ops_graph()
    elif what == "f64":
        e.eval_f64({x: 0.5})
    elif what == "diff":
        e.diff(x, 2), e.diff(sc.y)
    elif what == "subs":
        e.xreplace({x: e}), e.xreplace({e: x})
    elif what == "func":
        f = e.as_function(x)
        f(e), f(x)
    elif what == "binx":
        sc.Add(e, x, e).bin_expand()
    elif what == "trav":
        L.tree.topological_sort(e.rep), L.tree.topological_sort(e.rep, heads=True, exclude=[x.rep])
        L.tree.topological_split(e.rep), L.tree.forward_graph(e.rep)
    elif what == "ev":
        tools["ev"](e.rep), tools["ev"](e.rep, {x.rep: 5})
    elif what == "trans":
        tools["tr"](e.rep), tools["tr"](e.rep, {x.rep: e.rep})
    elif what == "matrix":
        M = sc.Matrix([[e, 0], [1, x]])
        N = M + M.diff(x)
        N[0, 0], N.tolist(), repr(N)
    elif what == "ir":
        e.to_llvm_ir([x]), sc.Matrix([[e, 1]]).to_llvm_ir([x])
    elif what == "fail":
        for bad in (lambda: e.eval_f64({}), lambda: e + "s", lambda: e.diff(e), lambda: e.to_llvm_ir([]), lambda: tools["none"](e.rep),
                    lambda: sc.Matrix([[e], [x, x]]), lambda: e(e, 1.5), lambda: sc.Matrix([[e]])[5, 5]):
            try:
                bad()
            except Exception:
                pass
    elif what == "failsub":
        f = e.as_function(x, sc.y)
        for bad in (lambda: f(e), lambda: f(e, "s"), lambda: L.Tree(e.rep, None), lambda: L.Tr(e), lambda: sc.Function("nodiff")(e).diff(x)):
            try:
                bad()
            except Exception:
                pass
    elif what == "core":
        t = L.Tree(e.rep, x.rep, e.rep)
        t(t), L.Sym(t), L.Expr(t), W.cls["MySym"](t)
    elif what == "rdiff":
        f = sc.Function("f")(e, x)
        tools["tr"](f.rep), f.xreplace({sc.Function("f"): sc.Function(f"leak{k}")})


def leak_tools(W):
    L = W.L
    ev = L.evaluate.Evaluator()
    ev.add_atom_generic(lambda a: 1)
    ev.add_op_generic(lambda h, a: sum(a))
    return {"ev": ev, "tr": L.evaluate.Transformer(), "none": L.evaluate.Evaluator()}


@op("warm")
def _warm(W, c, o):
    """A long history of other people's work of one kind."""
    tools = leak_tools(W)
    try:
        for k in range(o["n"]):
            engine.IDLE = 0
            leak_step(W, o["what"], k, tools)
    except Exception as e:
        if not W.import_race(e):
            unexpected(W, {"print": "P14", "count": "P14", "diff": "P07", "subs": "P06", "func": "P06", "binx": "P15", "trav": "P08",
                           "ev": "P04", "f64": "P04", "matrix": "P10", "ir": "P09"}.get(o["what"], "P15"), o, e)
    W.checked += 1


@op("bulk")
def _bulk(W, c, o):
    """Many live expressions at once, each of which must be found again."""
    L = W.L
    k, n = o["k"], o["n"]
    S = W.atype["Symbol"]
    f = L.sc.Function("bulk").rep
    x = L.sc.x

    def make(i):
        if k == "atom":
            return S(f"b{i}")
        if k == "tratom":
            return L.Tr(S(f"b{i}"))
        if k == "tree":
            return L.Tree(f, L.Tr(S(f"b{i}")))
        if k == "int":
            return L.sc.Integer(i * 7 + 1000)
        if k == "chain":
            return L.Tree(f, got[i - 1]) if i else L.Tree(f)
        return x + i if i % 2 else L.sc.Symbol(f"b{i}")

    got = []

    def go():
        got.clear()
        for i in range(n):
            got.append(make(i))
        bad = []
        for j in range(n):
            i = (j * o["step"] + 1) % n
            g = make(i)
            if g is not got[i] and (k in ("int", "mixed") or not (g == got[i] and hash(g) == hash(got[i]))):
                bad.append(i)
        return bad

    def check(ok, v):
        if not ok:
            return unexpected(W, "P01", o, v)
        if v:
            W.bad("P01", "duplicate", f"{n} live {k} expressions: building number {v[0]} again gives another object ({len(v)} of them)")
        if len(set(map(id, got))) != n:
            W.bad("P01", "conflated", f"{n} different live {k} expressions are only {len(set(map(id, got)))} objects")
        got.clear()

    W.attempt(c, o, go, check)


@op("leak")
def _leak(W, c, o):
    """Many expressions used and dropped: nothing accumulates."""
    n = o["n"]
    tools = leak_tools(W)

    def measure():
        gc.collect()
        return sys.getallocatedblocks(), sum(map(sys.getsizeof, gc.get_objects()))

    def go():
        k = 0
        out = []
        for rnd in range(4):
            for _ in range(n if rnd else 10):
                engine.IDLE = 0
                leak_step(W, o["what"], k, tools)
                k += 1
            out.append(measure())
        return out

    def check(ok, v):
        if not ok:
            return unexpected(W, "P03", o, v)
        blocks = min(v[2][0] - v[1][0], v[3][0] - v[2][0])
        size = min(v[2][1] - v[1][1], v[3][1] - v[2][1])
        if blocks >= n * 0.5 or size >= 8 * n:
            W.bad("P03", "growth", f"{o['what']}: every {n} expressions used and dropped leave {blocks} memory blocks, {size} bytes of containers behind")

    try:
        r = True, go()
    except Exception as e:
        r = False, e
    check(*r)
    W.checked += 1


# ---------------------------------------------------------------------------
# setup of shared objects
# ---------------------------------------------------------------------------


def setup(W):
    engine.instrument(_rule_body.__code__)
    Key.hook = lambda key, what: engine.callback_point()
    W.clock = 0
    W.keep = []
    W.closing = False
    W.dmemo = {}
    W.more_rules = None

    def tick():
        W.clock += 1
        return W.clock
    W.tick = tick

    def quiet_decode(x):
        c = engine.CUR
        if c is None:
            return W.decode(x)
        was, c.inop = c.inop, False
        try:
            return W.decode(x)
        finally:
            c.inop = was
    W.quiet_decode = quiet_decode
    W.tokhead = lambda tok: W.L.sc.Function(f"T{tok}")
    W.transcripts = {} if W.plan.get("transcript") else None
    for name, d in W.plan.get("shared", {}).items():
        k = d["k"]
        if k == "subs":
            t = W.t[d["t"]]
            frm = [W.t[i] for i in d["args"]]
            core = d["api"] == "SubsFunc"
            if core:
                args = [W.quiet_build(x, "Tree") for x in frm]
                f = W.L.tree.SubsFunc(W.quiet_build(t, "Tree"), args)
                args.reverse()
                args.append(args[0])
            else:
                f = W.quiet_build(t).as_function(*[W.quiet_build(x) for x in frm])
            W.obj[name] = (f, t, frm, core)
        elif k == "eval":
            W.obj[name] = (make_eval(W, d), d)
        elif k == "trans":
            W.obj[name] = (make_trans(W, d), d)
        elif k == "diff":
            W.obj[name] = (make_diff(W, d), d)
        elif k == "reg":
            W.obj[name] = (RegObj(W, d), d)
        else:
            raise KeyError(k)


# ---------------------------------------------------------------------------
# after the programs: P03
# ---------------------------------------------------------------------------


def closing_checks(W, base):
    """Everything the clients held is dropped; nothing may stay alive."""
    if not W.want("P03"):
        return
    import sys as _s
    m = W.m

    def forget_exceptions():
        for c in W.sim.clients:
            c.injected = []
            c.scratch = None
            c.op = None
        W.sim.trace_exc = None

    forget_exceptions()
    W.late = []
    W.keep = []
    gc.collect()
    # 1. while slots are still held: live nodes are exactly those reachable
    held = held_terms(W)
    judge_live(W, base, held, "with objects still held", partial=any(
        e[3] and e[3][0] == "mat" or e[1] is None for d in [W.gslots] + [c.slots for c in W.sim.clients] for e in d.values()))
    W.gslots.clear()
    for c in W.sim.clients:
        c.slots.clear()
    W.late = []
    gc.collect()
    judge_live(W, base, [], "after everything was dropped")
    W.obj.clear()
    W.dmemo.clear()
    gc.collect()
    if not any(d["k"] == "reg" for d in W.plan.get("shared", {}).values()):
        judge_live(W, base, [], "after the reusable functions and rule tables were dropped", own=False)


def held_terms(W):
    held = []
    m = W.m
    for d in [W.gslots] + [c.slots for c in W.sim.clients]:
        for e in d.values():
            if e[1] is not None:
                held.append(e[1])
            elif e[3] and e[3][0] == "mat":
                held.extend(t for row in e[3][3] for t in row)
                held.append(m.app(m.fun("List"), *[e[3][3][i][j] for i, j in sorted(e[3][2])]))
    return held


def judge_live(W, base, held, when, partial=False, own=True):
    m = W.m
    allowed = set()
    for t in held:
        allowed.update(m.subterms(t, heads=True))
    if own:
        for d in W.plan.get("shared", {}).values():
            if d["k"] == "subs":
                for i in [d["t"]] + d["args"]:
                    allowed.update(m.subterms(W.t[i], heads=True))
            elif d["k"] in ("eval", "trans"):
                for r in d["ops"]:
                    allowed.update(m.subterms(W.t[r[0]], heads=True))
                    if d["k"] == "trans":
                        allowed.update(m.subterms(W.t[r[1]], heads=True))
            elif d["k"] == "diff":
                for h, n, i, rhs, wilds in d["rules"]:
                    allowed.update(m.subterms(W.t[rhs], heads=True))
                    allowed.add(W.t[h])
                    allowed.update(W.t[w] for w in wilds)
                    allowed.add(m.app(W.t[h], *[W.t[w] for w in wilds]))
                for h in d.get("dist", []):
                    allowed.add(W.t[h])
    if partial:
        return
    for x in W.live():
        if id(x) in base:
            continue
        t = W.decode(x)
        if t not in allowed:
            import types
            who = [type(r).__name__ for r in gc.get_referrers(x) if not isinstance(r, types.FrameType)]
            W.bad("P03", "leak", f"{when}: {type(x).__name__} for {short(t)} is still alive (referrers: {sorted(set(who))})")
