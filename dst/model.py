"""Reference model: hash-consed terms and the meaning of every operation on them.

Shares no code and no data structure with protosym.  Everything is iterative or
memoised so that deep and heavily shared terms are cheap.
"""

import math

ATOM = "atom"


class T:
    """A term.  Identity is structural equality (within one Model)."""

    __slots__ = ("id", "kind", "value", "ch")

    def __init__(self, id, kind, value, ch):
        self.id = id
        self.kind = kind  # None for compound terms
        self.value = value
        self.ch = ch  # () for atoms, (head, *args) otherwise

    @property
    def head(self):
        return self.ch[0]

    @property
    def args(self):
        return self.ch[1:]

    def __repr__(self):
        return short(self)


def short(t, depth=4):
    if not t.ch:
        return f"{t.value}" if t.kind in ("Integer", "Symbol", "Function") else f"{t.kind}:{t.value!r}"
    if depth == 0:
        return "..."
    return f"{short(t.ch[0], depth-1)}({', '.join(short(c, depth-1) for c in t.ch[1:])})"


def vkey(v):
    """Key under which two atom values are the same value."""
    if isinstance(v, float):
        return ("float", v.hex())
    return (type(v).__name__, v)


class Model:
    def __init__(self):
        self.terms = []
        self._atoms = {}
        self._apps = {}

    def atom(self, kind, value):
        k = (kind, vkey(value))
        t = self._atoms.get(k)
        if t is None:
            t = self._atoms[k] = T(len(self.terms), kind, value, ())
            self.terms.append(t)
        return t

    def app(self, *ch):
        t = self._apps.get(ch)
        if t is None:
            t = self._apps[ch] = T(len(self.terms), None, None, ch)
            self.terms.append(t)
        return t

    # -- common shorthands -----------------------------------------------
    def int(self, n):
        return self.atom("Integer", n)

    def sym(self, s):
        return self.atom("Symbol", s)

    def fun(self, s):
        return self.atom("Function", s)

    def add(self, *a):
        return self.app(self.fun("Add"), *a)

    def mul(self, *a):
        return self.app(self.fun("Mul"), *a)

    def pow(self, a, b):
        return self.app(self.fun("pow"), a, b)

    # -- (de)serialisation -------------------------------------------------
    def dump(self):
        out = []
        for t in self.terms:
            if t.ch:
                out.append(["@", [c.id for c in t.ch]])
            else:
                out.append([t.kind, enc_value(t.value)])
        return out

    @classmethod
    def load(cls, nodes):
        m = cls()
        for kind, v in nodes:
            if kind == "@":
                m.app(*[m.terms[i] for i in v])
            else:
                m.atom(kind, dec_value(v))
        return m

    # -- traversal ---------------------------------------------------------
    def subterms(self, t, heads=False, exclude=()):
        """Distinct subterms in postorder; `exclude`d ones are not entered."""
        exclude = set(exclude)
        out, seen = [], set()
        if t in exclude:
            return out
        stack = [(t, False)]
        while stack:
            u, done = stack.pop()
            if done:
                out.append(u)
                continue
            if u in seen or (u in exclude):
                continue
            seen.add(u)
            stack.append((u, True))
            for c in reversed(u.ch if heads else u.ch[1:]):
                if c not in seen and c not in exclude:
                    stack.append((c, False))
        return out

    # -- substitution --------------------------------------------------------
    def subst(self, t, mapping):
        memo = dict(mapping)
        stack = [t]
        while stack:
            u = stack[-1]
            if u in memo:
                stack.pop()
                continue
            if not u.ch:
                memo[u] = u
                stack.pop()
                continue
            todo = [c for c in u.ch if c not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[u] = self.app(*[memo[c] for c in u.ch])
            stack.pop()
        return memo[t]

    # -- evaluation -----------------------------------------------------------
    def evaluate(self, t, atom, op):
        """Bottom-up value; heads are not evaluated."""
        memo = {}
        for u in self.subterms(t):
            memo[u] = op(u.head, [memo[a] for a in u.args], u) if u.ch else atom(u)
        return memo[t]

    def count_tree(self, t):
        return self.evaluate(t, lambda u: 1, lambda h, a, u: 1 + sum(a))

    def count_graph(self, t):
        return len(self.subterms(t))

    # -- rendering ---------------------------------------------------------------
    def raw_str(self, t):
        """str() of a core tree."""
        memo = {}
        for u in self.subterms(t, heads=True):
            memo[u] = f"{memo[u.head]}({', '.join(memo[a] for a in u.args)})" if u.ch else str(u.value)
        return memo[t]

    def raw_repr(self, t, kind_names):
        memo = {}
        for u in self.subterms(t, heads=True):
            if u.ch:
                memo[u] = f"Tree({', '.join(memo[a] for a in u.ch)})"
            else:
                memo[u] = f"Tr({kind_names[u.kind]}({u.value!r}))"
        return memo[t]

    def plain(self, t):
        """Documented plain form of a user-level expression."""
        A, M, P = self.fun("Add"), self.fun("Mul"), self.fun("pow")

        def op(h, a, u):
            if h is A:
                return "(" + " + ".join(a) + ")"
            if h is M:
                return "(" + "*".join(a) + ")"
            if h is P:
                return f"{a[0]}**{a[1]}"
            return f"{self.raw_str(h)}({', '.join(a)})"

        return self.evaluate(t, lambda u: str(u.value), op)

    def latex(self, t):
        A, M, P = self.fun("Add"), self.fun("Mul"), self.fun("pow")
        S, C = self.fun("sin"), self.fun("cos")

        def op(h, a, u):
            if h is A:
                return "(" + " + ".join(a) + ")"
            if h is M:
                return "(" + r" \times ".join(a) + ")"
            if h is P:
                return f"{a[0]}^{{{a[1]}}}"
            if h is S:
                return rf"\sin({a[0]})"
            if h is C:
                return rf"\cos({a[0]})"
            return f"{self.raw_str(h)}({', '.join(a)})"

        return self.evaluate(t, lambda u: str(u.value), op)

    def string_size(self, t):
        """Length of the plain form is at most about this (it is a tree)."""
        return self.evaluate(t, lambda u: 4 + len(str(u.value)), lambda h, a, u: 4 + sum(a) + 12 * len(a))

    # -- float evaluation with a running magnitude ---------------------------------
    def f64(self, t, env):
        """(value, error scale): value by naive float arithmetic."""
        A, M, P = self.fun("Add"), self.fun("Mul"), self.fun("pow")
        S, C = self.fun("sin"), self.fun("cos")
        eps = 2.0 ** -50

        def atom(u):
            if u in env:
                return (float(env[u]), 0.0)
            if u.kind == "Integer":
                v = float(u.value)
                return (v, abs(v) * eps)
            raise KeyError(u)

        def op(h, a, u):
            if h is A:
                v = math.fsum(x for x, _ in a)
                return (v, sum(e for _, e in a) + eps * (sum(abs(x) for x, _ in a) * max(1, len(a))))
            if h is M:
                v = 1.0
                e = 0.0
                for x, d in a:
                    e = abs(v) * d + abs(x) * e + d * e
                    v *= x
                return (v, e + eps * abs(v) * max(1, len(a)))
            if h is P:
                (x, dx), (y, dy) = a
                v = math.pow(x, y)
                lx = abs(math.log(abs(x))) if x else 1.0
                rel = (abs(y) * dx / abs(x) if x else dx * max(1.0, abs(y))) + dy * lx
                if rel > 0.1:
                    raise OverflowError
                return (v, abs(v) * rel * 2 + eps * abs(v) + (dx if not x else 0.0))
            if h is S:
                return (math.sin(a[0][0]), a[0][1] + eps)
            if h is C:
                return (math.cos(a[0][0]), a[0][1] + eps)
            raise KeyError(h)

        v, e = self.evaluate(t, atom, op)
        if not (math.isfinite(v) and math.isfinite(e)):
            raise OverflowError
        return v, e

    # -- exact check of derivatives ---------------------------------------------
    def dual(self, t, sym, field):
        """(value, derivative) of t in `field` by dual numbers, elementwise lists."""
        return self.evaluate(t, lambda u: field.atom(u, sym), field.op)


P61 = (1 << 61) - 1


def _h(*key):
    """Stable pseudo-random field element."""
    import hashlib
    d = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(d, "little") % P61


class DualField:
    """Dual numbers over GF(2^61-1) in which every registered head is a random
    function and its registered partial derivatives give its dual part.

    rules: {head term: {argument index: rhs(value list) -> field element}}
    An algebraic identity between derivatives holds here iff it follows from the
    ring axioms and the rules (up to a vanishing probability of accident).
    """

    def __init__(self, model, rules, distributive=(), salt=0):
        self.m = model
        self.rules = rules
        self.dist = set(distributive)
        self.salt = salt
        self.A = model.fun("Add")
        self.M = model.fun("Mul")
        self.memo = {}

    def base(self, u):
        if u.kind == "Integer":
            return u.value % P61
        return _h(self.salt, "atom", u.kind, u.value)

    def atom(self, u, sym):
        return (self.base(u), 1 if u is sym else 0)

    def apply(self, h, vals):
        """Value of head h at field elements vals."""
        if h is self.A:
            return sum(vals) % P61
        if h is self.M:
            v = 1
            for x in vals:
                v = v * x % P61
            return v
        return _h(self.salt, "fn", h.id, tuple(vals))

    class NoRule(Exception):
        pass

    def op(self, h, a, u):
        if any(isinstance(x[0], tuple) for x in a) and h not in self.dist:
            # a function of a list: value only
            if any(self._nz(x[1]) for x in a):
                raise DualField.NoRule(h)
            return (_h(self.salt, "fnl", h.id, repr(a)), 0)
        if h in self.dist:
            return (tuple(x[0] for x in a), tuple(x[1] for x in a))
        vals = [x[0] for x in a]
        v = self.apply(h, vals)
        d = 0
        if h is self.A:
            d = sum(x[1] for x in a) % P61
        elif h is self.M:
            for i, x in enumerate(a):
                if x[1]:
                    p = x[1]
                    for j, y in enumerate(a):
                        if j != i:
                            p = p * y[0] % P61
                    d = (d + p) % P61
        else:
            rs = self.rules.get(h, {})
            for i, x in enumerate(a):
                if x[1]:
                    if i not in rs:
                        raise DualField.NoRule((h, i))
                    d = (d + rs[i](self, vals) * x[1]) % P61
        return (v, d)

    def _nz(self, d):
        if isinstance(d, tuple):
            return any(self._nz(x) for x in d)
        return d != 0

    def value(self, t):
        """Plain value of a term (used on the derivative the library returned)."""
        def op(h, a, u):
            if h in self.dist:
                return tuple(a)
            if any(isinstance(x, tuple) for x in a):
                return _h(self.salt, "fnl", h.id, repr([(x, 0) for x in a]))
            return self.apply(h, a)

        return self.m.evaluate(t, self.base, op)


# ----------------------------------------------------------------------------
# Atom values
# ----------------------------------------------------------------------------


class Key:
    """A hashable value with Python-level __hash__ and __eq__."""

    __slots__ = ("k", "__weakref__")
    hook = None  # called on every hash/eq while a simulation is running

    def __init__(self, k):
        self.k = k

    def __hash__(self):
        if Key.hook is not None:
            Key.hook(self, "hash")
        return 1009 + 7919 * self.k

    def __eq__(self, other):
        if Key.hook is not None:
            Key.hook(self, "eq")
        return isinstance(other, Key) and other.k == self.k

    def __repr__(self):
        return f"Key({self.k})"


def enc_value(v):
    if v is None or isinstance(v, str) and type(v) is str:
        return v
    if type(v) is int:
        return v
    if type(v) is bool:
        return {"b": v}
    if type(v) is float:
        return {"f": v.hex()}
    if type(v) is tuple:
        return {"t": [enc_value(x) for x in v]}
    if type(v) is Key:
        return {"k": v.k}
    raise TypeError(v)


def dec_value(e):
    if isinstance(e, dict):
        ((k, v),) = e.items()
        if k == "b":
            return v
        if k == "f":
            return float.fromhex(v)
        if k == "t":
            return tuple(dec_value(x) for x in v)
        if k == "k":
            return Key(v)
    return e
