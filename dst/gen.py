"""Plans: everything one run will do, generated from one integer."""

import random

from . import lexicon
from .model import Model, Key

SYMS = ["x", "y", "p", "q", "r"]
FUNS = ["f", "g", "h", "k"]
INTS = [-1, 0, 1, 2, 3, 5, 7, -4, 12, 10**20, -2, 2**61, 2**61 + 1, -10**20, 256, 257]
ODD_NAMES = ["1", "sin", "Add", "f", "", "x1", "\u03b1", "a b", "pow", "List", "X", "x "]


# names that look like other expressions, or like each other at first glance
LOOK = ["2", "-1", "0", "(x + y)", "(x*y)", "x**2", "f(x)", "sin(x)", "temperature_inside", "temperature_outside", "f"]

# names that mean something to a format, a generated program or an encoder
WEIRD = ['"', "", 'a"b', "_out", ".0", ".1", ".arg0", ".arg1", "a\\22", "a\\b", "a%%b", "%s", "{0}", "{{x}}", "a\0b", "x\n",
         "\ud800", "$x$", "\u00e9", "e\u0301", "&amp;", "x" * 150, "x" * 1100, "__x", "None", "\\sin", "%x", "x, y", "f(x", "a'b"]

# names that some encoder, matcher or file system takes for the same
CONFUSE = [("\u00e9", "e\u0301"), ("\ufb01", "fi"), ("x\u00b2", "x2"), ("\u212a", "K"), ("\u2126", "\u03a9"), ("x", "x\u200b"), ("x", "X"),
           ("x", " x"), ("x", "x\t"), ("\u0131", "i"), ("\u00df", "ss"), ("\ud800", "?"), ("x", "\uff58"), ("x\n", "x\r"), ("x_1", "x1")]

SIBS = {'P04': ['f64', 'ev'], 'P06': ['subs', 'func'], 'P07': ['diff', 'mdiff'], 'P08': ['topo', 'fg'], 'P09': ['jit', 'jit'], 'P11': ['sympy'], 'P14': ['str', 'latex', 'tree', 'graph', 'tstr'], 'P15': ['binx', 'args'], 'P16': ['str', 'diff', 'topo', 'fg', 'subs', 'func', 'binx', 'f64', 'ev', 'ir', 'tree']}


class Gen:
    def __init__(self, prop, seed, tier):
        self.prop = prop
        self.r = random.Random(f"{prop}/{seed}")
        self.tier = tier
        self.m = Model()
        self.pool = []
        self.opid = 0
        self.look = self.r.random() < (0.3 if prop in ("P14", "P16") else 0.12)
        self.sib = self.r.random() < 0.1
        self.looks = LOOK
        if self.r.random() < 0.4:
            self.looks = self.r.sample(LOOK, 3) + self.r.sample(WEIRD, 3) + (["x" * 150 + "y"] if self.r.random() < 0.3 else [])
        self.lex = self.r.random() < 0.3 and bool(lexicon.NAMES)
        if self.lex:  # names and numbers the sources mention
            self.look = True
            mine = self.r.sample(lexicon.NAMES, min(7, len(lexicon.NAMES)))
            if lexicon.FAMILIES and self.r.random() < 0.5:
                mine = mine[:2] + list(self.r.choice(lexicon.FAMILIES))
            self.looks = mine if self.r.random() < 0.5 else mine + list(self.looks)
        self.bads = [(self.r.randrange(46), self.r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7])) for _ in range(2)]

    # -- terms -----------------------------------------------------------
    def num(self):
        """An integer: the usual ones, any small one, or any of any size."""
        r = self.r
        x = r.random()
        if self.lex and x < 0.15 and lexicon.INTS:
            return r.choice(lexicon.INTS) * r.choice([1, 1, -1]) + r.choice([0, 0, 1, -1])
        if x < 0.7:
            return r.choice(INTS)
        if x < 0.9:
            return r.randrange(-20, 21)
        n = r.getrandbits(r.choice([8, 12, 31, 32, 63, 64, 70])) + r.choice([-1, 0, 0, 1])
        return n * r.choice([1, -1])

    def few(self, *usual):
        """A number of operands: now and then many."""
        r = self.r
        x = r.random()
        if x < 0.93:
            return r.choice(usual)
        return r.choice([5, 6, 7, 8, 9, 12, 17, 33]) if x < 0.992 else self.many()

    def many(self):
        """Larger numbers of operands, those the sources mention among them."""
        r = self.r
        if lexicon.SIZES and r.random() < 0.5:
            return r.choice(lexicon.SIZES)
        return int(2 ** r.uniform(3.5, 7.7))

    def atom(self, profile):
        r, m = self.r, self.m
        if self.sib and profile in ("calc", "sy", "free", "tree"):
            # only atoms the library itself keeps alive
            return r.choice([m.sym("x"), m.sym("y"), m.int(-1), m.int(0), m.int(1)])
        if self.look and r.random() < 0.15 and profile != "tree":
            if self.prop == "P09" and r.random() < 0.2:
                return m.atom("Sym2", r.choice(SYMS[:2]))
            return m.fun(r.choice(LOOK[-3:])) if r.random() < 0.1 and profile not in ("calc", "sy") else m.sym(r.choice(self.looks))
        x = r.random()
        if profile == "calc":
            if x < 0.65:
                return m.sym(r.choice(SYMS[:4]))
            if self.prop == "P07" and x > 0.97:  # they look like symbols
                return r.choice([m.atom("Wild", "x"), m.fun("x"), m.atom("Sym2", "x"), m.fun("y")])
            if self.prop in ("P09", "P04") and x > 0.97:
                return m.int(r.choice([2**53 - 1, -2**45 - 12345, 10**15 + 1, 10**20, 1000003, 255, -129]))
            if self.lex and x > 0.9:
                i = self.num()
                if abs(i) <= 10**20:
                    return m.int(i)
            return m.int(r.choice([-1, 0, 1, 2, 3, 5]))
        if profile == "sy":
            if x < 0.6:
                return m.sym(r.choice(SYMS))
            return m.int(r.choice([-1, 0, 1, 2, 3, 5, 12]))
        if x < 0.45:
            if profile == "odd" and r.random() < 0.3:
                return m.sym(r.choice(ODD_NAMES))
            return m.sym(r.choice(SYMS))
        if x < 0.7:
            return m.int(self.num())
        if x < 0.8:
            return m.fun(r.choice(FUNS))
        if profile == "odd":
            if x < 0.85:
                return m.atom("Sym2", r.choice(SYMS[:2]))
            if x < 0.9:
                return m.atom("Wild", r.choice(["a", "b", "x"]))
            if x < 0.96:
                return m.atom("Key", Key(r.randrange(4)))
            return m.atom("Val", r.choice(["x", (1, "a"), None, 2.5, "1"]))
        return m.sym(r.choice(SYMS + ["s1", "s2"]))

    def compound(self, profile, depth):
        r, m = self.r, self.m

        def sub():
            if self.pool and not self.sib and r.random() < 0.35:
                cand = r.choice(self.pool)
                if self.depth(cand) < 7:
                    return cand
            if depth <= 0 or r.random() < 0.25:
                return self.atom(profile)
            return self.compound(profile, depth - 1)

        def subs(n):
            if n > 12 and r.random() < 0.8:
                # many different small operands
                ats = [m.sym(f"{r.choice('xyv')}{i}") for i in range(n)]
                if r.random() < 0.3:
                    r.shuffle(ats)
                if r.random() < 0.3:
                    ats = [self.atom(profile) if r.random() < 0.2 else a for a in ats]
                return ats
            if n > 1 and r.random() < 0.08:  # the same operand again and again
                a = sub()
                b = a if r.random() < 0.6 else sub()
                n = r.choice([n, n, 4, 5, 8])
                return [a, b] * (n // 2) + [a] * (n % 2)
            return [sub() for _ in range(n)]

        x = r.random()
        if profile in ("calc", "diff"):
            if x < 0.3:
                return m.app(m.fun("Add"), *subs(self.few(2, 2, 2, 3, 4)))
            if x < 0.6:
                return m.app(m.fun("Mul"), *subs(self.few(2, 2, 2, 3, 4)))
            if x < 0.75:
                return m.pow(sub(), m.int(r.choice([2, 2, 3, 1, 0])))
            return m.app(m.fun(r.choice(["sin", "cos"])), sub())
        if profile == "sy":
            if x < 0.25:
                return m.app(m.fun("Add"), *subs(r.choice([2, 2, 3])))
            if x < 0.5:
                return m.app(m.fun("Mul"), *subs(r.choice([2, 2, 3])))
            if x < 0.62:
                return m.pow(sub(), m.int(r.choice([2, 3])))
            if x < 0.77:
                return m.app(m.fun(r.choice(["sin", "cos"])), sub())
            if self.look and r.random() < 0.3:
                return m.app(m.fun(r.choice(LOOK[-3:])), sub())
            return m.app(m.fun(r.choice(FUNS)), *[sub() for _ in range(r.choice([0, 1, 1, 2]))])
        if profile == "tree":  # uninterpreted heads only
            return m.app(m.fun(r.choice(FUNS)), *subs(self.few(0, 1, 1, 2, 2, 3)))
        # free / odd: any head, compound heads, nullary calls
        if x < 0.18:
            a, b = sub(), sub()
            y = r.random()
            if y < 0.4:
                return m.add(a, b)
            if y < 0.55:
                return m.add(a, m.mul(m.int(-1), b))
            if y < 0.75:
                return m.mul(a, b)
            if y < 0.85:
                return m.mul(a, m.pow(b, m.int(-1)))
            return m.pow(a, b)
        if x < 0.28:
            return m.app(m.fun(r.choice(["Add", "Mul", "List"])), *subs(self.few(1, 3, 3, 4)))
        if x < 0.34:
            return m.app(m.fun(r.choice(["sin", "cos"])), sub())
        if x < 0.86:
            return m.app(m.fun(r.choice(FUNS)), *subs(self.few(0, 1, 1, 2, 2, 3)))
        head = sub()
        return m.app(head, *[sub() for _ in range(r.choice([0, 1, 2]))])

    def depth(self, t):
        d = getattr(self, "_depth", None)
        if d is None:
            d = self._depth = {}
        if t in d:
            return d[t]
        for u in self.m.subterms(t, heads=True):
            if u not in d:
                d[u] = 1 + max([d[c] for c in u.ch], default=0)
        return d[t]

    def size(self, t):
        return len(self.m.subterms(t, heads=True))

    def fill(self, profile, n, depth=3, maxsize=60):
        self.pool = []
        if self.sib:
            # expressions that differ only at the root: an expression that is
            # dropped is likely to be followed by another at the same address
            n, depth = 8, 1
        while len(self.pool) < n:
            t = self.compound(profile, self.r.randrange(depth + 1))
            if self.size(t) <= (maxsize if len(t.ch) < 14 else 280) and self.m.string_size(t) < 4000:
                self.pool.append(t)
        if self.look and profile != "tree":
            self.twins()
            self.variants(profile)
        return self.pool

    def twins(self):
        """Different expressions with the same printed form."""
        r, m = self.r, self.m
        for t in list(self.pool)[:4]:
            u = r.choice(m.subterms(t))
            try:
                twin = m.subst(t, {u: m.sym(m.plain(u))})
            except IndexError:
                continue
            if twin is not t:
                self.pool.append(twin)

    def variants(self, profile):
        """Different expressions whose names or numbers nearly agree."""
        r, m = self.r, self.m
        for t in list(self.pool)[:4]:
            ats = [u for u in m.subterms(t, heads=True) if not u.ch and (u.kind == "Symbol" or u.kind == "Integer" and type(u.value) is int)]
            if not ats:
                continue
            u = r.choice(ats)
            if u.kind == "Integer":
                v = m.int(r.choice([-u.value, u.value + 1, u.value + 2**64, u.value + 2**32, u.value * 10]))
                if abs(v.value) > 10**6 and profile in ("calc", "sy"):
                    v = m.int(-u.value)
            else:
                n = u.value
                if profile in ("free", "odd") and r.random() < 0.2:
                    self.pool.append(m.subst(t, {u: m.fun(n)}))
                    continue
                if r.random() < 0.25:
                    one, two = r.choice(CONFUSE)
                    pre = r.choice(["", "", n])
                    self.pool.append(m.subst(t, {u: m.sym(pre + one)}))
                    v = m.sym(pre + two)
                else:
                    v = m.sym(r.choice([n.swapcase(), n.upper(), n + "_", n + " ", "_" + n, n + "0", n[:1], n[::-1], n + n, n + "\u0301", n + "'"]))
            self.pool.append(m.subst(t, {u: v}))
            self.variant_of = getattr(self, "variant_of", {})
            self.variant_of[t.id] = self.pool[-1].id

    def term(self):
        r = self.r
        t = r.choice(self.pool)
        if r.random() < 0.25:
            t = r.choice(self.m.subterms(t))
        return t

    def hot(self):
        """A few terms used much more often than others."""
        if not getattr(self, "_hot", None):
            self._hot = [self.r.choice(self.pool) for _ in range(2)] + \
                [self.atom(self.profile) for _ in range(2)]
        if self.r.random() < (0.2 if self.sib else 0.6):
            return self.r.choice(self._hot)
        return self.term()

    # -- plan ----------------------------------------------------------------
    def op(self, name, **kw):
        self.opid += 1
        return dict(id=self.opid, op=name, **kw)

    def slot(self):
        return self.r.choice([0, 1, 2, 3, 4, 5, 6])

    def knobs(self, faults=True, crowd=True):
        r = self.r
        k = {}
        k["gap"] = r.choice([2, 4, 8, 15, 30, 60, 120, 400, 1500]) if crowd else 0
        k["burst"] = crowd and r.random() < 0.4
        k["p_bound"] = r.choice([0.1, 0.3, 0.6, 0.9])
        k["eb_only"] = r.random() < 0.25
        if faults and r.random() < 0.6:
            k["p_exc"] = r.choice([0.05, 0.15, 0.3, 0.5])
        else:
            k["p_exc"] = 0
        k["exc_span"] = r.choice([6, 8, 10, 12])
        k["exc_kinds"] = r.choice([["interrupt"], ["memory"], ["interrupt", "memory"]])
        k["p_gc"] = r.choice([0, 0, 0.02, 0.1])
        k["p_fin"] = r.choice([0, 0, 0, 0.05, 0.3]) if faults else 0
        return k

    def nclients(self):
        return self.r.choice([1, 2, 2, 2, 3, 3, 4])

    def plan(self):
        fn = getattr(self, "plan_" + self.prop)
        p = fn()
        whats = SIBS.get(self.prop)
        if whats and self.r.random() < 0.2:
            for prog in p["programs"]:
                if self.r.random() < 0.6:
                    prog.insert(self.r.randrange(len(prog) + 1), self.g_sibs(whats))
                    if self.prop == "P16" and prog is p["programs"][0]:
                        for o in prog:
                            o["nofault"] = True
        if self.prop in self.STORMS and self.r.random() < (0.2 if self.prop == "P13" else 0.08):
            self.storm(p)
        if self.prop != "P12" and self.r.random() < 0.035:
            self.warm(p)
        if self.r.random() < (0.06 if self.prop == "P01" else 0.01 if self.prop in ("P02", "P05", "P06", "P15") else 0):
            prog = self.r.choice(p["programs"])
            prog.insert(self.r.randrange(len(prog) + 1), self.bulk())
        p.setdefault("shared", {})
        p["prop"] = self.prop
        p["pool"] = self.m.dump()
        p["perturb"] = self.r.choice([0, 0, 1, 3, 7, 17, 50, 131])
        return p

    STORMS = ("P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15")

    WARM = {"pr": "print", "diff": "diff", "subs": "subs", "scall": "func", "ir": "ir", "jit": "ir", "ev": "ev", "tf": "trans", "f64": "f64",
            "topo": "trav", "fg": "trav", "split": "trav", "mnew": "matrix", "madd": "matrix", "mdiff": "matrix", "mget": "matrix",
            "ir": "ir", "mbad": "fail", "badopr": "fail", "opr": "names", "call": "core", "mk": "core", "binx": "binx", "rebuild": "core",
            "read": "ev", "reg": "ev"}

    def warm(self, p):
        """A long history before (and between) the rest."""
        r = self.r
        kinds = sorted({self.WARM[o["op"]] for prog in p["programs"] for o in prog if o["op"] in self.WARM})
        if not kinds:
            return
        what = r.choice(kinds) if r.random() < 0.9 else r.choice(["fail", "failsub", "rdiff", "names"])
        o = self.op("warm", what=what, n=r.choice([10, 40, 70, 140, 300]))
        if what in ("diff", "matrix", "print"):
            o["n"] = min(o["n"], 140)
        observed = bool(p.get("transcript"))
        if observed and len(p["programs"]) < 2:
            return
        prog = p["programs"][r.randrange(1 if observed else 0, len(p["programs"]))]
        if observed:
            prog.insert(0, o)
            p["knobs"]["first"] = 1
            p["knobs"]["gap"] = 4000
        else:
            prog.insert(r.randrange(len(prog) + 1), o)

    def bulk(self):
        r = self.r
        return self.op("bulk", k=r.choice(["atom", "tratom", "tree", "int", "chain", "mixed"]),
                       n=int(2 ** r.uniform(5, 11.3)), step=r.choice([1, 7, 61]), limit=8_000_000)

    def storm(self, p):
        """One operation that fails again and again, then everything else."""
        r = self.r
        prog = r.choice(p["programs"])
        cand = [o for o in prog if o["op"] not in ("drop", "gc", "fin", "cyc", "churn", "big", "leak", "sibs", "warm", "bulk") and not o.get("nofault")]
        if not cand:
            return
        kinds = sorted({o["op"] for o in cand})
        kind = r.choice(kinds)
        if r.random() < 0.5:
            kind = r.choice([k for k in kinds if k in ("ev", "tf", "scall", "diff", "jcall")] or kinds)
        o = r.choice([o for o in cand if o["op"] == kind])
        n = r.choice([20, 70, 110, 140])
        if lexicon.SIZES and r.random() < 0.2:
            n = min(r.choice(lexicon.SIZES) + r.choice([0, 0, 4]), 160)
        if o["op"] in ("jit", "jcall", "msy", "tosy", "fromsy"):
            n = min(n, 20)
        span = r.choice([3, 6, 9])
        many = []
        for _ in range(n):
            self.opid += 1
            q = dict(o, id=self.opid)
            q.pop("retry", None)
            if o["op"] == "reg":
                self.tok += 1
                q["tok"] = self.tok
            if o["op"] == "ev" and r.random() < 0.5:
                q["raise_at"] = 1
            else:
                q["fi"] = 1 + int(2 ** r.uniform(0, span))
            many.append(q)
        for q in cand:
            if q["op"] == kind and r.random() < 0.5 and kind != "reg":
                self.opid += 1
                q = dict(q, id=self.opid)
                q.pop("raise_at", None)
                many.append(q)
        if kind == "ev":
            for _ in range(4):
                q = self.g_ev({o["o"]: None})
                q.pop("raise_at", None)
                many.append(q)
        k = r.randrange(len(prog) + 1)
        prog[k:k] = many

    def programs(self, make, n=None, lo=4, hi=14):
        n = n or self.nclients()
        return [[make(ci) for _ in range(self.r.randrange(lo, hi))] for ci in range(n)]

    # -- pieces ------------------------------------------------------------------
    def g_mk(self, keep=0.6, classes=("Expr",)):
        r = self.r
        kw = dict(t=self.hot().id, rt=r.randrange(1 << 30), cls=r.choice(classes))
        if kw["cls"] == "Atom" and self.m.terms[kw["t"]].ch:
            kw["cls"] = "Tree"
        if r.random() < keep:
            kw["s"] = self.slot()
        if r.random() < 0.3:
            kw["retry"] = True
        return self.op("mk", **kw)

    def g_noise(self):
        """Cheap background activity on the same expressions."""
        r = self.r
        x = r.random()
        if x < 0.35:
            return self.g_mk(0.5)
        if x < 0.55:
            return self.op("drop", s=self.slot())
        if x < 0.65:
            return self.op("gc")
        if x < 0.72:
            return self.op("cyc", t=self.hot().id, rt=r.randrange(1 << 30))
        if x < 0.8:
            return self.op("churn", ts=[self.hot().id for _ in range(3)], rt=r.randrange(1 << 30))
        if x < 0.86:
            return self.op("fin", t=self.hot().id, rt=r.randrange(1 << 30), s=self.slot(),
                           mode=r.choice(["wr", "del"]))
        return self.op("rebuild", t=self.hot().id, how=r.randrange(3))

    def g_sibs(self, whats):
        """Short-lived expressions that differ only at the root."""
        r, m = self.r, self.m
        atoms = [m.sym("x"), m.sym("y"), m.int(2), m.int(0), m.int(1), m.int(-1)]
        atoms += [t for t in self.pool if not any(u.kind not in ("Symbol", "Integer", "Function") for u in m.subterms(t, heads=True)
                                                  if not u.ch) and self.size(t) < 15 and m.fun("List") not in m.subterms(t, heads=True)][:3]
        what = r.choice(whats)
        calc = self.profile in ("calc", "diff") or what in ("diff", "mdiff", "jit", "f64", "ir")
        items = []
        n = 3 if what in ("jit", "sympy") else r.choice([3, 5, 8])
        k = r.choice([2, 3, 3, 4])
        for _ in range(n):
            if r.random() < 0.3:
                k = r.choice([1, 2, 3, 4])
            z = r.random()
            if k == 1:
                h, a = r.choice(["sin", "cos"]), [r.choice(atoms)]
            elif k == 2 and z < 0.3:
                h, a = "pow", [r.choice(atoms), m.int(r.choice([1, 2, 3]))]
            elif calc or z < 0.6:
                h, a = r.choice(["Add", "Mul"]), [r.choice(atoms) for _ in range(k)]
            else:
                h, a = r.choice(FUNS), [r.choice(atoms) for _ in range(k)]
            items.append([m.fun(h).id, [u.id for u in a]])
        return self.mark(self.op("sibs", what=what, items=items), 0.02)

    def mark(self, op, rl=0.05):
        """Per-operation fault: recursion exhaustion; retry afterwards."""
        r = self.r
        if r.random() < rl and op["op"] not in ("drop", "gc", "fin", "cyc"):
            op["rl"] = r.choice([0, 1, 2, 3, 4, 6])
        elif self.prop != "P16" and (op["op"] in ("tf", "read") or self.profile == "odd") and r.random() < 0.15:
            op["kf"] = r.choice([1, 1, 2, 3, 4, 6, 9])
        if r.random() < 0.5:
            op["retry"] = True
        return op

    # ------------------------------------------------------------------ P01
    def plan_P01(self):
        r = self.r
        self.profile = "odd" if r.random() < 0.5 else "free"
        self.fill(self.profile, r.choice([2, 4, 8]), depth=r.choice([1, 2, 3]))
        cl = ("Expr", "Expr", "Tree", "Sym", "MySym", "MySym2", "SubExpr", "Expr2", "Atom")

        def make(ci):
            x = r.random()
            if x < 0.55:
                return self.mark(self.g_mk(0.7, cl), 0.02)
            if x < 0.7:
                return self.op("drop", s=self.slot())
            if x < 0.9:
                return self.g_noise()
            return self.mixed_op()

        return dict(programs=self.programs(make, self.r.choice([2, 2, 2, 3, 4, 1])), knobs=self.knobs())

    def mixed_op(self):
        """Any expression-producing operation."""
        r = self.r
        x = r.random()
        t = self.hot()
        if x < 0.3:
            return self.g_subs(t)
        if x < 0.5:
            return self.op("opr", k=r.choice(["add", "sub", "mul", "div", "pow", "neg", "pos"]),
                           a=self.hot().id, b=self.hot().id, s=self.slot())
        if x < 0.7:
            return self.op("topo", t=t.id, heads=r.random() < 0.5)
        if x < 0.85:
            return self.op("fg", t=t.id)
        return self.op("rebuild", t=t.id, how=r.randrange(3))

    # ------------------------------------------------------------------ P02
    def plan_P02(self):
        r = self.r
        self.profile = r.choice(["free", "calc"])
        self.fill(self.profile, r.choice([4, 8]))
        shared = self.shared_subs(1)
        shared.update(self.shared_eval(1))
        shared.update(self.shared_trans(1))
        mats = self.profile == "calc"

        def make(ci):
            x = r.random()
            if x < 0.15:
                return self.g_mk(0.9)
            if x < 0.3:
                return self.g_noise()
            if x < 0.45:
                return self.mark(self.g_subs(self.hot()))
            if x < 0.55:
                return self.g_trav()
            if x < 0.65:
                return self.mark(self.g_ev(shared))
            if x < 0.7:
                return self.g_scall(shared)
            if x < 0.75:
                return self.op("pr", t=self.hot().id, forms=["str", "graph"])
            if mats and x < 0.79:
                return self.g_jit() if r.random() < 0.5 else self.op("jcall", s=self.slot(), pts=[
                    [r.choice([0.0, 0.5, 1.5, -1.25, 2.0, 3.0]) for _ in range(4)] for _ in range(r.choice([1, 2]))])
            if mats and x < 0.95:
                return self.mark(self.g_mat())
            if x < 0.97:
                return self.g_tf(shared)
            if r.random() < 0.4:
                o = self.g_f64()
                if r.random() < 0.5:
                    o["junk"] = r.randrange(4)
                return o
            return self.op("binx", t=self.hot().id, s=self.slot())

        return dict(programs=self.programs(make, None, 5, 16), knobs=self.knobs(), shared=shared)

    # ------------------------------------------------------------------ P03
    LEAKS = ["names", "print", "count", "f64", "diff", "subs", "func", "binx", "trav", "ev", "trans", "matrix", "ir",
             "fail", "failsub", "core", "rdiff"]

    def plan_P03(self):
        r = self.r
        if r.random() < 0.04:
            self.profile = "free"
            self.fill("free", 2)
            return dict(programs=[[self.op("leak", what=r.choice(self.LEAKS), n=r.choice([100, 150]))]], knobs=self.knobs(False, False))
        self.profile = r.choice(["free", "calc", "odd"])
        sy = r.random() < 0.08
        if sy:
            self.profile = "sy"
        self.fill(self.profile, r.choice([3, 6]))
        shared = {}
        if r.random() < 0.6 and not sy:
            shared.update(self.shared_subs(1))
            shared.update(self.shared_eval(1))
            shared.update(self.shared_diff(1))
            shared.update(self.shared_trans(1))
        calc = self.profile == "calc"

        def make(ci):
            x = r.random()
            if sy and x > 0.4:
                o = self.g_sy()
                o.pop("imp", None)
                return o
            if x < 0.25:
                return self.g_mk(0.5)
            if x < 0.35:
                return self.g_noise()
            if x < 0.45:
                return self.op("drop", s=self.slot())
            if x < 0.52:
                return self.g_subs(self.hot())
            if x < 0.6:
                return self.g_trav()
            if x < 0.66:
                return self.op("pr", t=self.hot().id, forms=["str", "repr", "trepr", "graph", "tree", "latex"])
            if x < 0.72:
                return self.g_ev(shared) if shared else self.g_mk(0.2)
            if x < 0.76:
                return self.g_scall(shared) if shared else self.g_mk(0.2)
            if x < 0.8:
                return self.g_tf(shared) if shared else self.op("binx", t=self.hot().id)
            if x < 0.84:
                if r.random() < 0.45:
                    if calc and r.random() < 0.2:
                        return self.g_jit()
                    return self.op("ir", t=self.hot().id, args=[self.m.sym(n).id for n in r.sample(SYMS, r.choice([0, 2, 5]))])
                return self.g_badopr()
            if calc:
                if x < 0.92:
                    return self.op("diff", o="builtin", t=self.hot().id, x=self.m.sym(r.choice(SYMS[:4])).id, n=r.choice([1, 1, 2]))
                if x < 0.97:
                    return self.g_mat()
                return self.op("f64", t=self.hot().id, vals=[[self.m.sym(s).id, 0.5] for s in SYMS[:4]])
            return self.op("rebuild", t=self.hot().id, how=r.randrange(3))

        k = self.knobs()
        k["no_remove"] = True
        return dict(programs=self.programs(make), knobs=k, shared=shared, sympy=sy)

    # ------------------------------------------------------------------ P04
    def plan_P04(self):
        r = self.r
        self.profile = r.choice(["tree", "tree", "free", "calc"])
        self.fill(self.profile, r.choice([3, 6, 9]), depth=4)
        shared = self.shared_eval(r.choice([1, 1, 2]))
        shared.update(self.shared_trans(1))

        def make(ci):
            x = r.random()
            if x < 0.68:
                return self.mark(self.g_ev(shared))
            if x < 0.78:
                return self.mark(self.g_tf(shared))
            if x < 0.88 and self.profile == "calc":
                return self.mark(self.g_f64())
            return self.g_noise()

        return dict(programs=self.programs(make), knobs=self.knobs(), shared=shared)

    def g_f64(self):
        r = self.r
        return self.op("f64", t=self.hot().id, vals=[[self.m.sym(s).id, r.choice([0.0, 0.5, 1.25, -2.0, 3.0, 1e-3])]
                                                    for s in SYMS[:4] if r.random() < 0.93])

    def shared_eval(self, n):
        r, m = self.r, self.m
        out = {}
        for k in range(n):
            tok = 100 * (k + 1)
            heads = []
            seen = set()
            for t in self.pool:
                for u in m.subterms(t):
                    if u.ch and u.ch[0] not in seen:
                        seen.add(u.ch[0])
                        heads.append(u.ch[0])
            ops = []
            full = r.random() < 0.5
            strict = r.random() < 0.3
            for h in heads:
                if full or r.random() < 0.7:
                    tok += 1
                    ops.append([h.id, r.choice(["1", "2", "1!", "2!", "n", "n", "n"]) if strict else r.choice("12nn"), tok])
            atoms = []
            kinds = ["Integer", "Symbol", "Function", "Sym2", "Wild", "Key", "Val"]
            d = dict(k="eval", api=r.choice(["core", "sym"]))
            for kd in kinds:
                if kd == "Wild" and d["api"] == "sym":
                    continue
                if full or r.random() < 0.6:
                    tok += 1
                    atoms.append([kd, tok])
            d.update(atoms=atoms, ops=ops, ga=tok + 1 if r.random() < 0.6 else None,
                     go=tok + 2 if r.random() < 0.75 else None)
            out[f"ev{k}"] = d
        return out

    def g_ev(self, shared):
        r, m = self.r, self.m
        names = [n for n in shared if n.startswith("ev")]
        t = self.hot()
        kw = dict(o=r.choice(names), t=t.id)
        if r.random() < 0.6:
            ats = [u for u in m.subterms(t) if not u.ch]
            vals = []
            for u in ats:
                x = r.random()
                if x < 0.35:
                    vals.append([u.id, {"falsy": r.randrange(6)}])
                elif x < 0.6:
                    vals.append([u.id, r.choice([5, 17, 2.5, "v"])])
            if r.random() < 0.2:
                vals.append([m.sym("unused").id, 3])
            if r.random() < 0.12:  # many more than the expression needs
                more = [m.sym(f"u{i}") for i in range(r.choice([2, 5, 9, 17, 40]))] + [self.atom(self.profile) for _ in range(3)]
                have = {m.terms[i] for i, _ in vals} | set(ats)
                vals += [[u.id, r.choice([3, {"falsy": r.randrange(6)}])] for u in dict.fromkeys(more) if u not in have]
                r.shuffle(vals)
            kw["vals"] = vals
        else:
            kw["novals"] = True
        x = r.random()
        if x < 0.15:
            kw["raise_at"] = r.randrange(1, 6)
            kw["rc"] = r.randrange(40)
        elif x < 0.3:
            kw["re"] = self.hot().id
            if r.random() < 0.6:
                kw["rv"] = [[u.id, r.choice([6, 18, 3.5, "w", {"falsy": 2}])] for u in m.subterms(m.terms[kw["re"]]) if not u.ch and r.random() < 0.6]
        elif x < 0.36 and m.count_tree(t) < 300:
            kw["how"] = "recursive"
        return self.op("ev", **kw)

    def shared_trans(self, n):
        r, m = self.r, self.m
        out = {}
        for k in range(n):
            heads = sorted({u.ch[0].id for t in self.pool for u in m.subterms(t) if u.ch and not u.ch[0].ch})
            ops = []
            for h in heads:
                if r.random() < 0.5:
                    ops.append([h, m.fun(r.choice(FUNS)).id, r.random() < 0.5])
            out[f"tr{k}"] = dict(k="trans", ops=ops)
        return out

    def g_tf(self, shared):
        r = self.r
        names = [n for n in shared if n.startswith("tr")]
        t = self.hot()
        kw = {}
        if r.random() < 0.4:
            ats = [u for u in self.m.subterms(t) if not u.ch]
            kw["vals"] = [[u.id, self.hot().id] for u in ats if r.random() < 0.5]
        return self.op("tf", o=r.choice(names), t=t.id, **kw)

    # ------------------------------------------------------------------ P05
    def plan_P05(self):
        r, m = self.r, self.m
        self.profile = "tree"
        self.pool = []
        fs = [m.fun(n) for n in FUNS]
        for h in fs:
            m.sym("x"), m.sym("y")
            self.pool.append(m.app(h, m.sym("x")))
            self.pool.append(m.app(h, m.sym("x"), m.int(2)))
        f, g, h, k = fs
        self.pool.append(m.app(f, m.app(g, m.sym("x")), m.int(3)))
        self.pool.append(m.app(g, m.app(f, m.app(h, m.int(1)))))
        akinds = ["Integer", "Symbol"]
        if r.random() < 0.4:  # another kind of atoms with the same name
            akinds.append("Sym2")
            self.pool.append(m.app(r.choice(fs), m.atom("Sym2", "x")))
            self.pool.append(m.app(r.choice(fs), m.atom("Sym2", "x"), m.sym("x")))
        shared = {}
        kinds = r.choice([["core", "core"], ["sym", "sym"], ["trans", "trans"], ["diff", "diff"],
                          ["core", "sym", "diff"], ["trans", "sym"], ["bdiff", "diff"], ["bf64", "sym"], ["btree", "bf64"], ["bexp", "trans"], ["blatex", "brepr"]])
        for i, a in enumerate(kinds):
            if a == "bdiff":
                shared[f"R{i}"] = dict(k="reg", api="diff", builtin="diff")
            elif a == "bf64":
                shared[f"R{i}"] = dict(k="reg", api="sym", builtin="eval_f64")
            elif a == "bexp":
                shared[f"R{i}"] = dict(k="reg", api="trans", builtin="bin_expand")
            elif a in ("btree", "blatex", "brepr"):
                shared[f"R{i}"] = dict(k="reg", api="sym", builtin={"btree": "count_ops_tree", "blatex": "eval_latex", "brepr": "eval_repr"}[a])
            else:
                shared[f"R{i}"] = dict(k="reg", api=a)
        self.tok = 1000

        pdist = r.choice([0.1, 0.1, 0.5])
        dists = [fs[3], m.fun("k2"), m.fun("k3")]
        if r.random() < 0.4:  # heads that have rules for their arguments too
            dists += fs[:2] * 2
            pdist = max(pdist, 0.3)

        def key_for(d):
            b = d.get("builtin")
            if d["api"] == "diff":
                h = r.choice(fs[:3])
                n = 1 + (h is fs[1])  # one arity per head: rules are kept per head and argument
                if r.random() < pdist:
                    return f"dist:{r.choice(dists).id}"
                return f"diff:{h.id}:{n}:{r.randrange(n)}"
            x = r.random()
            if x < 0.7 or b:
                return f"op:{r.choice(fs).id}"
            if x < 0.85 and d["api"] != "trans":
                return "atom:" + r.choice(akinds)
            if d["api"] == "trans":
                return f"op:{r.choice(fs).id}"
            return r.choice(["ga", "go"])

        def make(ci):
            o = r.choice(sorted(shared))
            d = shared[o]
            x = r.random()
            if x < 0.4:
                self.tok += 1
                kw = dict(o=o, key=key_for(d), tok=self.tok, ar=r.choice("12n"))
                if d["api"] == "sym" and r.random() < 0.3:
                    kw["direct"] = True
                if r.random() < 0.2 and d["api"] in ("sym", "diff") and kw["key"][:2] in ("op", "di") and not kw["key"].startswith("dist"):
                    kw["bad"] = r.randrange(16 * 7)
                return self.mark(self.op("reg", **kw), 0.05)
            if x < 0.9:
                if d["api"] == "diff":
                    return self.mark(self.op("read", o=o, key=key_for(d), n="1"), 0.02)
                t = r.choice(self.pool)
                return self.mark(self.op("read", o=o, t=t.id), 0.02)
            return self.g_noise()

        if r.random() < 0.2 or (self.prop == "P13" and r.random() < 0.5):
            # registrations that replace one another, cut short, then used
            o = r.choice(sorted(shared))
            d = shared[o]
            key = key_for(d)
            use = [t for t in self.pool if key.startswith("op:") and m.terms[int(key[3:])] in [u.ch[0] for u in m.subterms(t) if u.ch]] or self.pool

            def look():
                if d["api"] == "diff":
                    return self.op("read", o=o, key=key, n="1", nofault=True)
                return self.op("read", o=o, t=r.choice(use).id, nofault=True)

            def prog():
                ops = []
                for _ in range(r.choice([2, 4, 6])):
                    self.tok += 1
                    kw = dict(o=o, key=key, tok=self.tok, ar=r.choice("12n"))
                    if r.random() < 0.15:
                        kw["key"] = key_for(d)
                    if d["api"] == "sym" and r.random() < 0.4:
                        kw["direct"] = True
                    if r.random() < 0.6:
                        kw["fi"] = 1 + int(2 ** r.uniform(0, 9))
                    ops.append(self.op("reg", **kw))
                    if r.random() < 0.8:
                        ops.append(look())
                return ops

            return dict(programs=[prog() for _ in range(r.choice([1, 1, 2]))], knobs=self.knobs(), shared=shared)
        if r.random() < 0.2:  # several clients register different rules on one object at once
            o = r.choice(sorted(shared))
            d = shared[o]
            progs = []
            for _ in range(r.choice([2, 2, 3])):
                ops = []
                for _ in range(r.choice([1, 2, 3])):
                    self.tok += 1
                    if d["api"] == "diff" and r.random() < 0.5:
                        key = f"dist:{r.choice(dists).id}"
                    else:
                        key = key_for(d)
                    ops.append(self.op("reg", o=o, key=key, tok=self.tok, ar=r.choice("12n")))
                progs.append(ops)
            k = self.knobs()
            k["gap"] = r.choice([2, 3, 5, 8])
            p = dict(programs=progs, knobs=k, shared=shared)
        else:
            p = dict(programs=self.programs(make, r.choice([1, 2, 2, 3, 3, 4]), 6, 18), knobs=self.knobs(), shared=shared)
        # settle: whoever finishes last reads everything once more
        keys = sorted({(o["o"], o["key"]) for pr in p["programs"] for o in pr if o["op"] == "reg"})
        for pr in p["programs"]:
            for o, key in r.sample(keys, min(len(keys), 8)):
                if shared[o]["api"] == "diff":
                    pr.append(self.op("read", o=o, key=key, n="1", nofault=True))
            for o in sorted(shared):
                if shared[o]["api"] != "diff":
                    pr.append(self.op("read", o=o, t=r.choice(self.pool).id, nofault=True))
        return p

    # ------------------------------------------------------------------ P06
    def g_subs(self, t):
        r, m = self.r, self.m
        subs = m.subterms(t, heads=True)
        n = r.choice([0, 1, 1, 2, 2, 3])
        frm = []
        for _ in range(n):
            x = r.random()
            cand = r.choice(subs) if x < 0.8 else self.hot()
            if x < 0.1:
                cand = t
            if cand not in frm:
                frm.append(cand)
        ats = []
        if self.look and r.random() < 0.4:  # names for names
            ats = [u for u in subs if u.kind == "Symbol" and not u.ch]
            frm = r.sample(ats, min(len(ats), r.choice([1, 2, 2, 3])))
        if r.random() < 0.03:
            t, frm = self.wide_subs()
        dup = None
        if frm and r.random() < 0.06:  # the same parameter twice, replaced alike
            dup = r.randrange(len(frm)), r.randrange(len(frm) + 1)
            frm = list(frm)
            frm.insert(dup[1], frm[dup[0]])
        calls = []
        for _ in range(r.choice([1, 1, 2, 3])):
            cl = []
            if len(frm) > 5 and r.random() < 0.8:  # rotate, reverse or shuffle
                cl = [u.id for u in frm]
                k = r.randrange(len(cl))
                cl = r.choice([cl[k:] + cl[:k], cl[::-1], r.sample(cl, len(cl))])
            for k in range(len(cl), len(frm)):
                y = r.random()
                if ats and r.random() < 0.7:
                    cl.append((m.sym(r.choice(self.looks)) if r.random() < 0.7 else r.choice(ats)).id)
                elif y < 0.3 and len(frm) > 1:
                    cl.append(frm[(k + 1) % len(frm)].id)  # swaps
                elif y < 0.45:
                    cl.append(r.choice(subs).id)
                else:
                    cl.append(self.hot().id)
            for k, u in enumerate(frm):
                cl[k] = cl[frm.index(u)]
            calls.append(cl)
        kw = dict(t=t.id, frm=[u.id for u in frm], calls=calls,
                  mode=r.choice(["xreplace", "as_function", "SubsFunc", "ExprFunction"]))
        if len(frm) > 5:
            kw["limit"] = 20_000_000
        if r.random() < 0.3:
            kw["pyint"] = True
        if r.random() < 0.3:
            kw["mut"] = True
        if r.random() < 0.03:
            kw["junk"] = r.randrange(6)
        if r.random() < 0.4:
            kw["s"] = self.slot()
        return self.op("subs", **kw)

    def wide_subs(self):
        """An expression in many symbols, all (or most) of them to be replaced."""
        r, m = self.r, self.m
        n = min(r.choice([r.randrange(4, 14), self.many(), self.many()]), 130)
        ats = [m.sym(f"v{i}") for i in range(n)]
        if r.random() < 0.3:
            r.shuffle(ats)
        t = m.app(m.fun(r.choice(["Add", "f", "h"])), *ats)
        if r.random() < 0.4:
            t = m.app(m.fun("h"), t, self.atom(self.profile))
        frm = list(ats) if r.random() < 0.7 else r.sample(ats, max(1, n - r.randrange(3)))
        if r.random() < 0.2:
            frm.append(m.sym("unused"))
        return t, frm

    def shared_subs(self, n):
        r, m = self.r, self.m
        out = {}
        for k in range(n):
            if r.random() < 0.03:
                t, frm = self.wide_subs()
                self.pool.append(t)
                out[f"sf{k}"] = dict(k="subs", t=t.id, args=[u.id for u in frm], api=r.choice(["SubsFunc", "as_function"]))
                continue
            t = r.choice(self.pool)
            subs = m.subterms(t, heads=True)
            frm = []
            for _ in range(r.choice([1, 2, 2, 3])):
                cand = r.choice(subs) if r.random() < 0.9 else t
                if cand not in frm:
                    frm.append(cand)
            if r.random() < 0.06:
                frm.insert(r.randrange(len(frm) + 1), r.choice(frm))
            out[f"sf{k}"] = dict(k="subs", t=t.id, args=[u.id for u in frm], api=r.choice(["SubsFunc", "as_function"]))
        return out

    def g_scall(self, shared):
        r = self.r
        name = r.choice([n for n in shared if n.startswith("sf")])
        n = len(shared[name]["args"])
        if r.random() < 0.15:
            n = max(0, n + r.choice([-1, 1]))
        kw = dict(o=name, args=[self.hot().id for _ in range(n)])
        frm = shared[name]["args"]
        if n == len(frm):  # a parameter given twice is replaced alike
            kw["args"] = [kw["args"][frm.index(i)] for i in frm]
        if n > 5:
            kw["limit"] = 20_000_000
        if r.random() < 0.08:
            kw["bad"] = r.randrange(21)
        if r.random() < 0.3:
            kw["s"] = self.slot()
        return self.op("scall", **kw)

    def plan_P06(self):
        r = self.r
        self.profile = r.choice(["tree", "free", "calc", "odd"])
        self.fill(self.profile, r.choice([3, 6, 9]), depth=4)
        m = self.m
        if r.random() < 0.25:  # calls that differ in their heads, order or one argument only
            pool = [u for u in self.pool if self.size(u) < 20] or [m.sym("x")]
            for _ in range(2):
                ch = [r.choice([m.sym("x"), m.sym("y"), r.choice(pool)]) for _ in range(r.choice([1, 2, 3, 3, 4]))]
                one = list(ch)
                one[r.randrange(len(ch))] = m.sym(r.choice("xyz"))
                self.pool.append(m.app(m.fun("h"), m.app(m.fun("f"), *ch), m.app(m.fun("g"), *ch),
                                       m.app(m.fun("f"), *ch[::-1]), m.app(m.fun(r.choice("fg")), *one)))
        shared = self.shared_subs(r.choice([1, 2]))

        def make(ci):
            x = r.random()
            if x < 0.4:
                return self.mark(self.g_scall(shared), 0.1)
            if x < 0.8:
                return self.mark(self.g_subs(self.hot()))
            return self.g_noise()

        return dict(programs=self.programs(make), knobs=self.knobs(), shared=shared)

    # ------------------------------------------------------------------ P07
    def shared_diff(self, n):
        r, m = self.r, self.m
        out = {}
        W = [m.atom("Wild", n) for n in ("a", "b", "c", "z", "x", "ab")]
        for k in range(n):
            rules = []
            style = r.choice(["any", "any", "const", "cycle"])
            wild = r.random() < 0.5  # every rule has its own variables in its own order
            for h in [m.fun(x) for x in FUNS] + [m.fun("sin"), m.fun("t3")]:
                nargs = 1 if h.value in ("g", "k", "sin") else 3 if h.value == "t3" else 2
                for i in range(nargs):
                    ws = r.sample(W, nargs) if wild else W[:nargs]
                    if r.random() < (0.75 if nargs == 3 else 0.9):
                        x = r.random()
                        if style == "const" and x < 0.8:
                            rhs = m.int(r.choice([2, 2, 1, 5, 0]))
                        elif style == "cycle" and x < 0.8:
                            rhs = m.app(m.fun({"f": "h", "h": "f", "g": "k", "sin": "g", "k": "g", "t3": "f"}[h.value]), *ws)
                        elif x < 0.2:
                            rhs = ws[r.randrange(nargs)]
                        elif x < 0.3:
                            rhs = m.app(h, *ws)
                        elif x < 0.4:
                            rhs = m.int(r.choice([0, 0, 1, 5]))
                        elif x < 0.7:
                            rhs = m.app(m.fun(r.choice(["k", "cos", "f2"])), *ws)
                        else:
                            rhs = m.mul(m.add(ws[-1], m.int(2)), m.app(h, *ws[::-1]))
                        rules.append([h.id, nargs, i, rhs.id, [w.id for w in ws]])
            out[f"df{k}"] = dict(k="diff", rules=rules, dist=[m.fun("List").id] if r.random() < 0.7 else [])
        return out

    def plan_P07(self):
        r, m = self.r, self.m
        self.profile = "calc"
        self.fill("calc", r.choice([3, 5, 8]), depth=3, maxsize=30)
        f, g, h = [m.fun(x) for x in FUNS[:3]]
        for _ in range(3):
            a, b = r.choice(self.pool), r.choice(self.pool)
            self.pool.append(m.app(f, a, b))
            self.pool.append(m.app(g, m.app(h, b, a)))
            self.pool.append(m.app(g, m.app(r.choice([g, m.fun("k")]), r.choice([a, m.sym("x")]))))
            self.pool.append(m.add(m.app(f, m.app(g, a), m.sym("x")), b))
        if r.random() < 0.5:
            t3 = m.fun("t3")
            for _ in range(2):
                self.pool.append(m.app(t3, *[r.choice([m.sym("x"), m.sym("y"), r.choice(self.pool)]) for _ in range(3)]))
            self.pool.append(m.app(t3, *r.sample([m.sym("x"), m.sym("y"), m.int(2)], 3)))
        simple = [m.app(r.choice([g, m.fun("k"), m.fun("sin")]), m.sym("x")), m.app(f, m.sym("x"), m.sym("y"))]
        self.pool += simple
        for _ in range(2):
            self.pool.append(m.app(m.fun("List"), *[r.choice(self.pool[:5]) for _ in range(r.choice([0, 1, 3]))]))
        if r.random() < 0.2:  # heads as arguments, perhaps of themselves
            flat = [t for t in self.pool if not any(u.ch and u.ch[0] is m.fun("List") for u in m.subterms(t))]
            for _ in range(2):
                h = m.fun(r.choice(["Add", "Mul", "List", "f"]))
                ch = [r.choice([h, h, m.fun("g"), m.sym("x"), r.choice(flat or [h])]) for _ in range(2)]
                self.pool.append(m.app(h, *ch))
        self.pool = [t for t in self.pool if self.size(t) < 70]
        shared = self.shared_diff(r.choice([1, 2]))
        if r.random() < 0.4:
            d = shared[f"df{len(shared) - 1}"]
            d["builtin"] = True
            d["rules"] = [x for x in d["rules"] if m.terms[x[0]].value != "sin"]

        def make(ci):
            x = r.random()
            if x < 0.75:
                return self.mark(self.g_diff(shared))
            return self.g_noise()

        return dict(programs=self.programs(make, None, 3, 10), knobs=self.knobs(), shared=shared)

    def g_diff(self, shared):
        r, m = self.r, self.m
        o = r.choice(["builtin"] + [n for n in shared if n.startswith("df")])
        t = self.hot()
        if r.random() < 0.15:
            t = r.choice([u for u in self.pool if self.size(u) < 6] or [t])
        n = r.choice([1, 1, 1, 2, 3, 0]) if self.size(t) < 25 else 1
        if self.size(t) < 8 and r.random() < 0.3:
            n = r.choice([4, 5, 6])
        wide = max(len(u.ch) for u in m.subterms(t))
        if wide > 5:
            n = min(n, 2 if wide < 10 else 1)
        by = m.sym(r.choice(["x", "x", "y", "p", "q"]))
        if r.random() < 0.08:  # any atom will do
            by = r.choice([u for v in m.subterms(t) for u in v.ch[1:] or (v,) if not u.ch] or [by])
        return self.op("diff", o=o, t=t.id, x=by.id, n=n,
                       how=r.choice(["method", "fn"]), s=self.slot() if r.random() < 0.5 else None)

    # ------------------------------------------------------------------ P08
    def g_trav(self):
        r, m = self.r, self.m
        t = self.hot()
        x = r.random()
        if x < 0.5:
            kw = dict(t=t.id, heads=r.random() < 0.5)
            if r.random() < 0.5:
                subs = m.subterms(t, heads=True)
                kw["ex"] = sorted({(r.choice(subs) if r.random() < 0.8 else self.hot()).id for _ in range(r.choice([0, 1, 2, 3]))})
            return self.op("topo", **kw)
        if x < 0.75:
            kw = dict(t=t.id)
            if r.random() < 0.5:
                subs = m.subterms(t)
                kw["ex"] = sorted({r.choice(subs).id for _ in range(r.choice([0, 1, 2]))})
            return self.op("split", **kw)
        return self.op("fg", t=t.id, mut=r.random() < 0.5)

    def plan_P08(self):
        r = self.r
        self.profile = r.choice(["tree", "free", "odd", "calc"])
        self.fill(self.profile, r.choice([2, 5, 9]), depth=5)

        def make(ci):
            if r.random() < 0.75:
                return self.mark(self.g_trav())
            return self.g_noise()

        return dict(programs=self.programs(make), knobs=self.knobs())

    # ------------------------------------------------------------------ P09
    def g_jit(self, rows=None):
        r, m = self.r, self.m
        names = SYMS[:4][:]
        if self.look and r.random() < 0.5:
            names[r.randrange(4)] = r.choice(self.looks)
            if r.random() < 0.3:
                names[r.randrange(4)] = r.choice(self.looks)
            names = list(dict.fromkeys(names))
        if r.random() < 0.2:
            names += ["r", "s", "t", "u", "v", "w"][:r.choice([1, 2, 4, 6])]
        r.shuffle(names)
        if r.random() < 0.3:
            names = names[:3]
        args = [m.sym(s).id for s in names]
        if self.look and r.random() < 0.3:
            args[r.randrange(len(args))] = m.atom("Sym2", r.choice(SYMS[:2])).id
        npts = r.choice([1, 2])
        pts = [[r.choice([0.0, 0.5, 1.5, -1.25, 2.0, 3.0]) for _ in args] for _ in range(npts)]
        kw = dict(args=args, pts=pts, s=self.slot())
        if r.random() < 0.5:
            R, C = r.choice([(1, 1), (2, 2), (1, 3), (2, 3), (3, 1), (3, 2)])
            kw["rows"] = [[(m.int(0) if r.random() < 0.35 else self.hot()).id for _ in range(C)] for _ in range(R)]
        else:
            kw["t"] = self.hot().id
            prev = getattr(self, "_prev_jit", None)
            if self.look and prev and r.random() < 0.5:
                t, args = prev
                tw = m.subst(t, {(u := r.choice(m.subterms(t))): m.sym(m.plain(u))})
                kw["t"] = r.choice([t, tw]).id
                kw["args"], kw["pts"] = args, [pt[:len(args)] + [0.5] * (len(args) - len(pt)) for pt in pts]
            else:
                self._prev_jit = m.terms[kw["t"]], kw["args"]
        return self.op("jit", **kw)

    def plan_P09(self):
        r, m = self.r, self.m
        self.profile = "calc"
        self.fill("calc", r.choice([3, 5]), depth=3, maxsize=30)
        if r.random() < 0.3:
            self.pool.append(m.app(m.fun("f"), m.sym("x")))

        def make(ci):
            x = r.random()
            if x < 0.35:
                return self.mark(self.g_jit())
            if x < 0.8:
                return self.mark(self.op("jcall", s=self.slot(), pts=[
                    [r.choice([0.0, 0.5, 1.5, -1.25, 2.0, 3.0]) for _ in range(4)] for _ in range(r.choice([1, 2, 3]))]))
            if x < 0.85:
                o = self.g_jit()
                o["imp"] = r.choice(["llvmlite.binding", "llvmlite.binding", "numpy"])
                o["retry"] = True
                return o
            return self.g_noise()

        return dict(programs=self.programs(make, None, 4, 11), knobs=self.knobs())

    # ------------------------------------------------------------------ P10
    def g_mat(self):
        r, m = self.r, self.m
        x = r.random()
        if not getattr(self, "_shape", None):
            self._shape = r.choice([(1, 1), (2, 2), (1, 3), (2, 3), (3, 2)])
        R, C = self._shape
        ms = lambda: r.choice([0, 1, 2, 3, 4])
        if x < 0.3:
            if r.random() < 0.15:
                R, C = r.choice([(1, 1), (2, 2), (3, 1)])
            return self.op("mnew", rows=[[(m.int(0) if r.random() < 0.4 else self.hot()).id for _ in range(C)] for _ in range(R)],
                           im=r.randrange(512), s=ms())
        if x < 0.55:
            kw = {}
            if r.random() < 0.3:
                kw["f"] = m.fun(r.choice(["Mul", "f", "g"])).id
            return self.op("madd", a=ms(), b=ms(), s=ms(), **kw)
        if x < 0.7:
            return self.op("mdiff", a=ms(), x=m.sym(r.choice(SYMS[:4])).id, s=ms())
        if x < 0.87:
            return self.op("mget", a=ms())
        kw = dict(k=r.choice(["ragged", "ragged2", "ragged3", "ragged4", "ragged5", "ragged6", "notlist", "rownotlist", "entry", "entry2", "oob", "oobc", "neg", "negc", "negboth", "negoob", "wrap", "idx1", "idx3",
                              "idxs", "idxf", "idxslice", "idxlist", "shape", "shape2", "addnon", "addint", "diffnon"]),
                  t=self.hot().id, ij=[r.randrange(3), r.randrange(3)])
        if r.random() < 0.7:
            kw["s"] = ms()
        return self.op("mbad", **kw)

    def plan_P10(self):
        r = self.r
        self.profile = "calc"
        self.fill("calc", r.choice([3, 5]), depth=2, maxsize=25)

        def make(ci):
            if r.random() < 0.85:
                return self.mark(self.g_mat())
            return self.g_noise()

        return dict(programs=self.programs(make, None, 6, 16), knobs=self.knobs())

    # ------------------------------------------------------------------ P11
    def badsy(self):
        r = self.r
        b, w = r.choice(self.bads)
        if r.random() < 0.4:
            b = r.randrange(46)
        if r.random() < 0.3:
            w = r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7])
        return self.op("fromsy", bad=b, wrap=w)

    def g_sy(self):
        r, m = self.r, self.m
        x = r.random()
        if x < 0.4:
            o = self.op("tosy", t=self.hot().id, how=r.choice([0, 0, 1]))
        elif x < 0.65:
            o = self.op("fromsy", t=self.hot().id, uneval=r.random() < 0.5)
        elif x < 0.75:
            o = self.badsy()
        else:
            R, C = r.choice([(1, 1), (2, 2), (1, 3), (2, 1), (3, 2), (2, 3)])
            o = self.op("msy", mk=r.choice(["", "", "im", "sp", "isp"]), rows=[[(m.int(0) if r.random() < 0.5 else self.hot()).id for _ in range(C)] for _ in range(R)])
        if r.random() < 0.15:
            o["imp"] = "sympy"
            o["retry"] = r.random() < 0.5
        return o

    def plan_P11(self):
        r = self.r
        self.profile = "sy"
        self.fill("sy", r.choice([3, 5, 8]), depth=3, maxsize=25)

        def make(ci):
            if r.random() < 0.85:
                return self.mark(self.g_sy())
            return self.g_noise()

        k = self.knobs()
        if r.random() < 0.5:  # race the first use
            k["p_bound"] = 0.1
            k["gap"] = r.choice([20, 100, 400, 1500])
        k["exc_span"] = r.choice([8, 10, 12, 13])
        return dict(programs=self.programs(make, None, 2, 7), knobs=k)

    # ------------------------------------------------------------------ P12
    BIG_ANY = "build buildcore drop topo topoheads topoex split fg eval evalvals symeval trans subs subs0 subsmid subscall ctree cgraph mnew rebuild".split()
    BIG_CALC = "binx diff diff0 ir mdiff mir".split()
    BIG = {
        "chain": BIG_ANY + BIG_CALC + ["f64", "str", "trvals"],
        "fchain": BIG_ANY + ["binx", "rdiff", "diff0", "trvals", "str"],
        "addchain": BIG_ANY + BIG_CALC + ["f64", "str", "diff2"],
        "shared": BIG_ANY + BIG_CALC + ["diff2"],
        "fib": BIG_ANY + BIG_CALC,
        "powshared": BIG_ANY + BIG_CALC,
        "wide": BIG_ANY + BIG_CALC + ["f64", "str"],
        "wideatoms": BIG_ANY + ["binx", "diff", "diff0", "str"],
        "fshared": BIG_ANY + ["rdiff", "diff0", "trvals"],
        "headchain": [w for w in BIG_ANY if w not in ("ctree", "topoex")],
        "fan": BIG_ANY + ["diff0", "trvals"],
        "heads": BIG_ANY + ["diff0"],
        "ladder": BIG_ANY + ["diff0", "rdiff", "trvals"],
        "comb": BIG_ANY + ["binx", "diff", "diff0", "str"],
    }

    def plan_P12(self):
        r = self.r
        if r.random() < 0.5:
            combos = [(s, w) for s, ws in self.BIG.items() for w in ws]
            self.profile = "free"
            self.fill("free", 2)
            crowd = r.random() < 0.4

            def make(ci):
                s, w = r.choice(combos)
                n = r.choice([[250, 1000], [400, 1600], [300, 2400]]) if not crowd else [r.choice([150, 600, 1300])]
                return self.op("big", shape=s, what=w, n=n)

            if crowd:
                k = self.knobs()
                k["gap"] = r.choice([200, 1000, 4000])
                return dict(programs=self.programs(make, r.choice([2, 3]), 1, 3), knobs=k)
            k = self.knobs(False, False)
            return dict(programs=self.programs(make, 1, 1, 3), knobs=k)
        # anything, with faults and crowding: nothing may block or spin
        p = self.plan_everything()
        return p

    def plan_everything(self):
        """A bit of everything, for properties about failure and progress."""
        r = self.r
        self.profile = "calc"
        self.fill("calc", r.choice([3, 5]), depth=2, maxsize=25)
        shared = self.shared_subs(1)
        shared.update(self.shared_eval(1))
        shared.update(self.shared_diff(1))
        shared.update(self.shared_trans(1))
        shared["R0"] = dict(k="reg", api=r.choice(["core", "sym", "diff"]))
        fs = [self.m.fun(n) for n in FUNS]
        calls = [self.m.app(h, self.m.sym("x")) for h in fs]
        self.tok = 1000

        def make(ci):
            x = r.random()
            if x < 0.1:
                return self.mark(self.g_mk(0.6))
            if x < 0.2:
                return self.g_noise()
            if x < 0.32:
                return self.mark(self.g_subs(self.hot()), 0.1)
            if x < 0.4:
                return self.mark(self.g_scall(shared), 0.1)
            if x < 0.5:
                return self.mark(self.g_ev(shared), 0.1)
            if x < 0.55:
                return self.mark(self.g_tf(shared), 0.1)
            if x < 0.63:
                return self.mark(self.g_diff(shared), 0.1)
            if x < 0.7:
                return self.mark(self.g_trav(), 0.1)
            if x < 0.8:
                return self.mark(self.g_mat(), 0.1)
            if x < 0.85:
                return self.mark(self.op("pr", t=self.hot().id, forms=r.sample(["str", "latex", "tree", "graph", "trepr", "tstr"], 2)), 0.1)
            if x < 0.88:
                return self.mark(self.op("opr", k=r.choice(["add", "sub", "mul", "div", "pow", "neg"]), a=self.hot().id, b=self.hot().id, s=self.slot()), 0.1)
            if x < 0.9:
                return self.mark(self.op("binx", t=self.hot().id), 0.1)
            d = shared["R0"]
            if d["api"] == "diff":
                h = r.choice(fs)
                key = f"diff:{h.id}:1:0"
            else:
                key = f"op:{r.choice(fs).id}"
            if r.random() < 0.5:
                self.tok += 1
                kw = dict(o="R0", key=key, tok=self.tok, ar=r.choice("12n"))
                if r.random() < 0.3 and d["api"] != "core":
                    kw["bad"] = r.randrange(16 * 7)
                return self.mark(self.op("reg", **kw), 0.1)
            if d["api"] == "diff":
                return self.mark(self.op("read", o="R0", key=key, n="1"))
            return self.mark(self.op("read", o="R0", t=r.choice(calls).id))

        return dict(programs=self.programs(make, None, 5, 14), knobs=self.knobs(), shared=shared)

    # ------------------------------------------------------------------ P13
    def plan_P13(self):
        r = self.r
        x = r.random()
        if x < 0.08:
            p = self.plan_P09()
        elif x < 0.16:
            p = self.plan_P11()
        elif x < 0.28:
            p = self.plan_P05()
        elif x < 0.36:
            p = self.plan_P01()
        else:
            p = self.plan_everything()
        k = p["knobs"]
        k["p_exc"] = r.choice([0.2, 0.4, 0.6])
        k["exc_span"] = r.choice([6, 8, 9, 10, 11])
        return p

    # ------------------------------------------------------------------ P14
    def plan_P14(self):
        r = self.r
        self.profile = r.choice(["calc", "free", "odd", "tree"])
        self.fill(self.profile, r.choice([3, 6, 9]), depth=4)
        if self.look:
            m = self.m
            for n in r.sample(self.looks, min(4, len(self.looks))):
                h = m.fun(r.choice(["sin", "cos", "f", "Add", "Mul", "pow"]))
                self.pool.append(m.pow(m.sym(n), m.int(2)) if h is m.fun("pow") else m.app(h, m.sym(n)))
        forms = ["str", "repr", "eval_repr", "latex", "_latex", "tstr", "trepr", "tree", "graph", "sstr", "srepr"]

        def make(ci):
            if r.random() < 0.7:
                return self.mark(self.op("pr", t=self.hot().id, forms=r.sample(forms, r.choice([1, 2, 4]))))
            return self.g_noise()

        return dict(programs=self.programs(make), knobs=self.knobs())

    # ------------------------------------------------------------------ P15
    def g_badopr(self):
        r = self.r
        t = self.hot() if r.random() < 0.6 else self.m.fun(r.choice(FUNS[:2] + ["sin", "Add"]))
        return self.op("badopr", t=t.id, bad=r.randrange(21),
                       k=r.choice(["add", "sub", "mul", "div", "pow", "call", "expressify", "radd", "rmul", "rpow", "tree",
                                   "treecall", "tratom", "sym", "expr", "exprtree"]))

    def plan_P15(self):
        r, m = self.r, self.m
        self.profile = r.choice(["free", "calc", "odd"])
        self.fill(self.profile, r.choice([3, 6]))

        def make(ci):
            x = r.random()
            if x < 0.35:
                ta, tb = self.hot(), self.hot()
                if r.random() < 0.4:
                    tb = m.int(self.num())
                if r.random() < 0.2:
                    ta = m.int(self.num())
                if r.random() < 0.12:  # heads are expressions too
                    ta = m.fun(r.choice(["Add", "Mul", "pow", "f", "sin", "List"]))
                if r.random() < 0.06:
                    tb = m.fun(r.choice(["Add", "Mul", "pow", "f", "sin", "List"]))
                return self.mark(self.op("opr", k=r.choice(["add", "sub", "mul", "div", "pow", "neg", "pos", "iadd"]), a=ta.id, b=tb.id,
                                         ia=r.random() < 0.5, ib=r.random() < 0.7, s=self.slot() if r.random() < 0.5 else None))
            if x < 0.5:
                h = r.choice([m.fun("Add"), m.fun("Mul"), m.fun("f"), m.fun("sin"), m.fun("List"), self.hot()])
                args = [(m.int(self.num()) if r.random() < 0.4 else self.hot()).id for _ in range(self.few(0, 1, 2, 3, 5))]
                return self.mark(self.op("call", h=h.id, args=args, im=r.getrandbits(33)))
            if x < 0.6:
                return self.mark(self.g_mk(0.6, ("Expr", "Expr", "Tree", "Sym", "Atom")))
            if x < 0.7:
                return self.mark(self.op("rebuild", t=self.hot().id, how=r.randrange(3)))
            if x < 0.8:
                return self.mark(self.op("binx", t=self.hot().id))
            if x < 0.9:
                return self.mark(self.g_badopr())
            return self.g_noise()

        return dict(programs=self.programs(make), knobs=self.knobs())

    # ------------------------------------------------------------------ P16
    def g_call(self):
        r, m = self.r, self.m
        h = r.choice([m.fun("Add"), m.fun("Mul"), m.fun("f"), m.fun("sin"), m.fun("List"), self.hot()])
        args = [(m.int(self.num()) if r.random() < 0.4 else self.hot()).id for _ in range(self.few(0, 1, 2, 3, 5))]
        return self.op("call", h=h.id, args=args, im=r.getrandbits(33))

    def plan_P16(self):
        r, m = self.r, self.m
        x = r.random()
        sy = x < 0.12
        self.profile = r.choice(["calc", "free", "tree"]) if not sy else "sy"
        self.fill(self.profile, r.choice([3, 6, 9]), depth=4)
        shared = self.shared_eval(1)
        shared.update(self.shared_trans(1))
        shared.update(self.shared_subs(1))
        shared.update(self.shared_diff(1))
        calc = self.profile == "calc"
        sigs = [[m.sym(s).id for s in SYMS[:4]]]
        for _ in range(3):
            a = SYMS[:4] + r.sample(LOOK + WEIRD + ["p", "q"], r.choice([0, 0, 1, 2]))
            r.shuffle(a)
            sigs.append([m.sym(s).id for s in (a if r.random() < 0.7 else a[:r.randrange(1, 5)])])

        def irargs():
            return list(r.choice(sigs))

        def observed():
            y = r.random()
            if sy and y < 0.6:
                return self.op("tosy", t=self.hot().id) if y < 0.4 else self.op("msy", rows=[[self.hot().id, m.int(0).id]])
            if y < 0.2:
                return self.op("pr", t=self.hot().id, forms=r.sample(["str", "latex", "tree", "graph", "trepr", "tstr"], 3))
            if y < 0.35:
                return self.g_trav()
            if y < 0.45:
                return self.g_ev(shared)
            if y < 0.52:
                return self.g_subs(self.hot())
            if y < 0.57:
                return self.g_scall(shared)
            if y < 0.62:
                return self.g_tf(shared)
            if y < 0.66:
                return self.g_badopr()
            if y < 0.71:
                o = self.g_call()
                o["s"] = self.slot3()
                return o
            if y < 0.75:
                return self.op("opr", k=r.choice(["add", "sub", "mul", "div", "pow"]), a=self.hot().id, b=self.hot().id, s=self.slot3())
            if y < 0.8:
                return self.op("binx", t=self.hot().id)
            if calc:
                if y < 0.84:
                    return self.op("ir", t=self.hot().id, args=irargs())
                if y < 0.9:
                    o = self.g_diff(shared)
                    o["s"] = self.slot3()
                    return o
                if y < 0.94:
                    return self.op("ir", t=self.hot().id, args=irargs())
                o = self.g_mat()
                for k in ("a", "b", "s"):
                    if k in o and isinstance(o[k], int):
                        o[k] += 3
                return o
            o = self.g_mk(0.5)
            if o.get("s") is not None:
                o["s"] = self.slot3()
            return o

        def crowd():
            y = r.random()
            if y < 0.2:
                return self.g_noise()
            if y < 0.3:
                return self.op("pr", t=self.hot().id, forms=["str", "latex"])
            if y < 0.4:
                return self.g_ev(shared)
            if y < 0.5:
                return self.g_trav()
            if y < 0.6:
                return self.g_subs(self.hot())
            if y < 0.66:
                return self.g_scall(shared)
            if y < 0.72:
                return self.g_badopr()
            if y < 0.77:
                return self.g_call()
            if y < 0.8:
                return self.op("opr", k=r.choice(["add", "sub", "mul", "div", "pow", "neg"]), a=self.hot().id, b=self.hot().id)
            if y < 0.83:
                return self.g_tf(shared)
            if y < 0.86:
                return self.op("binx", t=self.hot().id)
            if sy:
                return self.op("tosy", t=self.hot().id) if y < 0.94 else self.op("fromsy", t=self.hot().id, uneval=r.random() < 0.5)
            if calc and y < 0.9:
                return self.op("ir", t=self.hot().id, args=irargs())
            if calc and y < 0.95:
                return self.g_mat()
            return self.g_diff(shared) if calc else self.g_mk(0.5)

        def like(o):
            """Nearly the same request, or a wrong one of the same kind."""
            o = dict(o, id=self.op("x")["id"])
            o.pop("nofault", None)
            o.pop("s", None)
            y = r.random()
            bad = r.randrange(21)
            if "t" in o and y > 0.9:  # other objects with the same names
                t = m.terms[o["t"]]
                ats = sorted((u for u in m.subterms(t, heads=True) if u.kind in ("Symbol", "Function") and not u.ch), key=lambda u: u.id)
                if ats:
                    other = [m.fun(u.value) if u.kind == "Symbol" else m.sym(u.value) for u in r.sample(ats, min(len(ats), 3))]
                    return self.op("mk", t=m.app(m.fun("f"), *other).id, s=self.slot(), rt=r.randrange(1000), cls="Expr", retry=True)
            if y < 0.4:
                if o["op"] == "call":
                    return self.op("badopr", t=o["h"], bad=bad, k=r.choice(["call", "call", "call", "tree", "treecall", "add", "radd"]))
                if o["op"] == "opr":
                    return self.op("badopr", t=r.choice([o["a"], o["b"]]), bad=bad, k=o["k"])
                if o["op"] in ("mget", "madd", "mdiff", "mnew", "mbad"):
                    return self.g_mat()
                if o["op"] == "ev":
                    o["raise_at"] = 1
                elif o["op"] == "scall":
                    o["bad"] = bad
                elif o["op"] in ("tosy", "fromsy"):
                    return self.badsy()
                else:
                    o["fi"] = 1 + int(2 ** r.uniform(0, 9))
            elif y < 0.7 and o["op"] == "ir" and y < 0.55:
                o["args"] = r.sample(o["args"], len(o["args"]))
            elif y < 0.7:
                vs = getattr(self, "variant_of", {})
                if "t" in o and o["t"] in vs and o["op"] in ("mk", "pr", "binx", "ir", "tosy", "diff", "fg", "topo", "f64"):
                    o["t"] = vs[o["t"]]
                elif o["op"] == "call":
                    o["args"] = o["args"][::-1]
                elif o["op"] == "opr":
                    o["a"], o["b"] = o["b"], o["a"]
            return o

        n = r.choice([2, 2, 3])
        progs = []
        p0 = []
        for _ in range(r.randrange(4, 12)):
            o = observed()
            o["nofault"] = True
            if "s" in o and isinstance(o["s"], int) and o["s"] < 3:
                o["s"] += 3
            p0.append(o)
        progs.append(p0)
        plike = r.choice([0.15, 0.4, 0.7])
        for _ in range(n - 1):
            progs.append([like(r.choice(p0)) if r.random() < plike else crowd() for _ in range(r.randrange(4, 14))])
        k = self.knobs()
        if r.random() < 0.4:
            # the observed client comes after the others
            k["first"] = 1
            k["p_bound"] = r.choice([0, 0.03])
            if r.random() < 0.6:
                k["gap"] = 1500
        return dict(programs=progs, knobs=k, shared=shared, transcript=True)

    def slot3(self):
        return self.r.choice([3, 4, 5, 6])
