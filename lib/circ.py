"""Decides statements about *every* satisfying assignment of a PLONK-ish circuit whose
constraint system and layout were dumped from the real code (harness `layout`).

Unknowns: every advice cell (over the whole prime field) and the public values marked
symbolic.  The search splits products of factors, matches the factors of permutation
products (challenges are formal variables; phase-0 cells cannot depend on them) and
propagates linear equations; z3 decides feasibility of each branch (linear integer
arithmetic modulo p, with the lookup ranges) and the goal at each leaf.  A leaf whose
goal can fail is turned into numbers and checked against every constraint exactly."""
import itertools, os, sys, time
import z3

PR = 21888242871839275222246405745257275088548364400416034343698204186575808495617
sys.setrecursionlimit(20000)
ONE = ((),)


# ---- polynomials: dict monomial(tuple of sorted var ids) -> int mod PR -------------
def pconst(c):
    c %= PR
    return {(): c} if c else {}


def pvar(v):
    return {(v,): 1}


def padd(a, b, s=1):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        x = (r.get(m, 0) + s * c) % PR
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def pscale(a, s):
    s %= PR
    if s == 1:
        return a
    if s == 0:
        return {}
    return {m: c * s % PR for m, c in a.items()}


class TooBig(Exception):
    pass


def pmul(a, b, cap=4000):
    if len(a) * len(b) > cap:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)) if m and n else (m or n)
            x = (r.get(k, 0) + c * d) % PR
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    return r


def isconst(a):
    return not a or (len(a) == 1 and () in a)


def cval(a):
    return a.get((), 0)


def deg(a):
    return max((len(m) for m in a), default=0)


def pvars(a):
    s = set()
    for m in a:
        s.update(m)
    return s


_norm_cache = {}


def norm(a):
    """monic representative (hashable) of a non-constant polynomial (polynomials are never mutated)"""
    e = _norm_cache.get(id(a))
    if e is not None and e[0] is a:
        return e[1]
    if len(_norm_cache) > 300000:
        _norm_cache.clear()
    n = norm_(a)
    _norm_cache[id(a)] = (a, n)
    return n


def norm_(a):
    k = max(a, key=lambda m: (len(m), m))
    i = pow(a[k], -1, PR)
    return tuple(sorted((m, c * i % PR) for m, c in a.items()))


def psub(a, sub):
    """substitute variables (var -> poly)"""
    if not any(v in sub for m in a for v in m):
        return a
    r = {}
    for m, c in a.items():
        t = {(): c}
        for v in m:
            t = pmul(t, sub[v] if v in sub else pvar(v))
        r = padd(r, t)
    return r


def cen(c):
    return c if c <= PR // 2 else c - PR


# ---- the circuit instance -------------------------------------------------------------
class Circuit:
    def __init__(self, d, sym_instance=()):
        """sym_instance: set of (col,row) public values that are unknown"""
        self.d = d
        self.phase = d["advice_phase"]
        self.nch = len(d["challenge_phase"])
        self.fixed = {(c, r): int(v, 16) for c, r, v in d["fixed"]}
        self.fill = {c: (r, int(v, 16)) for c, r, v in d["fill"]}
        self.sel = {int(k): set(v) for k, v in d["selectors"].items()}
        self.inst = [[int(x, 16) for x in col] for col in d["instance"]]
        self.honest = {(c, r): int(v, 16) for c, r, v in d["advice"]}
        self.ids = {}
        self.names = []
        self.sym_instance = set(sym_instance)
        self.tags = {k: tuple(v[0]) for k, v in d["tags"].items()}
        self.rows = d["rows"]
        # challenges get the first ids
        self.chal = [self.var(("h", k)) for k in range(self.nch)]
        for cell in sorted(self.sym_instance):
            self.var(("i",) + cell)
        self.eq2 = []
        self.eq1 = []
        for a, b in d["copies"]:
            a, b = tuple(a), tuple(b)
            if self.is2(a) or self.is2(b):
                self.eq2.append((a, b))
            else:
                self.eq1.append((a, b))
        self.cons = []
        self.cons2 = []
        self.ranges = []
        self.other_lookups = []
        for g in d["gates"]:
            for r in self.active_rows(g["e"]):
                t = self.inst_tree(g["e"], r)
                if t == ("c", 0):
                    continue
                (self.cons2 if self.tree2(t) else self.cons).append((g["name"], r, t))
        self.rawlook = []
        for l in d["lookups"]:
            table = []
            for r in range(max(self.rows, 300)):
                table.append(tuple(self.fixed_eval(e, r) for e in l["table"]))
            tset = set(table)
            one = len(l["in"]) == 1
            hi = max(t[0] for t in tset) if one else None
            contiguous = one and None not in [t[0] for t in tset] and len(tset) == hi + 1 and min(t[0] for t in tset) == 0
            for r in range(self.rows):
                ts = [self.inst_tree(e, r) for e in l["in"]]
                self.rawlook.append((ts, tset))
                if all(t[0] == "c" for t in ts):
                    continue
                if contiguous:
                    self.ranges.append((ts[0], hi))
                else:
                    self.other_lookups.append((ts, tset))

    def var(self, cell):
        if cell not in self.ids:
            self.ids[cell] = len(self.names)
            self.names.append(cell)
        return self.ids[cell]

    def is2(self, cell):
        return cell[0] == "a" and self.phase[cell[1]] > 0

    def fix(self, c, r):
        if (c, r) in self.fixed:
            return self.fixed[(c, r)]
        if c in self.fill and r >= self.fill[c][0]:
            return self.fill[c][1]
        return 0

    def fixed_eval(self, e, r):
        t = self.inst_tree(e, r)
        return t[1] if t[0] == "c" else None

    def active_rows(self, e):
        """rows on which the polynomial is not trivially zero because of selectors"""
        need = self.need_sel(e)
        if need is None:
            return range(self.rows)
        return sorted(need)

    def need_sel(self, e):
        k = e[0]
        if k == "s":
            return self.sel.get(e[1], set())
        if k == "*":
            a, b = self.need_sel(e[1]), self.need_sel(e[2])
            if a is None:
                return b
            if b is None:
                return a
            return a & b
        if k == "+":
            a, b = self.need_sel(e[1]), self.need_sel(e[2])
            if a is None or b is None:
                return None
            return a | b
        if k in ("n", "k"):
            return self.need_sel(e[1])
        if k == "c" and int(e[1], 16) == 0:
            return set()
        return None

    def inst_tree(self, e, r):
        """instantiate at a row and fold constants: ('c',v) | ('v',cell) | ('h',k) | ('+',..) | ('*',..)"""
        k = e[0]
        if k == "c":
            return ("c", int(e[1], 16))
        if k == "s":
            return ("c", 1 if r in self.sel.get(e[1], ()) else 0)
        if k == "f":
            return ("c", self.fix(e[1], r + e[2]))
        if k == "a":
            return ("v", ("a", e[1], r + e[2]))
        if k == "i":
            return ("v", ("i", e[1], r + e[2]))
        if k == "h":
            return ("h", e[1])
        if k == "n":
            t = self.inst_tree(e[1], r)
            return ("c", -t[1] % PR) if t[0] == "c" else ("*", ("c", PR - 1), t)
        if k == "k":
            t = self.inst_tree(e[1], r)
            c = int(e[2], 16)
            if c == 0:
                return ("c", 0)
            return ("c", c * t[1] % PR) if t[0] == "c" else ("*", ("c", c), t)
        a = self.inst_tree(e[1], r)
        if k == "*":
            if a == ("c", 0):
                return a
            b = self.inst_tree(e[2], r)
            if b == ("c", 0):
                return b
            if a[0] == "c" and b[0] == "c":
                return ("c", a[1] * b[1] % PR)
            if a == ("c", 1):
                return b
            if b == ("c", 1):
                return a
            return ("*", a, b)
        b = self.inst_tree(e[2], r)
        if a[0] == "c" and b[0] == "c":
            return ("c", (a[1] + b[1]) % PR)
        if a == ("c", 0):
            return b
        if b == ("c", 0):
            return a
        return ("+", a, b)

    def tree2(self, t):
        if t[0] == "h":
            return True
        if t[0] == "v":
            return self.is2(t[1])
        if t[0] in "+*":
            return self.tree2(t[1]) or self.tree2(t[2])
        return False

    def cells(self, t, out):
        if t[0] == "v":
            out.add(t[1])
        elif t[0] in "+*":
            self.cells(t[1], out)
            self.cells(t[2], out)
        return out

    # exact evaluation of a full numeric assignment ------------------------------------
    def num(self, t, get):
        if t[0] == "c":
            return t[1]
        if t[0] == "v":
            return get(t[1])
        if t[0] == "h":
            return get(("h", t[1]))
        a, b = self.num(t[1], get), self.num(t[2], get)
        return (a + b) % PR if t[0] == "+" else a * b % PR

    def violated(self, get):
        for n, r, t in self.cons + self.cons2:
            if self.num(t, get):
                return "gate %s row %d" % (n, r)
        for ts, tset in self.rawlook:
            if tuple(self.num(t, get) for t in ts) not in tset:
                return "lookup"
        for a, b in self.eq1 + self.eq2:
            if get(a) != get(b):
                return "copy %s %s" % (a, b)
        return None


class Dead(Exception):
    pass


class State:
    __slots__ = ("c", "sub", "zero", "nonzero", "eqs", "val2", "done2", "pend", "match", "checked", "order", "evc")

    def copy(self):
        s = State()
        s.c = self.c
        s.sub = dict(self.sub)
        s.zero = set(self.zero)
        s.nonzero = set(self.nonzero)
        s.eqs = list(self.eqs)
        s.val2 = dict(self.val2)
        s.done2 = set(self.done2)
        s.pend = list(self.pend)
        s.match = [(list(a), list(b)) for a, b in self.match]
        s.checked = set(self.checked)
        s.evc = dict(self.evc)
        return s


class Search:
    def __init__(self, circuit, goals, limit=200000, seconds=600, on_leaf=None):
        self.c = circuit
        self.goals = goals
        self.leaves = 0
        self.branches = 0
        self.queries = 0
        self.solver_s = 0.0
        self.limit = limit
        self.deadline = time.time() + seconds
        self.inconclusive = []
        self.found = []
        self.highdeg = {}
        self.dcache = {}

    # -- values ------------------------------------------------------------------------
    def cellpoly(self, s, cell):
        c = self.c
        if cell[0] == "f":
            return pconst(c.fix(cell[1], cell[2]))
        if cell[0] == "i" and (cell[1], cell[2]) not in c.sym_instance:
            col = c.inst[cell[1]]
            return pconst(col[cell[2]] if 0 <= cell[2] < len(col) else 0)
        v = c.var(cell)
        p = s.sub.get(v)
        if p is None:
            return {(v,): 1}
        return p

    def add_sub(self, s, v, p):
        """v := p (p free of v and of eliminated variables)"""
        one = {v: p}
        for k, q in list(s.sub.items()):
            if any(v in m for m in q):
                s.sub[k] = psub(q, one)
        s.sub[v] = p
        for attr in ("zero", "nonzero"):
            new = set()
            for q in getattr(s, attr):
                if any(v in m for m, _ in q):
                    r = psub(dict(q), one)
                    if isconst(r):
                        z = cval(r) == 0
                        if attr == "zero" and not z or attr == "nonzero" and z:
                            raise Dead()
                        continue
                    if attr == "zero":
                        s.eqs.append(r)
                        continue
                    q = norm(r)
                new.add(q)
            setattr(s, attr, new)
        s.eqs = [psub(q, one) for q in s.eqs]
        for k, (cf, fs) in list(s.val2.items()):
            if any(v in m for f in fs for m in f):
                s.val2[k] = (cf, [psub(f, one) for f in fs])
        s.match = [([psub(f, one) for f in a], [psub(f, one) for f in b]) for a, b in s.match]

    def learn_zero(self, s, p):
        """p = 0"""
        p = psub(p, s.sub)
        if isconst(p):
            if cval(p):
                raise Dead()
            return False
        n = norm(p)
        if n in s.nonzero:
            raise Dead()
        if n in s.zero:
            return False
        if deg(p) == 1:
            # eliminate the newest variable with a non-zero constant coefficient
            v = max(m[0] for m in p if m)
            k = pow(p[(v,)], -1, PR)
            q = {m: (-c * k) % PR for m, c in p.items() if m != (v,)}
            self.add_sub(s, v, q)
            return True
        # variable occurring linearly on its own with constant coefficient
        cnt = {}
        for m in p:
            for v in set(m):
                cnt[v] = cnt.get(v, 0) + 1
        for m in sorted(p, reverse=True):
            if len(m) == 1 and cnt[m[0]] == 1:
                v = m[0]
                k = pow(p[m], -1, PR)
                self.add_sub(s, v, {x: (-c * k) % PR for x, c in p.items() if x != m})
                return True
        s.zero.add(n)
        c0 = p.get((), 0)
        if c0:
            vs = None
            for m in p:
                if m:
                    vs = set(m) if vs is None else vs & set(m)
            for v in vs or ():
                co = {}
                for m, c in p.items():
                    if m:
                        l = list(m)
                        l.remove(v)
                        co[tuple(l)] = c
                self.learn_nonzero(s, pvar(v))
                if not isconst(co):
                    self.learn_nonzero(s, co)
        return True

    def learn_nonzero(self, s, p):
        p = psub(p, s.sub)
        if isconst(p):
            if not cval(p):
                raise Dead()
            return
        n = norm(p)
        if n in s.zero:
            raise Dead()
        s.nonzero.add(n)

    def cached(self, s, i, fn, t):
        """fn(s, t), reused while the values it depends on are unchanged"""
        sub = s.sub
        key = [sub.get(v) for v in self.ccells[i]]
        e = s.evc.get(i)
        if e is not None and e[1] == len(s.zero) and len(e[0]) == len(key) and all(a is b for a, b in zip(e[0], key)) and e[3] == self.zver(s):
            if e[2] is None:
                raise TooBig()
            return e[2]
        try:
            r = fn(s, t)
        except TooBig:
            r = None
        s.evc[i] = (key, len(s.zero), r, self.zver(s))
        if r is None:
            raise TooBig()
        return r

    def zver(self, s):
        return hash(frozenset(s.zero)) if s.zero else 0

    def lincol(self, s, t):
        l = self.lin(s, t)
        l = {k: self.collapse(v) for k, v in l.items()}
        return {k: v for k, v in l.items() if v[0]}

    # -- evaluation of a phase-0 constraint tree into (coef, factors) --------------------
    def ev(self, s, t):
        if t[0] == "c":
            return (t[1], [])
        if t[0] == "v":
            p = self.cellpoly(s, t[1])
            return self.fac(s, p)
        if t[0] == "*":
            c1, f1 = self.ev(s, t[1])
            if c1 == 0:
                return (0, [])
            c2, f2 = self.ev(s, t[2])
            return (c1 * c2 % PR, f1 + f2) if c2 else (0, [])
        c1, f1 = self.ev(s, t[1])
        c2, f2 = self.ev(s, t[2])
        if c1 == 0:
            return (c2, f2)
        if c2 == 0:
            return (c1, f1)
        return self.fac(s, padd(self.expand(c1, f1), self.expand(c2, f2)))

    def expand(self, c, fs):
        r = pconst(c)
        for f in fs:
            r = pmul(r, f)
        return r

    def fac(self, s, p):
        if isconst(p):
            return (cval(p), [])
        n = norm(p)
        if n in s.zero:
            return (0, [])
        return (1, [p])

    # -- phase-2 linear forms: {cell2: (coef, factors)} with factors over phase-0 + challenges
    def lin(self, s, t):
        """returns dict key -> list of (coef, factors); key None = constant part"""
        c = self.c
        if t[0] == "c":
            return {None: [(t[1], [])]} if t[1] else {}
        if t[0] == "h":
            return {None: [(1, [pvar(c.chal[t[1]])])]}
        if t[0] == "v":
            if c.is2(t[1]):
                return {t[1]: [(1, [])]}
            x = self.fac(s, self.cellpoly(s, t[1]))
            return {None: [x]} if x[0] else {}
        a = self.lin(s, t[1])
        if t[0] == "*":
            if not a:
                return a
            b = self.lin(s, t[2])
            if not b:
                return b
            if set(a) != {None} and set(b) != {None}:
                raise TooBig()
            if set(b) != {None}:
                a, b = b, a
            cf, fs = self.collapse(b[None])
            if cf == 0:
                return {}
            return {k: [(x * cf % PR, g + fs) for x, g in v] for k, v in a.items()}
        b = self.lin(s, t[2])
        r = {k: list(v) for k, v in a.items()}
        for k, v in b.items():
            r.setdefault(k, []).extend(v)
        return r

    def collapse(self, terms):
        terms = [t for t in terms if t[0]]
        if not terms:
            return (0, [])
        if len(terms) == 1:
            return terms[0]
        # merge equal factor lists first
        acc = {}
        for cf, fs in terms:
            key = tuple(sorted(tuple(sorted(f.items())) for f in fs))
            o = acc.get(key)
            acc[key] = ((o[0] + cf) % PR if o else cf, fs)
        terms = [t for t in acc.values() if t[0]]
        if not terms:
            return (0, [])
        if len(terms) == 1:
            return terms[0]
        r = {}
        for cf, fs in terms:
            r = padd(r, self.expand(cf, fs))
        if isconst(r):
            return (cval(r), [])
        return (1, [r])

    # -- propagation -------------------------------------------------------------------
    def init(self):
        s = State()
        s.c = self.c
        s.sub, s.zero, s.nonzero, s.eqs, s.val2, s.done2, s.match = {}, set(), set(), [], {}, set(), []
        s.checked = set()
        s.evc = {}
        self.ccells = [[c.var(x) for x in sorted(c.cells(t, set())) if not (x[0] == 'f' or c.is2(x) or x[0] == 'i' and (x[1], x[2]) not in c.sym_instance)] for c in (self.c,) for _, _, t in c.cons + c.cons2]
        s.pend = list(range(len(self.c.cons)))
        for a, b in self.c.eq1:
            self.learn_zero(s, padd(self.cellpoly(s, a), self.cellpoly(s, b), -1))
        # cells that make a constraint high-degree: wait until they are constant
        for i, (n, r, t) in enumerate(self.c.cons + self.c.cons2):
            cells = self.c.cells(t, set())
            self.highdeg[i] = [x for x in cells if self.degin(t, x) >= 3]
        return s

    def degin(self, t, cell):
        if t[0] == "v":
            return 1 if t[1] == cell else 0
        if t[0] in "ch":
            return 0
        a, b = self.degin(t[1], cell), self.degin(t[2], cell)
        return a + b if t[0] == "*" else max(a, b)

    def ready(self, s, i):
        return all(isconst(self.cellpoly(s, x)) for x in self.highdeg[i])

    def propagate(self, s):
        """to fixpoint; returns list of branching candidates [(factors)]"""
        while True:
            changed = False
            # loose equations
            eqs, s.eqs = s.eqs, []
            for q in eqs:
                changed |= self.learn_zero(s, q)
            if s.eqs:
                continue
            cands = []
            keep = []
            for i in s.pend:
                if not self.ready(s, i):
                    keep.append(i)
                    continue
                try:
                    cf, fs = self.cached(s, i, self.ev, self.c.cons[i][2])
                except TooBig:
                    keep.append(i)
                    continue
                if cf == 0:
                    continue
                fs = [f for f in fs if norm(f) not in s.nonzero]
                if not fs:
                    raise Dead()
                seen, u = set(), []
                for f in fs:
                    k = norm(f)
                    if k not in seen:
                        seen.add(k)
                        u.append(f)
                if len(u) == 1 and (deg(u[0]) == 1 or True):
                    if deg(u[0]) > 1:
                        parts = split_poly(u[0])
                        if len(parts) > 1:
                            cands.append(parts)
                            keep.append(i)
                            continue
                    changed |= self.learn_zero(s, u[0])
                    if deg(u[0]) > 1:
                        pass
                    continue
                cands.append(u)
                keep.append(i)
            s.pend = keep
            if changed:
                continue
            # phase 2
            c2 = self.phase2(s)
            if c2:
                continue
            return cands

    def phase2(self, s):
        changed = False
        base = len(self.c.cons)
        for a, b in self.c.eq2:
            for x, y in ((a, b), (b, a)):
                if self.c.is2(x) and not self.c.is2(y) and x not in s.val2:
                    s.val2[x] = self.fac(s, self.cellpoly(s, y))
                    changed = True
        prog = True
        while prog:
            prog = False
            for i, (n, r, t) in enumerate(self.c.cons2):
                if i in s.done2 or not self.ready(s, base + i):
                    continue
                try:
                    l = self.cached(s, base + i, self.lincol, t)
                except TooBig:
                    continue
                # an unknown with a non-constant phase-0 coefficient is not decided yet
                unk = [k for k in l if k is not None and k not in s.val2]
                if len(unk) > 1:
                    continue
                try:
                    terms = []
                    for k, v in l.items():
                        if k is None:
                            terms.append(v)
                        elif k in s.val2:
                            w = s.val2[k]
                            terms.append((v[0] * w[0] % PR, v[1] + w[1]))
                    tot = self.collapse(terms)
                except TooBig:
                    continue
                if not unk:
                    s.done2.add(i)
                    self.ident(s, tot, (0, []))
                    prog = changed = True
                    continue
                cf, fs = l[unk[0]]
                if fs:
                    continue
                s.val2[unk[0]] = (-tot[0] * pow(cf, -1, PR) % PR, tot[1])
                s.done2.add(i)
                prog = changed = True
        for j, (a, b) in enumerate(self.c.eq2):
            if ("e", j) in s.done2:
                continue
            if a in s.val2 and b in s.val2 and self.c.is2(a) and self.c.is2(b):
                s.done2.add(("e", j))
                self.ident(s, s.val2[a], s.val2[b])
                changed = True
        if not changed:
            # hand a value across a copy only when the other side has no other source
            for a, b in self.c.eq2:
                for x, y in ((a, b), (b, a)):
                    if x in s.val2 and self.c.is2(y) and y not in s.val2 and not self.determined(y):
                        s.val2[y] = s.val2[x]
                        changed = True
        # matches forced by propagation
        m2, s.match = s.match, []
        for a, b in m2:
            if self.reduce_match(s, a, b):
                changed = True
        return changed or bool(s.eqs)

    def determined(self, cell):
        if not hasattr(self, "_det"):
            self._det = {}
            for n, r, t in self.c.cons2:
                for x in self.c.cells(t, set()):
                    if self.c.is2(x):
                        self._det[x] = self._det.get(x, 0) + 1
        return self._det.get(cell, 0) > 0

    def chdeg(self, f):
        n = self.c.nch
        return max(sum(1 for v in m if v < n) for m in f)

    def ident(self, s, A, B):
        """A == B identically in the challenges"""
        (ca, fa), (cb, fb) = A, B
        if ca == 0 or cb == 0:
            if ca == cb:
                return
            o = fa if cb == 0 else fb
            if not o:
                raise Dead()
            # a product is identically zero iff one factor is; only a single factor is handled
            if len(o) == 1:
                self.coeffs(s, o[0])
                return
            self.inconclusive.append("product required to vanish")
            return
        if all(self.chdeg(f) == 1 for f in fa + fb) and len(fa) + len(fb) > 0 and (len(fa) > 1 or len(fb) > 1) and all(self.unitlead(f) for f in fa + fb):
            if len(fa) != len(fb) or ca != cb:
                raise Dead()
            self.reduce_match(s, list(fa), list(fb))
            return
        try:
            d = padd(self.expand(ca, fa), self.expand(cb, fb), -1)
        except TooBig:
            self.inconclusive.append("identity too large")
            return
        self.coeffs(s, d)

    def unitlead(self, f):
        """some challenge monomial with a non-zero constant coefficient 1"""
        n = self.c.nch
        return any(len(m) == 1 and m[0] < n and c == 1 for m, c in f.items())

    def coeffs(self, s, d):
        n = self.c.nch
        g = {}
        for m, c in d.items():
            ch = tuple(v for v in m if v < n)
            rest = tuple(v for v in m if v >= n)
            g.setdefault(ch, {})[rest] = c
        s.eqs.extend(g.values())

    def differs(self, f, g):
        """coefficient equations of f == g, or None if impossible outright"""
        k = (id(f), id(g))
        e = self.dcache.get(k)
        if e is not None and e[0] is f and e[1] is g:
            return e[2]
        if len(self.dcache) > 300000:
            self.dcache.clear()
        e = self.differs_(f, g)
        self.dcache[k] = (f, g, e)
        return e

    def differs_(self, f, g):
        d = padd(f, g, -1)
        n = self.c.nch
        r = {}
        for m, c in d.items():
            ch = tuple(v for v in m if v < n)
            r.setdefault(ch, {})[tuple(v for v in m if v >= n)] = c
        eqs = [q for q in r.values() if q]
        if any(isconst(q) for q in eqs):
            return None
        return eqs

    def reduce_match(self, s, a, b):
        """multiset equality of linear factors; cancels equal ones; stores the rest"""
        changed = False
        bs = {}
        for g in b:
            bs.setdefault(tuple(sorted(g.items())), []).append(g)
        ra = []
        for f in a:
            k = tuple(sorted(f.items()))
            if bs.get(k):
                bs[k].pop()
                changed = True
            else:
                ra.append(f)
        rb = [g for v in bs.values() for g in v]
        if not ra:
            return changed
        s.match.append((ra, rb))
        for side, other in ((ra, rb), (rb, ra)):
            for f in side:
                cand = {}
                for g in other:
                    e = self.differs(f, g)
                    if e is not None:
                        cand[tuple(sorted(g.items()))] = (g, e)
                if not cand:
                    raise Dead()
                if len(cand) == 1:
                    g, e = next(iter(cand.values()))
                    s.match[-1] = (minus(ra, [f] if side is ra else [g]), minus(rb, [g] if side is ra else [f]))
                    s.eqs.extend(e)
                    return True
        return changed

    # -- solver ------------------------------------------------------------------------
    def zterm(self, p, env):
        r = []
        for m, c in p.items():
            c = cen(c)
            if not m:
                r.append(z3.IntVal(c))
                continue
            t = None
            if len(m) == 1:
                t = self.zvar(m[0], env)
            else:
                t = self.zmono(m, env)
            r.append(t * c if c != 1 else t)
        return z3.Sum(r) if len(r) != 1 else r[0]

    def zvar(self, v, env):
        if v not in env["v"]:
            x = z3.Int("x%d" % v)
            env["v"][v] = x
            lo, hi = env["rng"].get(v, (0, PR - 1))
            env["s"].add(x >= lo, x <= hi)
        return env["v"][v]

    def zmono(self, m, env):
        if m not in env["m"]:
            x = z3.Int("m" + "_".join(map(str, m)))
            env["m"][m] = x
            env["s"].add(x >= 0, x < PR)
        return env["m"][m]

    def zmod(self, p, env):
        """integer term congruent to p with its value bounds"""
        lo = hi = 0
        for m, c in p.items():
            c = cen(c)
            if not m:
                a, b = 1, 1
            elif len(m) == 1:
                a, b = env["rng"].get(m[0], (0, PR - 1))
            else:
                a, b = 0, PR - 1
            if c >= 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        return self.zterm(p, env), lo, hi

    def zzero(self, p, env):
        if isconst(p):
            return z3.BoolVal(cval(p) == 0)
        t, lo, hi = self.zmod(p, env)
        if lo > -PR and hi < PR:
            return t == 0
        k = z3.FreshInt("k")
        env["s"].add(k >= lo // PR - 1, k <= hi // PR + 1)
        # exact remainder so that the negation is meaningful too
        r = z3.FreshInt("r")
        env["s"].add(t == r + k * PR, r >= 0, r < PR)
        return r == 0

    def zrange(self, p, hi_, env):
        if isconst(p):
            return z3.BoolVal(cval(p) <= hi_)
        t, lo, hi = self.zmod(p, env)
        if lo >= 0 and hi < PR:
            return t <= hi_
        if lo > -PR + hi_ and hi < PR:
            return z3.And(t >= 0, t <= hi_)
        k = z3.FreshInt("k")
        r = z3.FreshInt("r")
        env["s"].add(t == r + k * PR, r >= 0, r < PR, k >= lo // PR - 1, k <= hi // PR + 1)
        return r <= hi_

    def env(self, s):
        sol = z3.SolverFor("QF_LIA")
        sol.set("timeout", 20000)
        env = {"v": {}, "m": {}, "s": sol, "rng": {}, "pend": []}
        rest = []
        for t, hi in self.c.ranges:
            try:
                cf, fs = self.ev(s, t)
                p = self.expand(cf, fs)
            except TooBig:
                continue
            if len(p) == 1 and list(p.values()) == [1] and len(list(p)[0]) == 1:
                v = list(p)[0][0]
                env["rng"][v] = (0, min(hi, env["rng"].get(v, (0, hi))[1]))
            else:
                rest.append((p, hi))
        for cell in self.c.sym_instance:
            if cell in getattr(self, "pub_range", {}):
                v = self.c.var(("i",) + cell)
                q = s.sub.get(v)
                h = self.pub_range[cell]
                if q is None:
                    env["rng"][v] = (0, min(h, env["rng"].get(v, (0, h))[1]))
                else:
                    rest.append((q, h))
        for p, hi in rest:
            sol.add(self.zrange(p, hi, env))
        for n in s.nonzero:
            sol.add(z3.Not(self.zzero(dict(n), env)))
        for n in s.zero:
            sol.add(self.zzero(dict(n), env))
        return env

    def zcheck(self, env, *extra):
        t = time.time()
        self.queries += 1
        r = env["s"].check(*extra)
        self.solver_s += time.time() - t
        return r

    # -- main loop ---------------------------------------------------------------------
    def run(self):
        st = [self.init_safe()]
        while st:
            s = st.pop()
            if s is None:
                continue
            if time.time() > self.deadline or self.branches > self.limit:
                self.inconclusive.append("budget exhausted")
                return False
            try:
                cands = self.propagate(s)
                nxt = self.split(s, cands)
            except Dead:
                continue
            if nxt is None:
                self.leaf(s)
                if len(self.found) >= 3:
                    return True
                continue
            self.branches += 1
            st.extend(reversed(nxt))
        return not self.inconclusive

    def init_safe(self):
        try:
            return self.init()
        except Dead:
            return None

    def split(self, s, cands):
        """None at a leaf, else successor states"""
        best = None
        for u in cands:
            vs = set()
            for f in u:
                vs |= pvars(f)
            k = (len(vs), sum(deg(f) for f in u), min(vs))
            if best is None or k < best[0]:
                best = (k, u)
        mb = None
        for j, (a, b) in enumerate(s.match):
            for side, other, flip in ((a, b, False), (b, a, True)):
                for f in side:
                    cand = {}
                    for g in other:
                        e = self.differs(f, g)
                        if e is not None:
                            cand[tuple(sorted(g.items()))] = (g, e)
                    free = len([v for v in pvars(f) if v >= self.c.nch])
                    k = (free, len(cand))
                    if mb is None or k < mb[0]:
                        mb = (k, j, f, list(cand.values()), flip)
        use_match = mb is not None and (best is None or len(mb[3]) == 1 or best[0][0] > 1 and mb[0][0] <= best[0][0])
        if use_match:
            k, j, f, cand, flip = mb
            out = []
            for g, e in cand:
                n = s.copy()
                a, b = n.match[j]
                n.match[j] = (minus(a, [g] if flip else [f]), minus(b, [f] if flip else [g]))
                n.eqs.extend(e)
                out.append(n)
            return self.prune(s, out)
        if best is not None:
            out = []
            us = best[1]
            for i, f in enumerate(us):
                n = s.copy()
                try:
                    for g in us[:i]:
                        self.learn_nonzero(n, g)
                    self.learn_zero(n, f)
                except Dead:
                    continue
                out.append(n)
            return self.prune(s, out)
        base = len(self.c.cons)
        for i in s.pend + [base + k for k in range(len(self.c.cons2)) if k not in s.done2]:
            hd = [x for x in self.highdeg[i] if not isconst(self.cellpoly(s, x))]
            if hd:
                # an instruction cell nothing determines: try every instruction (and zero)
                out = []
                p = self.cellpoly(s, hd[0])
                for k in self.enum_values:
                    n = s.copy()
                    n.eqs.append(padd(p, pconst(k), -1))
                    out.append(n)
                self.inconclusive.append("instruction cell not determined by the constraints")
                return self.prune(s, out)
        return None

    enum_values = [0] + list(b"+-<>.,[]")

    def prune(self, s, out):
        if len(out) < 2:
            return out
        r = []
        for n in out:
            m = n.copy()
            try:
                self.propagate_light(m)
            except Dead:
                continue
            r.append(n)
        return r

    def propagate_light(self, s):
        eqs, s.eqs = s.eqs, []
        for q in eqs:
            self.learn_zero(s, q)
        env = self.env(s)
        if self.zcheck(env) == z3.unsat:
            raise Dead()

    def leaf(self, s):
        self.leaves += 1
        env = self.env(s)
        if self.zcheck(env) == z3.unsat:
            return
        for g in self.goals:
            # goal(search, state, env) -> list of (name, z3 Bool that must hold)
            for name, f in g(self, s, env):
                if f is True:
                    continue
                neg = z3.BoolVal(True) if f is False else z3.Not(f)
                env["s"].push()
                env["s"].add(neg)
                r = self.zcheck(env)
                if r == z3.unsat:
                    env["s"].pop()
                    continue
                if r == z3.unknown:
                    self.inconclusive.append("solver unknown on %s" % name)
                    env["s"].pop()
                    continue
                m = env["s"].model()
                env["s"].pop()
                num = self.numbers(s, env, m)
                if num is None:
                    self.inconclusive.append("candidate for %s not an exact solution" % name)
                    continue
                self.found.append((name, num, s))
                if len(self.found) >= 3:
                    return

    # -- numeric completion --------------------------------------------------------------
    def numbers(self, s, env, model):
        c = self.c
        asg = {}
        for v, x in env["v"].items():
            y = model.eval(x, model_completion=True)
            asg[v] = y.as_long() % PR

        def val(v):
            if v in s.sub:
                return evalp(s.sub[v], val)
            if v not in asg:
                # leftover nonlinear relations fix it, else zero
                asg[v] = 0
            return asg[v]
        # nonlinear relations: solve for a variable linear in them once the others are known
        for n in list(s.zero):
            p = dict(n)
            vs = [v for v in sorted(pvars(p), reverse=True)]
            done = False
            for v in vs:
                if v in env["v"]:
                    continue
                A, B = {}, {}
                bad = False
                for m, k in p.items():
                    if m.count(v) > 1:
                        bad = True
                    elif v in m:
                        l = list(m)
                        l.remove(v)
                        A[tuple(l)] = k
                    else:
                        B[m] = k
                if bad or not A:
                    continue
                a = evalp(A, val)
                if a:
                    asg[v] = -evalp(B, val) * pow(a, -1, PR) % PR
                    done = True
                    break
            if not done:
                return None
        self.val = val
        return val

    def complete(self, val, challenges):
        """full numeric assignment for given challenge values, or (None, reason)"""
        c = self.c
        A = {}

        def get0(cell):
            if cell[0] == "h":
                return challenges[cell[1]]
            if cell[0] == "f":
                return c.fix(cell[1], cell[2])
            if cell[0] == "i":
                if (cell[1], cell[2]) in c.sym_instance:
                    return val(c.var(cell))
                col = c.inst[cell[1]]
                return col[cell[2]] if 0 <= cell[2] < len(col) else 0
            if cell in A:
                return A[cell]
            return val(c.var(cell))
        # linear system over phase-2 cells
        eqs = []

        def lin(t):
            if t[0] == "c":
                return {None: t[1]}
            if t[0] == "h":
                return {None: challenges[t[1]]}
            if t[0] == "v":
                if c.is2(t[1]):
                    return {t[1]: 1}
                return {None: get0(t[1])}
            a, b = lin(t[1]), lin(t[2])
            if t[0] == "+":
                r = dict(a)
                for k, v in b.items():
                    r[k] = (r.get(k, 0) + v) % PR
                return r
            if set(a) - {None}:
                a, b = b, a
            if set(a) - {None}:
                raise TooBig()
            k0 = a.get(None, 0)
            return {k: v * k0 % PR for k, v in b.items()}
        try:
            for n, r, t in c.cons2:
                eqs.append(lin(t))
        except TooBig:
            return None, "not linear in second-phase cells"
        for a, b in c.eq2:
            l = {}
            for x, sg in ((a, 1), (b, -1)):
                if c.is2(x):
                    l[x] = (l.get(x, 0) + sg) % PR
                else:
                    l[None] = (l.get(None, 0) + sg * get0(x)) % PR
            eqs.append(l)
        sol = gauss(eqs)
        if sol is None:
            return None, "second-phase cells have no solution"

        def get(cell):
            if c.is2(cell):
                return sol.get(cell, 0)
            return get0(cell)
        bad = c.violated(get)
        if bad:
            return None, bad
        return get, None


def minus(l, rem):
    l = list(l)
    for f in rem:
        k = tuple(sorted(f.items()))
        for i, g in enumerate(l):
            if tuple(sorted(g.items())) == k:
                del l[i]
                break
    return l


def evalp(p, val):
    r = 0
    for m, c in p.items():
        t = c
        for v in m:
            t = t * val(v) % PR
        r += t
    return r % PR


def gauss(eqs):
    rows = []
    for e in eqs:
        e = {k: v for k, v in e.items() if v}
        rows.append(e)
    piv = {}
    order = []
    for e in rows:
        changed = True
        while changed:
            changed = False
            for k in list(e):
                if k is not None and k in piv:
                    f = e[k]
                    for kk, vv in piv[k].items():
                        x = (e.get(kk, 0) - f * vv) % PR
                        if x:
                            e[kk] = x
                        else:
                            e.pop(kk, None)
                    changed = True
                    break
        ks = [k for k in e if k is not None]
        if not ks:
            if e.get(None, 0):
                return None
            continue
        k = ks[0]
        i = pow(e[k], -1, PR)
        piv[k] = {kk: vv * i % PR for kk, vv in e.items()}
        order.append(k)
    sol = {}

    def get(k):
        if k in sol:
            return sol[k]
        if k not in piv:
            sol[k] = 0
            return 0
        r = 0
        for kk, vv in piv[k].items():
            if kk == k:
                continue
            r -= vv * (1 if kk is None else get(kk))
        sol[k] = r % PR
        return sol[k]
    for k in order:
        get(k)
    return sol


_fac_cache = {}


def split_poly(p):
    """factor a small polynomial over the integers (after centring), or [p]"""
    key = norm(p)
    if key in _fac_cache:
        return _fac_cache[key]
    res = [p]
    vs = sorted(pvars(p))
    # common variable
    common = None
    for m in p:
        common = set(m) if common is None else common & set(m)
    if common:
        v = min(common)
        q = {}
        for m, c in p.items():
            l = list(m)
            l.remove(v)
            q[tuple(l)] = c
        res = [pvar(v)] + ([] if isconst(q) else split_poly(q))
    elif len(p) <= 60 and deg(p) <= 6 and len(vs) <= 6:
        # try every coefficient as the unit that makes all coefficients small integers
        for c0 in set(p.values()):
            i = pow(c0, -1, PR)
            cs = {m: cen(c * i % PR) for m, c in p.items()}
            if max(abs(x) for x in cs.values()) < 1 << 40:
                import sympy
                sy = {v: sympy.Symbol("v%d" % v) for v in vs}
                e = sympy.Integer(0)
                for m, c in cs.items():
                    t = sympy.Integer(c)
                    for v in m:
                        t *= sy[v]
                    e += t
                _, fl = sympy.factor_list(e)
                inv = {y: k for k, y in sy.items()}
                if len(fl) > 1 or (fl and fl[0][1] > 1):
                    res = []
                    for f, _k in fl:
                        P = sympy.Poly(f, *[sy[v] for v in vs])
                        q = {}
                        for ex, c in P.terms():
                            m = tuple(sorted(sum(([v] * n for v, n in zip(vs, ex)), [])))
                            q[m] = int(c) % PR
                        res.append(q)
                break
    _fac_cache[key] = res
    return res
