"""Symbolic execution of LLVM IR (text, as emitted by the pinned rustc at opt-level 0).

Integer values are exact integer polynomials over atoms (input limbs, carries, quotients)
with an interval each; wrap-around, truncation and shifts introduce a quotient atom with its
defining inequalities.  Branches on symbolic conditions are decided by z3 (linear integer
arithmetic over atoms and product monomials); infeasible sides are dropped, feasible ones are
explored by re-execution."""
import re, time, sys
import z3
from math import gcd
sys.setrecursionlimit(100000)


class IRError(Exception):
    """something the executor does not model"""


class Panic(Exception):
    def __init__(self, what):
        self.what = what


class Infeasible(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "size", "align", "offs")

    def __init__(self, k, n=0, el=None):
        self.k, self.n, self.el = k, n, el
        self.offs = None
        if k == "int":
            self.size = max(1, (n + 7) // 8)
            b = 1
            while b < self.size:
                b *= 2
            self.size = b
            self.align = min(b, 8)
        elif k == "ptr":
            self.size = self.align = 8
        elif k == "arr":
            self.size = n * el.size
            self.align = el.align
        elif k in ("struct", "packed"):
            off, al, self.offs = 0, 1, []
            for e in el:
                a = 1 if k == "packed" else e.align
                off = (off + a - 1) // a * a
                self.offs.append(off)
                off += e.size
                al = max(al, a)
            self.size = (off + al - 1) // al * al
            self.align = al
        else:
            self.size, self.align = 0, 1


VOID = Ty("void")
PTR = Ty("ptr")
_ints = {}


def INT(n):
    if n not in _ints:
        _ints[n] = Ty("int", n)
    return _ints[n]


TOK = re.compile(r'\s*(%"[^"]*"|@"[^"]*"|%[\w.$-]+|@[\w.$-]+|c"(?:[^"\\]|\\\\|\\[0-9A-Fa-f]{2})*"|"[^"]*"|-?\d+|[A-Za-z_][\w.]*|\.\.\.|<\{|\}>|[\[\](){}<>,=*!#])')


def tokenize(s):
    r, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise IRError("token: " + s[i:i + 60])
        r.append(m.group(1))
        i = m.end()
    return r


ATTRS = {"noundef", "zeroext", "signext", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "inreg", "returned", "immarg", "readnone", "allocptr", "allocalign", "captures", "noinline", "unnamed_addr", "local_unnamed_addr", "fastcc", "cold", "volatile", "tail", "notail", "musttail", "internal", "private", "hidden", "nsw", "nuw", "exact", "inbounds", "dso_local", "swiftself", "nofree", "mustprogress"}


class Module:
    def __init__(self, text):
        self.types = {}
        self.raw_types = {}
        self.globals = {}
        self.funcs = {}
        self.declared = set()
        self.cache = {}
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("%"):
                m = re.match(r'(%"[^"]*"|%[\w.$-]+) = type (.*)', l)
                if m:
                    self.raw_types[m.group(1)] = m.group(2)
            elif l.startswith("@"):
                m = re.match(r'(@"[^"]*"|@[\w.$-]+) = (.*)', l)
                self.globals[m.group(1)] = m.group(2)
            elif l.startswith("declare"):
                m = re.search(r'(@"[^"]*"|@[\w.$-]+)\(', l)
                self.declared.add(m.group(1))
            elif l.startswith("define"):
                m = re.search(r'(@"[^"]*"|@[\w.$-]+)\(', l)
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.funcs[m.group(1)] = (l, lines[i + 1:j])
                i = j
            i += 1

    def ty(self, toks, i):
        t = toks[i]
        if t[0] == "i" and t[1:].isdigit():
            return INT(int(t[1:])), i + 1
        if t == "ptr":
            return PTR, i + 1
        if t == "void":
            return VOID, i + 1
        if t == "[":
            n = int(toks[i + 1])
            e, j = self.ty(toks, i + 3)
            return Ty("arr", n, e), j + 1
        if t in ("{", "<{"):
            el, j = [], i + 1
            while toks[j] not in ("}", "}>"):
                e, j = self.ty(toks, j)
                el.append(e)
                if toks[j] == ",":
                    j += 1
            return Ty("struct" if t == "{" else "packed", 0, el), j + 1
        if t[0] == "%":
            if t not in self.types:
                raw = self.raw_types[t]
                self.types[t] = self.ty(tokenize(raw), 0)[0] if raw != "opaque" else Ty("struct", 0, [])
            return self.types[t], i + 1
        if t in ("float", "double", "half", "metadata", "label", "x86_fp80"):
            return Ty("void"), i + 1
        raise IRError("type " + t)

    def skip_attrs(self, toks, i):
        while i < len(toks):
            t = toks[i]
            if t in ATTRS:
                i += 1
            elif t == "align":
                i += 2
            elif t in ("sret", "byval", "elementtype", "dereferenceable", "dereferenceable_or_null", "memory", "range", "initializes") and toks[i + 1:i + 2] == ["("]:
                d, i = 1, i + 2
                while d:
                    d += {"(": 1, ")": -1}.get(toks[i], 0)
                    i += 1
            elif t == "align" or t == "#":
                i += 2
            else:
                break
        return i

    def operand(self, toks, i, ty):
        """parse an operand of known type -> (kind, payload), next"""
        t = toks[i]
        if t[0] == "%":
            return ("l", t), i + 1
        if t[0] == "@":
            return ("g", t), i + 1
        if t in ("true", "false"):
            return ("c", int(t == "true")), i + 1
        if t in ("null",):
            return ("c", None), i + 1
        if t in ("undef", "poison"):
            return ("u", ty), i + 1
        if t == "zeroinitializer":
            return ("z", ty), i + 1
        if t[0] == "c" and t[1:2] == '"':
            return ("s", t), i + 1
        if re.fullmatch(r"-?\d+", t):
            return ("c", int(t) & ((1 << ty.n) - 1)), i + 1
        if t in ("{", "<{", "["):
            el, j = [], i + 1
            while toks[j] not in ("}", "}>", "]"):
                et, j = self.ty(toks, j)
                e, j = self.operand(toks, j, et)
                el.append((et, e))
                if toks[j] == ",":
                    j += 1
            return ("a", el), j + 1
        if t == "getelementptr":
            j = i + 1
            if toks[j] == "inbounds":
                j += 1
            j += 1
            bt, j = self.ty(toks, j)
            j += 1
            pt, j = self.ty(toks, j)
            base, j = self.operand(toks, j, pt)
            idx = []
            while toks[j] == ",":
                it, j = self.ty(toks, j + 1)
                x, j = self.operand(toks, j, it)
                idx.append(x)
            return ("gep", (bt, base, idx)), j + 1
        if t in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext"):
            st, j = self.ty(toks, i + 2)
            x, j = self.operand(toks, j, st)
            j += 1  # to
            dt, j = self.ty(toks, j)
            return ("cast", (t, st, x, dt)), j + 1
        raise IRError("operand " + " ".join(toks[i:i + 6]))

    # -- functions -----------------------------------------------------------------
    def func(self, name):
        if name in self.cache:
            return self.cache[name]
        head, body = self.funcs[name]
        head = head.rstrip()
        head = re.sub(r"( personality .*)?\s*\{$", "", head)
        head = re.sub(r"( #\d+)$", "", head)
        toks = tokenize(head)
        k = toks.index(name)
        i = k + 2
        params = []
        while toks[i] != ")":
            if toks[i] == "...":
                i += 1
                continue
            t, i = self.ty(toks, i)
            i = self.skip_attrs(toks, i)
            if toks[i][0] == "%":
                params.append((toks[i], t))
                i += 1
            if toks[i] == ",":
                i += 1
        # unnamed parameters are %0, %1...
        blocks, cur, first = {}, None, None
        buf = []
        for l in body:
            if not l.strip() or l.lstrip().startswith(";"):
                continue
            if not l.startswith(" "):
                m = re.match(r'("[^"]*"|[\w.$-]+):', l)
                cur = "%" + m.group(1)
                first = first or cur
                blocks[cur] = []
                continue
            if cur is None:
                cur = first = "%0"
                blocks[cur] = []
            blocks[cur].append(l)
        # join multi-line (switch, invoke, landingpad)
        out = {}
        for b, ls in blocks.items():
            r, acc = [], ""
            for l in ls:
                s = l.strip()
                if acc:
                    acc += " " + s
                else:
                    acc = s
                if acc.startswith("switch") or " switch " in acc:
                    if "]" not in acc:
                        continue
                if re.match(r"(%\S+ = )?invoke ", acc) and " unwind label" not in acc:
                    continue
                if acc.endswith("landingpad { ptr, i32 }") or re.match(r"%\S+ = landingpad", acc) and not re.search(r"(cleanup|catch|filter)", acc):
                    continue
                r.append(acc)
                acc = ""
            out[b] = [None if False else x for x in r]
        f = {"params": params, "blocks": {b: [None] * len(ls) for b, ls in out.items()}, "src": out, "first": first, "name": name}
        self.cache[name] = f
        return f

    def inst(self, f, b, i):
        x = f["blocks"][b][i]
        if x is None:
            x = self.parse_inst(f["src"][b][i])
            f["blocks"][b][i] = x
        return x

    def parse_inst(self, s):
        s = re.sub(r", ![\w.]+ !\d+", "", s)
        s = re.sub(r",? ?#\d+$", "", s)
        toks = tokenize(s)
        dst = None
        if len(toks) > 1 and toks[1] == "=":
            dst = toks[0]
            toks = toks[2:]
        op = toks[0]
        i = 1
        if op in ("tail", "musttail", "notail"):
            op = toks[1]
            i = 2
        T, O = self.ty, self.operand
        if op in ("add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            while toks[i] in ("nsw", "nuw", "exact"):
                i += 1
            t, i = T(toks, i)
            a, i = O(toks, i, t)
            b, i = O(toks, i + 1, t)
            return ("bin", dst, op, t, a, b)
        if op == "icmp":
            pred = toks[i]
            t, i = T(toks, i + 1)
            a, i = O(toks, i, t)
            b, i = O(toks, i + 1, t)
            return ("icmp", dst, pred, t, a, b)
        if op == "alloca":
            t, i = T(toks, i)
            return ("alloca", dst, t)
        if op == "load":
            i = self.skip_attrs(toks, i)
            t, i = T(toks, i)
            pt, i = T(toks, i + 1)
            p, i = O(toks, i, pt)
            return ("load", dst, t, p)
        if op == "store":
            i = self.skip_attrs(toks, i)
            t, i = T(toks, i)
            v, i = O(toks, i, t)
            pt, i = T(toks, i + 1)
            p, i = O(toks, i, pt)
            return ("store", t, v, p)
        if op == "getelementptr":
            while toks[i] in ("inbounds", "nuw"):
                i += 1
            bt, i = T(toks, i)
            pt, i = T(toks, i + 1)
            p, i = O(toks, i, pt)
            idx = []
            while i < len(toks) and toks[i] == ",":
                t, i = T(toks, i + 1)
                x, i = O(toks, i, t)
                idx.append((t, x))
            return ("gep", dst, bt, p, idx)
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"):
            st, i = T(toks, i)
            v, i = O(toks, i, st)
            dt, i = T(toks, i + 1)
            return ("cast", dst, op, st, v, dt)
        if op == "extractvalue":
            t, i = T(toks, i)
            v, i = O(toks, i, t)
            return ("extract", dst, v, [int(x) for x in toks[i + 1:] if x != ","])
        if op == "insertvalue":
            t, i = T(toks, i)
            v, i = O(toks, i, t)
            t2, i = T(toks, i + 1)
            w, i = O(toks, i, t2)
            return ("insert", dst, t, v, w, [int(x) for x in toks[i + 1:] if x != ","])
        if op == "select":
            t, i = T(toks, i)
            c, i = O(toks, i, t)
            t1, i = T(toks, i + 1)
            a, i = O(toks, i, t1)
            t2, i = T(toks, i + 1)
            b, i = O(toks, i, t2)
            return ("select", dst, t1, c, a, b)
        if op == "br":
            if toks[i] == "label":
                return ("br", toks[i + 1])
            c, i = O(toks, i + 1, INT(1))
            return ("cbr", c, toks[i + 2], toks[i + 5])
        if op == "switch":
            t, i = T(toks, i)
            v, i = O(toks, i, t)
            d = toks[i + 2]
            i += 4
            cases = []
            while toks[i] != "]":
                ct, i = T(toks, i)
                cv, i = O(toks, i, ct)
                cases.append((cv[1], toks[i + 2]))
                i += 3
            return ("switch", t, v, d, cases)
        if op == "ret":
            if toks[i] == "void":
                return ("ret", None, None)
            t, i = T(toks, i)
            v, i = O(toks, i, t)
            return ("ret", t, v)
        if op == "unreachable":
            return ("unreachable",)
        if op in ("call", "invoke"):
            i = self.skip_attrs(toks, i)
            t, i = T(toks, i)
            if toks[i] == "(":  # function type given
                d = 1
                i += 1
                while d:
                    d += {"(": 1, ")": -1}.get(toks[i], 0)
                    i += 1
            callee = toks[i]
            if callee == "asm":
                return ("asm", dst, s)
            i += 2
            args = []
            while toks[i] != ")":
                at, i = T(toks, i)
                i = self.skip_attrs(toks, i)
                if at.k == "void":
                    while toks[i] not in (",", ")"):
                        i += 1
                    args.append((at, ("c", 0)))
                else:
                    a, i = O(toks, i, at)
                    args.append((at, a))
                if toks[i] == ",":
                    i += 1
            nxt = None
            if op == "invoke":
                j = toks.index("to", i)
                nxt = toks[j + 2]
            return ("call", dst, t, callee, args, nxt)
        if op == "phi":
            t, i = T(toks, i)
            inc = []
            while True:
                v, i = O(toks, i + 1, t)
                inc.append((v, toks[i + 1]))
                i += 3
                if i >= len(toks) or toks[i] != ",":
                    break
                i += 1
            return ("phi", dst, t, inc)
        if op in ("landingpad", "resume", "fence"):
            return (op, dst)
        if op == "freeze":
            t, i = T(toks, i)
            v, i = O(toks, i, t)
            return ("cast", dst, "bitcast", t, v, t)
        if op == "atomicrmw" or op == "cmpxchg":
            return ("unsupported", op)
        raise IRError("instruction " + s)


# ---------------------------------------------------------------- symbolic values
class S:
    """symbolic integer: exact polynomial over atoms, with an interval"""
    __slots__ = ("p", "lo", "hi")

    def __init__(self, p, lo, hi):
        self.p, self.lo, self.hi = p, lo, hi

    def __repr__(self):
        return "S(%d terms,[%d,%d])" % (len(self.p), self.lo, self.hi)


class P:
    """pointer"""
    __slots__ = ("o", "off")

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __repr__(self):
        return "P(%s+%s)" % (self.o if isinstance(self.o, str) else id(self.o), self.off)


UNDEF = ("undef",)


class Obj:
    __slots__ = ("b", "name")

    def __init__(self, n, name=""):
        self.b = [UNDEF] * n
        self.name = name


def poly(v):
    return v.p if isinstance(v, S) else ({(): v} if v else {})


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + s * c
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)) if m and n else (m or n)
            x = r.get(k, 0) + c * d
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def key(p):
    return tuple(sorted(p.items()))


def rng(v):
    return (v.lo, v.hi) if isinstance(v, S) else (v, v)


class Ctx:
    """one path"""

    def __init__(self, mod, prefix=(), timeout=20000):
        self.module = mod
        self.alo, self.ahi, self.aname = [], [], []
        self.memo = {}
        self.iv = {}
        self.names = {}
        self.defs = {}
        self.wrapped = {}
        self.floors = {}
        self.xordef = {}
        self.sub = {}
        self.solver = z3.SolverFor("QF_LIA")
        self.solver.set("timeout", timeout)
        self.timeout, self.branch_timeout = timeout, 120
        self.zv = {}
        self.zb = {}
        self.free = []
        self.about = {}
        self.shallow_q = 0
        self.facts = []
        self.prefix = list(prefix)
        self.decisions = []
        self.pending = []
        self.queries = 0
        self.solver_s = 0.0
        self.steps = 0
        self.globals = {}
        self.hooks = {}
        self.funcs_seen = set()
        self.unknown = []
        self.max_steps = 4000000

    # atoms ---------------------------------------------------------------------------
    def atom(self, lo, hi, name="t"):
        i = len(self.alo)
        self.alo.append(lo)
        self.ahi.append(hi)
        self.aname.append(name)
        return i

    def var(self, bits, name, lo=0, hi=None):
        hi = (1 << bits) - 1 if hi is None else hi
        return S({(self.atom(lo, hi, name),): 1}, lo, hi)

    def bounds(self, m):
        lo, hi = 1, 1
        for a in m:
            c = [lo * self.alo[a], lo * self.ahi[a], hi * self.alo[a], hi * self.ahi[a]]
            lo, hi = min(c), max(c)
        return lo, hi

    def pbounds(self, p):
        lo = hi = 0
        for m, c in p.items():
            a, b = self.bounds(m)
            lo += c * (a if c > 0 else b)
            hi += c * (b if c > 0 else a)
        return lo, hi

    def mk(self, p, lo=None, hi=None):
        if not p:
            return 0
        if len(p) == 1 and () in p:
            return p[()]
        a, b = self.pbounds(p)
        lo = a if lo is None else max(lo, a)
        hi = b if hi is None else min(hi, b)
        if lo == hi:
            return lo
        if lo > a or hi < b:
            k = frozenset(p.items())
            w = self.iv.get(k)
            if w:
                lo, hi = max(lo, w[0]), min(hi, w[1])
            self.iv[k] = (lo, hi)
        return S(p, lo, hi)

    def known(self, p):
        """interval of a polynomial: the monomials' bounds, sharpened by what is known of it"""
        lo, hi = self.pbounds(p)
        w = self.iv.get(frozenset(p.items()))
        return (max(lo, w[0]), min(hi, w[1])) if w else (lo, hi)

    def r(self, v):
        """apply decided atoms"""
        if isinstance(v, S) and self.sub:
            if any(a in self.sub for m in v.p for a in m):
                return self.mk(self.psub(v.p), v.lo, v.hi)
        return v

    def psub(self, p):
        q = {}
        for m, c in p.items():
            k = []
            for a in m:
                if a in self.sub:
                    c *= self.sub[a]
                else:
                    k.append(a)
            if c:
                k = tuple(k)
                x = q.get(k, 0) + c
                if x:
                    q[k] = x
                else:
                    q.pop(k, None)
        return q

    # z3 -------------------------------------------------------------------------------
    def zm(self, m):
        if m not in self.zv:
            x = z3.Int("a" + "_".join(map(str, m)))
            self.zv[m] = x
            lo, hi = self.bounds(m)
            self.solver.add(x >= lo, x <= hi)
            self.zb[m] = z3.And(x >= lo, x <= hi)
        return self.zv[m]

    def z(self, p):
        if isinstance(p, S):
            p = p.p
        if isinstance(p, int):
            return z3.IntVal(p)
        r = []
        for m, c in p.items():
            r.append(z3.IntVal(c) if not m else (self.zm(m) if c == 1 else self.zm(m) * c))
        return z3.Sum(r) if len(r) != 1 else r[0] if r else z3.IntVal(0)

    def assume(self, f, mons=None, about=None):
        """mons: the monomials in f; about: the atom that f defines (None: a condition on the path)"""
        self.facts.append((f, frozenset(mons or ()), about))
        self.solver.add(f)
        if about is None:
            self.free.append(len(self.facts) - 1)
        else:
            self.about.setdefault(about, []).append(len(self.facts) - 1)

    def check(self, *extra):
        t = time.time()
        self.queries += 1
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t
        return r

    def one_bit(self, p, f):
        """f(p) when p depends on a single 0/1 atom"""
        ms = [m for m in p if m]
        if len(ms) == 1 and len(ms[0]) == 1 and self.alo[ms[0][0]] == 0 and self.ahi[ms[0][0]] == 1:
            c0 = p.get((), 0)
            f0, f1 = f(c0), f(c0 + p[ms[0]])
            return self.mk({m: c for m, c in (((), f0), (ms[0], f1 - f0)) if c})

    # arithmetic -----------------------------------------------------------------------
    def divfloor(self, v, D):
        """floor(v / D) for a constant D > 0"""
        if isinstance(v, int):
            return v // D
        if v.lo // D == v.hi // D:
            return v.lo // D
        w = self.one_bit(v.p, lambda x: x // D)
        if w is not None:
            return w
        if len(v.p) == 1:
            (m, c), = v.p.items()
            if c == 1 and len(m) == 1 and m[0] in self.floors:
                w, D0 = self.floors[m[0]]
                return self.divfloor(self.r(w), D0 * D)
        w = self.unwrap(v, D)
        if w:
            v0, q, D0 = w
            w = self.add(self.divfloor(v0, D), self.mul(q, D0 // D), -1)
            return self.mk(w.p, v.lo // D, v.hi // D) if isinstance(w, S) else w
        if any(a in self.defs for m in v.p for a in m):
            E = self.expand(v.p)
            if all(c % D == 0 for c in E.values()):
                return self.mk({m: c // D for m, c in E.items()}, v.lo // D, v.hi // D)
        q0, rest = {}, {}
        for m, c in v.p.items():
            if c % D == 0:
                q0[m] = c // D
            else:
                rest[m] = c
        if not rest:
            return self.mk(q0, v.lo // D, v.hi // D)
        g = D
        for c in rest.values():
            g = gcd(g, c)
        P_ = {m: c // g for m, c in rest.items()}
        D_ = D // g
        k = ("div", key(P_), D_)
        a = self.memo.get(k)
        if a is None:
            lo, hi = self.known(rest)
            if not q0:
                lo, hi = max(lo, v.lo), min(hi, v.hi)
            # constants of q0 shift the quotient: use v's own interval as well
            if len(q0) == 1 and () in q0:
                c = q0[()] * D
                lo, hi = max(lo, v.lo - c), min(hi, v.hi - c)
            lo, hi = lo // g, hi // g
            if lo // D_ == hi // D_:
                a = lo // D_
            elif lo // D_ == -1 and hi // D_ == 0:
                a = self.mk(pscale(poly(self.boolean("n", S(P_, lo, hi))), -1))
            else:
                a = self.atom(lo // D_, hi // D_, "q")
                pp = padd(P_, {(a,): D_}, -1)
                d = self.z(pp)
                self.assume(z3.And(d >= 0, d <= D_ - 1), pp, a)
                self.floors[a] = (S(P_, lo, hi), D_)
                a = S({(a,): 1}, lo // D_, hi // D_)
            self.memo[k] = a
        a = self.r(a)
        return self.mk(padd(q0, poly(a)), v.lo // D, v.hi // D)

    def unwrap(self, v, D):
        """v named as v0 mod D0 with D | D0"""
        if len(v.p) == 1:
            (m, c), = v.p.items()
            if c == 1 and len(m) == 1:
                w = self.wrapped.get(m[0])
                if w and w[2] > 1 << 64 and w[2] % D == 0:
                    return self.r(w[0]), self.r(w[1]), w[2]

    def mod(self, v, D):
        if isinstance(v, int):
            return v % D
        if v.lo >= 0 and v.hi < D:
            return v
        w = self.unwrap(v, D)
        if w:
            return self.mod(w[0], D)
        g = D
        for c in v.p.values():
            g = gcd(g, c)
            if g == 1:
                break
        if g > 1:
            w = self.mk({m: c // g for m, c in v.p.items()}, v.lo // g, v.hi // g)
            return self.mul(self.mod(w, D // g), g) if g < D else 0
        q = self.divfloor(v, D)
        p = padd(v.p, pscale(poly(q), D), -1)
        if len(v.p) == 1 or all(len(m) <= 1 and self.ahi[m[0]] - self.alo[m[0]] <= 1 for m in p if m):
            return self.mk(p, 0, D - 1)
        # a name of its own, so that its tight bounds survive in later sums
        k = frozenset(p.items())
        i = self.names.get(k)
        if i is None:
            w = self.mk(p, 0, D - 1)
            if isinstance(w, int):
                return w
            i = self.atom(w.lo, w.hi, "r")
            self.names[k] = i
            self.defs[i] = p
            self.wrapped[i] = (v, q, D)
            self.assume(self.zm((i,)) == self.z(p), list(p) + [(i,)], i)
        return S({(i,): 1}, self.alo[i], self.ahi[i])

    def expand(self, p):
        """replace named sums by their definitions"""
        p = self.psub(p)
        while True:
            for m in p:
                d = [a for a in m if a in self.defs]
                if d:
                    break
            else:
                return p
            a = max(a for m in p for a in m if a in self.defs)
            e = self.psub(self.defs[a])
            q = {}
            for m, c in p.items():
                n = m.count(a)
                t = {tuple(x for x in m if x != a): c}
                for _ in range(n):
                    t = pmul(t, e)
                for k, x in t.items():
                    x += q.get(k, 0)
                    if x:
                        q[k] = x
                    else:
                        q.pop(k, None)
            p = q

    def add(self, a, b, s=1):
        if isinstance(a, int) and isinstance(b, int):
            return a + s * b
        al, ah = rng(a)
        bl, bh = rng(b)
        lo, hi = (al + bl, ah + bh) if s == 1 else (al - bh, ah - bl)
        return self.mk(padd(poly(a), poly(b), s), lo, hi)

    def mul(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a * b
        al, ah = rng(a)
        bl, bh = rng(b)
        c = [al * bl, al * bh, ah * bl, ah * bh]
        return self.mk(pmul(poly(a), poly(b)), min(c), max(c))

    def boolean(self, kind, d):
        """atom for d == 0 ('z') or d < 0 ('n'); d: S or int"""
        if isinstance(d, int):
            return int(d == 0 if kind == "z" else d < 0)
        if kind == "z" and (d.lo > 0 or d.hi < 0):
            return 0
        if kind == "n":
            if d.hi < 0:
                return 1
            if d.lo >= 0:
                return 0
        p = d.p
        w = self.one_bit(p, lambda x: int(x == 0 if kind == "z" else x < 0))
        if w is not None:
            return w
        if kind == "z":
            k0 = key(p)
            k1 = key(pscale(p, -1))
            k = ("z", min(k0, k1))
        else:
            q = padd(pscale(p, -1), {(): 1}, -1)
            k0, k1 = key(p), key(q)
            if k1 < k0:
                return self.add(1, self.boolean("n", S(q, -d.hi - 1, -d.lo - 1)), -1)
            k = ("n", k0)
        a = self.memo.get(k)
        if a is None:
            i = self.atom(0, 1, "c")
            a = S({(i,): 1}, 0, 1)
            self.memo[k] = a
            t = self.z(p)
            x = self.zm((i,))
            if kind == "z":
                self.assume((x == 1) == (t == 0), list(p) + [(i,)], i)
            else:
                self.assume((x == 1) == (t < 0), list(p) + [(i,)], i)
        return self.r(a)

    def decide(self, c):
        """truth value of an i1 on this path"""
        c = self.r(c)
        if isinstance(c, int):
            return bool(c & 1)
        n = len(self.decisions)
        if n < len(self.prefix):
            v = self.prefix[n]
        else:
            zt = self.z(c)
            if self.refuted(zt == 1, c.p, 3):
                self.decisions.append(False)
                return self.settle(c, False)
            if self.refuted(zt == 0, c.p, 3):
                self.decisions.append(True)
                return self.settle(c, True)
            self.solver.set("timeout", self.branch_timeout)
            rt = self.check(zt == 1)
            rf = self.check(zt == 0) if rt != z3.unsat else z3.unknown
            self.solver.set("timeout", self.timeout)
            if rt == z3.unknown or rf == z3.unknown and rt != z3.unsat:
                self.unknown.append("branch feasibility")
            v = rt != z3.unsat
            if v and rf != z3.unsat:
                self.pending.append(self.decisions + [False])
        self.decisions.append(v)
        return self.settle(c, v)

    def refuted(self, f, mons, depth, names=True):
        """True when f contradicts the path conditions and the definitions within `depth` steps of them"""
        sel, front = [], set(mons)
        for i in self.free:
            sel.append(i)
            front |= self.facts[i][1]
        seen_m, seen_a = set(), set()
        for _ in range(depth):
            atoms = {a for m in front for a in m} - seen_a
            seen_m |= front
            seen_a |= atoms
            front = set()
            for a in atoms:
                if a in self.defs and not names:
                    continue
                for i in self.about.get(a, ()):
                    sel.append(i)
                    front |= self.facts[i][1] - seen_m
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", 2000)
        for m in seen_m | front:
            if m:
                self.zm(m)
                s.add(self.zb[m])
        for i in sel:
            s.add(self.facts[i][0])
        s.add(f)
        t = time.time()
        self.queries += 1
        r = s.check()
        self.solver_s += time.time() - t
        self.light = s.model() if r == z3.sat else None
        return r == z3.unsat

    def settle(self, c, v):
        self.assume(self.z(c) == int(v), c.p)
        if len(c.p) <= 2:
            ms = [m for m in c.p if m]
            if len(ms) == 1 and len(ms[0]) == 1 and abs(c.p[ms[0]]) == 1:
                self.sub[ms[0][0]] = (int(v) - c.p.get((), 0)) * c.p[ms[0]]
        return v

    def isbool(self, v):
        return isinstance(v, S) and v.lo >= 0 and v.hi <= 1

    def as_mask(self, v, n):
        """v == (2^n-1)*b with b boolean -> b"""
        M = (1 << n) - 1
        if isinstance(v, S) and all(c % M == 0 for c in v.p.values()):
            b = self.mk({m: c // M for m, c in v.p.items()}, 0, 1)
            if isinstance(b, int) or self.isbool(b):
                return b
        return None

    def bin(self, op, n, a, b):
        a, b = self.r(a), self.r(b)
        M = 1 << n
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, P) or isinstance(b, P):
            if op in ("add", "sub") and isinstance(a, P) and isinstance(b, int):
                return P(a.o, a.off + (b if op == "add" else -b))
            if op == "sub" and isinstance(a, P) and isinstance(b, P) and a.o is b.o:
                return (a.off - b.off) % M
            if op == "and" and isinstance(a, P) and isinstance(b, int):
                return a.off & b
            raise IRError("pointer arithmetic %s" % op)
        if isinstance(a, int) and isinstance(b, int):
            if op == "add":
                return (a + b) % M
            if op == "sub":
                return (a - b) % M
            if op == "mul":
                return a * b % M
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) % M
            if op == "lshr":
                return a >> b
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            if op == "ashr":
                sa = a - M if a >> (n - 1) else a
                return (sa >> b) % M
            sa, sb = (x - M if x >> (n - 1) else x for x in (a, b))
            q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
            return (q if op == "sdiv" else sa - q * sb) % M
        if op in ("add", "sub"):
            return self.mod(self.add(a, b, 1 if op == "add" else -1), M)
        if op == "mul":
            return self.mod(self.mul(a, b), M)
        if op == "shl" and isinstance(b, int):
            return self.mod(self.mul(a, 1 << b), M)
        if op == "lshr" and isinstance(b, int):
            return self.divfloor(a, 1 << b)
        if op == "udiv" and isinstance(b, int):
            return self.divfloor(a, b)
        if op == "urem" and isinstance(b, int):
            return self.mod(a, b)
        if op == "and":
            return self.band(a, b, n)
        if op == "or":
            return self.bor(a, b, n)
        if op == "xor":
            return self.bxor(a, b, n)
        raise IRError("symbolic %s" % op)

    def band(self, a, b, n):
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if b == 0:
                return 0
            if b & (b + 1) == 0:
                return self.mod(a, b + 1)
            m = self.as_mask(a, n)
            if m is not None:
                return self.mul(m, b)
            # contiguous run of bits
            lo = (b & -b).bit_length() - 1
            w = b >> lo
            if w & (w + 1) == 0:
                return self.mul(self.mod(self.divfloor(a, 1 << lo), w + 1), 1 << lo)
            raise IRError("and with %x: %r %r" % (b, a, {tuple(self.aname[x] + str(x) for x in m): hex(c) for m, c in list(a.p.items())[:12]}))
        for x, y in ((a, b), (b, a)):
            if self.isbool(x) and self.isbool(y):
                if self.decide(x):
                    return self.r(y)
                return 0
            m = self.as_mask(x, n)
            if m is not None:
                if self.decide(m):
                    return self.r(y)
                return 0
            if self.isbool(x):
                if self.decide(x):
                    return self.mod(self.r(y), 2)
                return 0
        raise IRError("symbolic and")

    def tz(self, v):
        k = 0
        if isinstance(v, int):
            return 200 if v == 0 else (v & -v).bit_length() - 1
        return min((c & -c).bit_length() - 1 for c in v.p.values())

    def bor(self, a, b, n):
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int) and b == 0:
            return a
        for x, y in ((a, b), (b, a)):
            if rng(y)[0] >= 0 and rng(y)[1] < (1 << self.tz(x)):
                return self.add(x, y)
        if self.isbool(a) and (self.isbool(b) or b == 1):
            if b == 1:
                return 1
            if self.decide(a):
                return 1
            return self.r(b)
        if isinstance(b, int) and b == (1 << n) - 1:
            return b
        k = ("or", key(poly(a)), key(poly(b)))
        o = self.memo.get(k)
        if o is None:
            lo = max(rng(a)[0], rng(b)[0])
            hi = min((1 << max(rng(a)[1].bit_length(), rng(b)[1].bit_length())) - 1, rng(a)[1] + rng(b)[1])
            i = self.atom(lo, hi, "or")
            o = S({(i,): 1}, lo, hi)
            x, za, zb = self.zm((i,)), self.z(a), self.z(b)
            self.assume(z3.And(x >= za, x >= zb, x <= za + zb), list(poly(a)) + list(poly(b)) + [(i,)], i)
            self.memo[k] = o
        return o

    def bxor(self, a, b, n):
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if b == 0:
                return a
            if b == (1 << n) - 1:
                return self.add(b, a, -1)
            if b == 1:
                if self.isbool(a):
                    return self.add(1, a, -1)
                low = self.mod(a, 2)
                return self.add(a, self.add(1, self.mul(low, 2), -1))
            raise IRError("xor with %x" % b)
        if key(a.p) == key(b.p):
            return 0
        for x, y in ((a, b), (b, a)):
            if len(x.p) == 1:
                (m, c), = x.p.items()
                if c == 1 and len(m) == 1 and m[0] in self.xordef:
                    u, w = self.xordef[m[0]]
                    u, w = self.r(u), self.r(w)
                    if key(poly(u)) == key(poly(y)):
                        return w
                    if key(poly(w)) == key(poly(y)):
                        return u
        if self.isbool(a) and self.isbool(b):
            if self.decide(a):
                return self.add(1, self.r(b), -1)
            return self.r(b)
        k = ("xor",) + tuple(sorted((key(poly(a)), key(poly(b)))))
        o = self.memo.get(k)
        if o is None:
            hi = (1 << max(rng(a)[1].bit_length(), rng(b)[1].bit_length())) - 1
            i = self.atom(0, hi, "xor")
            o = S({(i,): 1}, 0, hi)
            self.xordef[i] = (a, b)
            x, za, zb = self.zm((i,)), self.z(a), self.z(b)
            self.assume(z3.And((x == 0) == (za == zb), x <= za + zb, x >= za - zb, x >= zb - za), list(poly(a)) + list(poly(b)) + [(i,)], i)
            self.memo[k] = o
        return o

    def signed(self, v, n):
        """signed value of an n-bit v (splits on the sign when unknown)"""
        lo, hi = rng(v)
        H = 1 << (n - 1)
        if isinstance(v, int):
            return v - 2 * H if v >= H else v
        if hi < H:
            return v
        if lo >= H:
            return self.add(v, 2 * H, -1)
        if self.decide(self.boolean("n", self.add(v, H, -1))):
            return self.r(v)
        return self.add(self.r(v), 2 * H, -1)

    def icmp(self, pred, n, a, b):
        a, b = self.r(a), self.r(b)
        if a is UNDEF or b is UNDEF:
            raise IRError("compare undefined")
        if isinstance(a, P) or isinstance(b, P) or a is None or b is None:
            if a is None or b is None:
                eq = a is None and b is None
                return {"eq": int(eq), "ne": int(not eq)}[pred]
            if not (isinstance(a, P) and isinstance(b, P)):
                if isinstance(a, P) and isinstance(b, int) or isinstance(a, int) and isinstance(b, P):
                    return {"eq": 0, "ne": 1}[pred]
            if a.o is not b.o:
                if pred in ("eq", "ne"):
                    return int(pred == "ne")
                raise IRError("pointer order")
            a, b = a.off, b.off
        if pred[0] == "s":
            a, b = self.signed(a, n), self.signed(b, n)
            pred = "u" + pred[1:]
        if pred == "eq":
            return self.boolean("z", self.add(a, b, -1))
        if pred == "ne":
            return self.add(1, self.boolean("z", self.add(a, b, -1)), -1)
        if pred in ("ugt", "ule"):
            a, b = b, a
        lt = self.boolean("n", self.add(a, b, -1))  # a < b
        return lt if pred in ("ult", "ugt") else self.add(1, lt, -1)

    # memory ---------------------------------------------------------------------------
    def gobj(self, name):
        o = self.globals.get(name)
        if o is None:
            g = self.module.globals[name]
            m = re.match(r"(?:[a-z_]+(?:\([^)]*\))? )*?(?:constant|global) (.*)", g)
            toks = tokenize(re.sub(r", align \d+$", "", m.group(1)))
            t, i = self.module.ty(toks, 0)
            o = Obj(t.size, name)
            self.globals[name] = o
            if i < len(toks):
                v, _ = self.module.operand(toks, i, t)
                self.store(P(o), t, self.const(v, t))
        return o

    def const(self, v, t):
        k = v[0]
        if k == "c":
            return v[1]
        if k == "u":
            return self.undef(t)
        if k == "z":
            return self.zero(t)
        if k == "s":
            return tuple(unesc(v[1]))
        if k == "a":
            return tuple(self.const(e, et) for et, e in v[1])
        if k == "g":
            if v[1] in self.module.funcs or v[1] in self.module.declared:
                return P(v[1])
            return P(self.gobj(v[1]))
        if k == "gep":
            bt, base, idx = v[1]
            return self.gep(bt, self.const(base, PTR), [self.const(x, None) for x in idx])
        if k == "cast":
            return self.const(v[1][2], v[1][1])
        raise IRError("constant " + k)

    def undef(self, t):
        if t.k == "arr":
            return tuple(self.undef(t.el) for _ in range(t.n))
        if t.k in ("struct", "packed"):
            return tuple(self.undef(e) for e in t.el)
        return UNDEF

    def zero(self, t):
        if t.k == "arr":
            return tuple(self.zero(t.el) for _ in range(t.n))
        if t.k in ("struct", "packed"):
            return tuple(self.zero(e) for e in t.el)
        return None if t.k == "ptr" else 0

    def gep(self, bt, p, idx):
        if not isinstance(p, P):
            if isinstance(p, int) or p is None:
                base = p or 0
                p = P("int", base)
            else:
                raise IRError("gep on %r" % (p,))
        off = p.off
        t = bt
        for k, i in enumerate(idx):
            i = self.r(i)
            if isinstance(i, S):
                raise IRError("symbolic index")
            if isinstance(i, int) and i >= 1 << 63:
                i -= 1 << 64
            if k == 0:
                off += i * t.size
            elif t.k == "arr":
                t = t.el
                off += i * t.size
            else:
                off += t.offs[i]
                t = t.el[i]
        return P(p.o, off)

    def store(self, p, t, v):
        if t.k == "arr":
            for i in range(t.n):
                self.store(P(p.o, p.off + i * t.el.size), t.el, v[i])
            return
        if t.k in ("struct", "packed"):
            for o, e, x in zip(t.offs, t.el, v):
                self.store(P(p.o, p.off + o), e, x)
            return
        if not isinstance(p, P) or not isinstance(p.o, Obj):
            raise IRError("store through %r" % (p,))
        n = t.size
        b = p.o.b
        if p.off < 0 or p.off + n > len(b):
            raise Panic("out of bounds store")
        v = self.r(v)
        if isinstance(v, int):
            for k in range(n):
                b[p.off + k] = (v >> (8 * k)) & 255
        elif v is UNDEF:
            for k in range(n):
                b[p.off + k] = UNDEF
        else:
            for k in range(n):
                b[p.off + k] = (v, k, n)

    def load(self, p, t):
        if t.k == "arr":
            return tuple(self.load(P(p.o, p.off + i * t.el.size), t.el) for i in range(t.n))
        if t.k in ("struct", "packed"):
            return tuple(self.load(P(p.o, p.off + o), e) for o, e in zip(t.offs, t.el))
        if not isinstance(p, P) or not isinstance(p.o, Obj):
            raise IRError("load through %r" % (p,))
        n = t.size
        b = p.o.b
        if p.off < 0 or p.off + n > len(b):
            raise Panic("out of bounds load")
        cs = b[p.off:p.off + n]
        if all(isinstance(c, int) for c in cs):
            v = sum(c << (8 * k) for k, c in enumerate(cs))
            if t.k == "ptr":
                return None if v == 0 else P("int", v)
            return v & ((1 << t.n) - 1) if t.n < 8 else v
        if any(c is UNDEF for c in cs):
            return UNDEF
        c0 = cs[0]
        if isinstance(c0, tuple) and c0[1] == 0 and c0[2] == n and all(isinstance(c, tuple) and c[0] is c0[0] and c[1] == k for k, c in enumerate(cs)):
            return self.r(c0[0])
        # assemble
        r = 0
        k = 0
        while k < n:
            c = cs[k]
            if isinstance(c, int):
                r = self.add(r, c << (8 * k))
                k += 1
                continue
            v, i, m = c
            j = k
            while j < n and isinstance(cs[j], tuple) and cs[j][0] is v and cs[j][1] == i + (j - k):
                j += 1
            v = self.r(v)
            if not isinstance(v, (S, int)):
                raise IRError("partial pointer load")
            w = j - k
            piece = self.divfloor(v, 1 << (8 * i)) if i else v
            if i + w < m:
                piece = self.mod(piece, 1 << (8 * w))
            r = self.add(r, self.mul(piece, 1 << (8 * k)))
            k = j
        return r

    def memcpy(self, d, s, n):
        n = self.r(n)
        if isinstance(n, S):
            raise IRError("symbolic memcpy length")
        if n == 0:
            return
        if not isinstance(d.o, Obj) or not isinstance(s.o, Obj):
            raise IRError("memcpy")
        if d.off < 0 or d.off + n > len(d.o.b) or s.off < 0 or s.off + n > len(s.o.b):
            raise Panic("out of bounds copy")
        d.o.b[d.off:d.off + n] = s.o.b[s.off:s.off + n]

    # execution ------------------------------------------------------------------------
    def call(self, name, args):
        h = self.hooks.get(name)
        if h is not None:
            return h(self, args)
        if name.startswith("@llvm."):
            return self.intrinsic(name, args)
        f = self.module.funcs.get(name)
        if f is None:
            return self.external(name, args)
        self.funcs_seen.add(name)
        f = self.module.func(name)
        if len(f["params"]) != len(args):
            raise IRError("arity of " + name)
        env = {n: v for (n, t), v in zip(f["params"], args)}
        b, prev = f["first"], None
        mod = self.module

        def val(o):
            k = o[0]
            if k == "l":
                v = env[o[1]]
                return self.r(v) if isinstance(v, S) else v
            if k == "c":
                return o[1]
            return self.const(o, o[1] if k in ("u", "z") else None)
        while True:
            i = 0
            n = len(f["blocks"][b])
            # phis read old values together
            phis = []
            while i < n:
                x = mod.inst(f, b, i)
                if x[0] != "phi":
                    break
                for v, src in x[3]:
                    if src == prev:
                        phis.append((x[1], val(v)))
                        break
                i += 1
            for d, v in phis:
                env[d] = v
            jumped = False
            while i < n:
                x = mod.inst(f, b, i)
                i += 1
                self.steps += 1
                k = x[0]
                if k == "bin":
                    env[x[1]] = self.bin(x[2], x[3].n, val(x[4]), val(x[5]))
                elif k == "load":
                    env[x[1]] = self.load(val(x[3]), x[2])
                elif k == "store":
                    self.store(val(x[3]), x[1], val(x[2]))
                elif k == "gep":
                    env[x[1]] = self.gep(x[2], val(x[3]), [val(o) for _, o in x[4]])
                elif k == "call":
                    a = [val(o) for _, o in x[4]]
                    c = x[3]
                    if c[0] == "%":
                        c = env[c].o
                    r = self.call(c, a)
                    if x[1]:
                        env[x[1]] = r
                    if x[5]:
                        prev, b, jumped = b, x[5], True
                        break
                elif k == "alloca":
                    env[x[1]] = P(Obj(x[2].size))
                elif k == "extract":
                    v = val(x[2])
                    for j in x[3]:
                        v = v[j]
                    env[x[1]] = self.r(v) if isinstance(v, S) else v
                elif k == "insert":
                    env[x[1]] = ins(val(x[3]), x[5], val(x[4]))
                elif k == "cast":
                    env[x[1]] = self.cast(x[2], x[3], val(x[4]), x[5])
                elif k == "icmp":
                    env[x[1]] = self.icmp(x[2], x[3].n, val(x[4]), val(x[5]))
                elif k == "br":
                    prev, b, jumped = b, x[1], True
                    break
                elif k == "cbr":
                    c = val(x[1])
                    if c is UNDEF:
                        raise IRError("branch on undef")
                    t = self.decide(c)
                    prev, b, jumped = b, x[2] if t else x[3], True
                    break
                elif k == "select":
                    c = val(x[3])
                    env[x[1]] = val(x[4]) if self.decide(c) else val(x[5])
                elif k == "switch":
                    v = val(x[2])
                    dst = x[3]
                    for cv, lab in x[4]:
                        if self.decide(self.boolean("z", self.add(v, cv, -1)) if not isinstance(v, int) else int(v == cv)):
                            dst = lab
                            break
                        v = self.r(v)
                    prev, b, jumped = b, dst, True
                    break
                elif k == "ret":
                    return None if x[1] is None else val(x[2])
                elif k == "unreachable":
                    raise IRError("reached unreachable in " + name)
                elif k == "landingpad" or k == "resume":
                    raise IRError(k)
                elif k == "asm":
                    if '"memory"' in x[2] or 'sideeffect' in x[2]:
                        continue
                    raise IRError("inline asm")
                else:
                    raise IRError(k)
            if self.steps > self.max_steps:
                raise IRError("step budget")
            if not jumped:
                raise IRError("fell off block")

    def cast(self, op, st, v, dt):
        v = self.r(v)
        if v is UNDEF:
            return UNDEF
        if op in ("bitcast", "ptrtoint", "inttoptr"):
            if op == "ptrtoint" and v is None:
                return 0
            if op == "inttoptr" and isinstance(v, int):
                return P("int", v) if v else None
            if op == "ptrtoint" and isinstance(v, P) and v.o == "int":
                return v.off
            return v
        if op == "zext":
            return v
        if op == "trunc":
            return self.mod(v, 1 << dt.n) if not isinstance(v, P) else v
        if op == "sext":
            s = self.signed(v, st.n)
            return self.mod(s, 1 << dt.n)
        raise IRError(op)

    def intrinsic(self, name, a):
        if name.startswith("@llvm.memcpy") or name.startswith("@llvm.memmove"):
            return self.memcpy(a[0], a[1], a[2])
        if name.startswith("@llvm.memset"):
            p, v, n = a[:3]
            for k in range(n):
                self.store(P(p.o, p.off + k), INT(8), v)
            return
        m = re.match(r"@llvm\.u(add|sub|mul)\.with\.overflow\.i(\d+)", name)
        if m:
            op, n = m.group(1), int(m.group(2))
            M = 1 << n
            v = self.mul(a[0], a[1]) if op == "mul" else self.add(a[0], a[1], 1 if op == "add" else -1)
            lo, hi = rng(v)
            if lo >= 0 and hi < M:
                return (v, 0)
            w = self.mod(v, M)
            if op == "sub":
                return (w, self.boolean("n", v))
            return (w, self.add(1, self.boolean("n", self.add(v, M, -1)), -1))
        m = re.match(r"@llvm\.u(add|sub)\.sat\.i(\d+)", name)
        if m:
            n = int(m.group(2))
            v = self.add(a[0], a[1], 1 if m.group(1) == "add" else -1)
            lo, hi = rng(v)
            if m.group(1) == "add":
                return v if hi < 1 << n or self.decide(self.boolean("n", self.add(v, 1 << n, -1))) else (1 << n) - 1
            return v if lo >= 0 else 0 if self.decide(self.boolean("n", v)) else v
        if name.startswith("@llvm.expect"):
            return a[0]
        if name.startswith("@llvm.assume"):
            return
        if name.startswith("@llvm.trap"):
            raise Panic("trap")
        m = re.match(r"@llvm\.ctpop|@llvm\.ctlz|@llvm\.cttz|@llvm\.bswap", name)
        if m and isinstance(a[0], int):
            n = int(name.rsplit("i", 1)[1])
            if "ctpop" in name:
                return bin(a[0]).count("1")
            if "ctlz" in name:
                return n - a[0].bit_length()
            if "cttz" in name:
                return n if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
        if m and "ctlz" in name:
            # split on the number of leading zeros
            n = int(name.rsplit("i", 1)[1])
            for b in range(n):
                if self.decide(self.boolean("n", self.add(a[0], 1 << b, -1))):
                    return n - b
            return 0
        if "lifetime" in name or "dbg" in name:
            return
        raise IRError("intrinsic " + name)

    def external(self, name, a):
        if "panic" in name or "unwrap_failed" in name or "_fail" in name or "assert_failed" in name or "expect_failed" in name or "capacity_overflow" in name or "handle_alloc_error" in name:
            raise Panic(name)
        if name in ("@__rust_alloc", "@__rust_alloc_zeroed"):
            o = Obj(a[0], "heap")
            if name.endswith("zeroed"):
                o.b = [0] * a[0]
            return P(o)
        if name == "@__rust_dealloc":
            return
        if name == "@__rust_realloc":
            o = Obj(a[3], "heap")
            k = min(a[3], a[1])
            o.b[:k] = a[0].o.b[a[0].off:a[0].off + k]
            return P(o)
        if name in ("@memcmp", "@bcmp"):
            n, k = a[2], 0
            while k < n:
                w = 8 if n - k >= 8 else 4 if n - k >= 4 else 1
                x, y = (self.load(P(p.o, p.off + k), INT(8 * w)) for p in a[:2])
                if not self.decide(self.boolean("z", self.add(x, y, -1))):
                    return self.var(32, "memcmp", 1)  # unequal; the sign is left open
                k += w
            return 0
        raise IRError("external " + name)


def ins(agg, idx, v):
    l = list(agg)
    l[idx[0]] = v if len(idx) == 1 else ins(l[idx[0]], idx[1:], v)
    return tuple(l)


def unesc(s):
    s = s[2:-1]
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\" and s[i + 1] == "\\":
            out.append(92)
            i += 2
        elif s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out


def explore(mod, setup, max_paths=400, timeout=20000):
    """setup(ctx) -> thunk running the code; yields (ctx, result or exception) per feasible path"""
    work = [[]]
    n = 0
    while work:
        pre = work.pop()
        ctx = Ctx(mod, pre, timeout)
        try:
            res = setup(ctx)
        except Infeasible:
            work.extend(ctx.pending)
            continue
        except (Panic,) as e:
            res = e
        work.extend(ctx.pending)
        n += 1
        yield ctx, res
        if n >= max_paths and work:
            raise IRError("path budget")
