"""C10, C11, C12: prime-field arithmetic and encodings, by symbolic execution of the LLVM IR
of halo2curves (lib/llir.py) over symbolic limbs, with z3 deciding every branch and goal."""
import multiprocessing as mp
import os, re, time
import z3
import irws, llir, ws
from llir import INT, Obj, P, S, Panic, IRError, rng

R = 1 << 256
FIELDS = {
    "bnfr": ("bn256::Fr", 0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001),
    "bnfq": ("bn256::Fq", 0x30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47),
    "secp": ("secp256k1::Fp", 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f),
    "secq": ("secp256k1::Fq", 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141),
}
WORDS = {"F": 4, "R4": 4, "R8": 8, "U64": 1, "U128": 2, "BOOL": 1, "": 0}


# -- goal constructors (E is an Env with symbolic or concrete values) ------------------
class Env:
    def __init__(self, c, p, ins, out, ret):
        self.c, self.p, self.ins, self.out, self.ret = c, p, ins, out, ret

    def val(self, cells):
        v = 0
        for i, x in enumerate(cells):
            v = self.c.add(v, self.c.mul(x, 1 << (64 * i)))
        return v

    def i(self, k):
        return self.val(self.ins[k])

    def o(self, a=0, b=4):
        return self.val(self.out[a:b])

    def lin(self, *terms):
        v = 0
        for k, x in terms:
            v = self.c.add(v, self.c.mul(x, k))
        return v


def field_out(E, *terms, scale=1):
    """OUT*scale == sum k*x (mod p), OUT canonical"""
    return [("mod", E.lin((scale, E.o()), *[(-k, x) for k, x in terms])), ("lt", E.o(), E.p)]


def g_add(E): return field_out(E, (1, E.i(0)), (1, E.i(1)))
def g_sub(E): return field_out(E, (1, E.i(0)), (-1, E.i(1)))
def g_mul(E): return field_out(E, (1, E.c.mul(E.i(0), E.i(1))), scale=R)
def g_sq(E): return field_out(E, (1, E.c.mul(E.i(0), E.i(0))), scale=R)
def g_neg(E): return field_out(E, (-1, E.i(0)))
def g_dbl(E): return field_out(E, (2, E.i(0)))
def g_int(E): return field_out(E, (R, E.i(0)))
def g_id(E): return [("eq", E.o(), E.i(0))]
def g_repr(E): return field_out(E, (1, E.i(0)), scale=R)


def g_dec(E):
    if E.ret == 1:
        return [("lt", E.i(0), E.p)] + g_int(E)
    return [("lt", E.p - 1, E.i(0))]


def g_raw(E):
    if E.ret == 1:
        return [("lt", E.i(0), E.p), ("eq", E.o(), E.i(0))]
    return [("lt", E.p - 1, E.i(0))]


def g_none(E): return [("true", E.ret == 0)]


def g_cmp(E):
    a, b = E.o(0, 4), E.o(4, 8)
    return {0: [("lt", a, b)], 1: [("eq", a, b)], 2: [("lt", b, a)]}.get(E.ret, [("true", False)])


def g_eq(E):
    a, b = E.i(0), E.i(1)
    if E.ret == 1:
        return [("eq", a, b)]
    return [("ne", a, b), ("true", E.ret == 0)]


def g_zero(E):
    return [("eq" if E.ret == 1 else "ne", E.i(0), 0), ("true", E.ret in (0, 1))]


def g_odd(E):
    # o: canonical repr; ret: parity
    t = E.o(0, 4)
    q = E.c.divfloor(t, 2)
    return [("eq", E.lin((1, t), (-2, q)), E.ret)]


def g_even(E):
    t = E.o(0, 4)
    q = E.c.divfloor(t, 2)
    return [("eq", E.lin((1, t), (-2, q)), 1 - E.ret)]


def g_low128(E):
    return [("eq", E.o(4, 6), E.o(0, 2))]


def g_low32(E):
    t = E.out[0]
    return [("eq", E.out[4], E.lin((1, t), (-(1 << 32), E.c.divfloor(t, 1 << 32))))]


def g_sel(E):
    ch = E.ins[2][0]
    return [("if", ch, [("eq", E.o(), E.i(1))], [("eq", E.o(), E.i(0))])]


def g_swap(E):
    ch = E.ins[2][0]
    return [("if", ch, [("eq", E.o(), E.i(1)), ("eq", E.o(4, 8), E.i(0))], [("eq", E.o(), E.i(0)), ("eq", E.o(4, 8), E.i(1))])]


def g_cneg(E):
    ch = E.ins[2][0]
    return [("lt", E.o(), E.p), ("if", ch, [("mod", E.lin((1, E.o()), (1, E.i(0))))], [("eq", E.o(), E.i(0))])]


def OPS():
    f = "let a=*(a as *const F);"
    g = "let b=*(b as *const F);"
    A = []

    def op(name, sig, body, goal, kind="arith", nout=4, prod=(), low=False):
        A.append(dict(name=name, sig=sig, body=body, goal=goal, kind=kind, nout=nout, prod=prod))
    for nm, sym, gl, pr in (("add", "+", g_add, ()), ("sub", "-", g_sub, ()), ("mul", "*", g_mul, ((0, 1),))):
        FF = ("F", "F")
        op(nm, FF, f + g + "*o=a %s b; 0" % sym, gl, prod=pr)
        op(nm + "_rr", FF, f + g + "*o=&a %s &b; 0" % sym, gl, prod=pr)
        op(nm + "_ro", FF, f + g + "*o=&a %s b; 0" % sym, gl, prod=pr)
        op(nm + "_or", FF, f + g + "*o=a %s &b; 0" % sym, gl, prod=pr)
        op(nm + "_asg", FF, f + g + "let mut t=a; t %s= b; *o=t; 0" % sym, gl, prod=pr)
        op(nm + "_asr", FF, f + g + "let mut t=a; t %s= &b; *o=t; 0" % sym, gl, prod=pr)
        op(nm + "_inh", FF, f + g + "*o=F::%s(&a,&b); 0" % nm, gl, prod=pr)
    op("gadd", ("F", "F"), f + g + "let mut t=a; crate::Group::group_add(&mut t,&b); *o=t; 0", g_add)
    op("gsub", ("F", "F"), f + g + "let mut t=a; crate::Group::group_sub(&mut t,&b); *o=t; 0", g_sub)
    op("gscale", ("F", "F"), f + g + "let mut t=a; crate::Group::group_scale(&mut t,&b); *o=t; 0", g_mul, prod=((0, 1),))
    op("neg", ("F", ""), f + "*o=-a; 0", g_neg)
    op("neg_r", ("F", ""), f + "*o=-&a; 0", g_neg)
    op("neg_inh", ("F", ""), f + "*o=F::neg(&a); 0", g_neg)
    op("dbl", ("F", ""), f + "*o=F::double(&a); 0", g_dbl)
    op("dbl_t", ("F", ""), f + "*o=<F as ff::Field>::double(&a); 0", g_dbl)
    op("sq", ("F", ""), f + "*o=F::square(&a); 0", g_sq, prod=((0, 0),))
    op("sq_t", ("F", ""), f + "*o=<F as ff::Field>::square(&a); 0", g_sq, prod=((0, 0),))
    op("cneg", ("F", "F", "BOOL"), f + "let mut t=a; subtle::ConditionallyNegatable::conditional_negate(&mut t, subtle::Choice::from(*c as u8)); *o=t; 0", g_cneg)
    op("from_u64", ("U64", ""), "*o=F::from(*a); 0", g_int)
    op("from_u128", ("U128", ""), "*o=<F as crate::FieldExt>::from_u128(*a as u128 | ((*a.add(1) as u128)<<64)); 0", g_int)
    op("from_bool", ("BOOL", ""), "*o=F::from(*a==1); 0", g_int)
    op("from_raw", ("R4", ""), "*o=F::from_raw(*(a as *const [u64;4])); 0", g_int)
    op("from_wide", ("R8", ""), "*o=<F as crate::FieldExt>::from_bytes_wide(&*(a as *const [u8;64])); 0", g_int)
    # encodings
    E = "enc"
    dec = "let s=r.is_some().unwrap_u8(); if s==1 {*o=r.unwrap();} s as u64"
    op("from_repr", ("R4", ""), "let r=<F as ff::PrimeField>::from_repr(*(a as *const [u8;32])); " + dec, g_dec, E)
    op("from_repr_vt", ("R4", ""), "match <F as ff::PrimeField>::from_repr_vartime(*(a as *const [u8;32])) {Some(x)=>{*o=x;1},None=>0}", g_dec, E)
    op("from_bytes", ("R4", ""), "let r=F::from_bytes(&*(a as *const [u8;32])); " + dec, g_dec, E)
    B = "*(o as *mut [u8;32])="
    op("to_repr", ("F", ""), f + B + "<F as ff::PrimeField>::to_repr(&a); 0", g_repr, E)
    op("to_bytes", ("F", ""), f + B + "a.to_bytes(); 0", g_repr, E)
    op("into_b", ("F", ""), f + B + "a.into(); 0", g_repr, E)
    op("into_br", ("F", ""), f + B + "(&a).into(); 0", g_repr, E)
    SO = "<F as crate::serde::SerdeObject>::"
    op("raw_dec", ("R4", ""), "match " + SO + "from_raw_bytes(&*(a as *const [u8;32])) {Some(x)=>{*o=x;1},None=>0}", g_raw, E)
    for n in (0, 31, 33):
        op("raw_dec%d" % n, ("R8", ""), "match " + SO + "from_raw_bytes(core::slice::from_raw_parts(a as *const u8,%d)) {Some(x)=>{*o=x;1},None=>0}" % n, g_none, E)
    op("raw_unc", ("F", ""), "*o=" + SO + "from_raw_bytes_unchecked(&*(a as *const [u8;32])); 0", g_id, E)
    op("raw_enc", ("F", ""), f + "let v=" + SO + "to_raw_bytes(&a); let n=v.len(); if n==32 { " + B + "core::convert::TryFrom::try_from(&v[..]).unwrap(); } core::mem::forget(v); n as u64",
       lambda E: [("true", E.ret == 32)] + g_id(E), E)
    op("raw_read", ("R4", ""), "let mut r: &[u8]=core::slice::from_raw_parts(a as *const u8,32); match " + SO + "read_raw(&mut r) {Ok(x)=>{*o=x; if r.len()==0 {1} else {7}},Err(_)=>0}", g_raw, E)
    op("raw_read31", ("R4", ""), "let mut r: &[u8]=core::slice::from_raw_parts(a as *const u8,31); match " + SO + "read_raw(&mut r) {Ok(x)=>{*o=x;1},Err(_)=>0}", g_none, E)
    op("raw_readu", ("F", ""), "let mut r: &[u8]=core::slice::from_raw_parts(a as *const u8,32); *o=" + SO + "read_raw_unchecked(&mut r); 0", g_id, E)
    op("raw_write", ("F", ""), f + "let mut r: &mut [u8]=core::slice::from_raw_parts_mut(o as *mut u8,32); match " + SO + "write_raw(&a,&mut r) {Ok(())=>r.len() as u64,Err(_)=>99}",
       lambda E: [("true", E.ret == 0)] + g_id(E), E)
    two = B + "<F as ff::PrimeField>::to_repr(&a); *(o.add(1) as *mut [u8;32])=<F as ff::PrimeField>::to_repr(&b); "
    op("cmp", ("F", "F"), f + g + two + "match a.cmp(&b) {core::cmp::Ordering::Less=>0,core::cmp::Ordering::Equal=>1,core::cmp::Ordering::Greater=>2}", g_cmp, E, 8)
    op("pcmp", ("F", "F"), f + g + two + "match a.partial_cmp(&b) {Some(core::cmp::Ordering::Less)=>0,Some(core::cmp::Ordering::Equal)=>1,Some(core::cmp::Ordering::Greater)=>2,None=>9}", g_cmp, E, 8)
    op("eq", ("F", "F"), f + g + "(a==b) as u64", g_eq, E)
    op("ne", ("F", "F"), f + g + "(!(a!=b)) as u64", g_eq, E)
    op("cteq", ("F", "F"), f + g + "subtle::ConstantTimeEq::ct_eq(&a,&b).unwrap_u8() as u64", g_eq, E)
    op("is_zero", ("F", ""), f + "ff::Field::is_zero(&a).unwrap_u8() as u64", g_zero, E)
    op("is_zero_vt", ("F", ""), f + "ff::Field::is_zero_vartime(&a) as u64", g_zero, E)
    one = B + "<F as ff::PrimeField>::to_repr(&a); "
    op("is_odd", ("F", ""), f + one + "ff::PrimeField::is_odd(&a).unwrap_u8() as u64", g_odd, E)
    op("is_even", ("F", ""), f + one + "ff::PrimeField::is_even(&a).unwrap_u8() as u64", g_even, E)
    op("low128", ("F", ""), f + one + "let l=crate::FieldExt::get_lower_128(&a); let w=o.add(1) as *mut u64; *w=l as u64; *w.add(1)=(l>>64) as u64; 0", g_low128, E, 8)
    op("low32", ("F", ""), f + one + "let l=pasta_curves::arithmetic::SqrtRatio::get_lower_32(&a); *(o.add(1) as *mut u64)=l as u64; 0", g_low32, E, 8)
    op("sel", ("F", "F", "BOOL"), f + g + "*o=subtle::ConditionallySelectable::conditional_select(&a,&b,subtle::Choice::from(*c as u8)); 0", g_sel, E)
    op("csel", ("F", "F", "BOOL"), f + g + "let mut t=a; subtle::ConditionallySelectable::conditional_assign(&mut t,&b,subtle::Choice::from(*c as u8)); *o=t; 0", g_sel, E)
    op("swap", ("F", "F", "BOOL"), f + g + "let mut t=a; let mut u=b; subtle::ConditionallySelectable::conditional_swap(&mut t,&mut u,subtle::Choice::from(*c as u8)); *o=t; *o.add(1)=u; 0", g_swap, E, 8)
    return A


EXTRA = {
    # exponentiation-based operations: (name, body); results tracked as powers of the argument
    "invert": "let r=ff::Field::invert(&a); let s=r.is_some().unwrap_u8(); if s==1 {*o=r.unwrap();} s as u64",
}


def wrappers():
    s = ["//! thin wrappers for checking\n#![allow(unused_imports)]\nuse ff::{Field,PrimeField};\npub fn keep(){}\n"]
    for tag, (path, _) in FIELDS.items():
        s.append("pub mod %s { use crate::%s as F;\n" % (tag, path))
        for o in OPS():
            s.append('#[export_name="w_%s_%s"] pub unsafe extern "C" fn %s(a:*const u64,b:*const u64,c:*const u64,o:*mut F)->u64 { %s }\n' % (tag, o["name"], o["name"], o["body"]))
        for n, body in EXTRA.items():
            s.append('#[export_name="w_%s_%s"] pub unsafe extern "C" fn x_%s(a:*const u64,b:*const u64,c:*const u64,o:*mut F)->u64 { let a=*(a as *const F); %s }\n' % (tag, n, n, body))
        s.append("}\n")
    return "".join(s)


# -- proving ---------------------------------------------------------------------------
class Prover:
    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p

    def zero_mod(self, v):
        """v == 0 (mod p)?  'proved' or the z3 formula of its negation"""
        ctx, p = self.ctx, self.p
        v = ctx.r(v)
        if isinstance(v, int):
            return None if v % p == 0 else z3.BoolVal(True)
        g = ctx.expand(v.p)
        L = {}
        for m, c in g.items():
            c %= p
            if c:
                L[m] = c if c <= p // 2 else c - p
        if not L:
            return None
        if set(L) == {()}:
            return z3.BoolVal(True)
        zl = ctx.z(L)
        # usually constant: find its value on some model, prove there is no other
        if ctx.check(zl != 0) == z3.unsat:
            return None
        try:
            if ctx.check() == z3.unsat:
                return None
            mv = ctx.solver.model().eval(zl, model_completion=True).as_long()
            if mv % p == 0 and ctx.check(zl != mv) == z3.unsat:
                return None
        except z3.Z3Exception:
            pass
        n = ctx.memo.setdefault(("t", len(ctx.memo)), len(ctx.memo))
        t, s = z3.Int("qt%d" % n), z3.Int("qs%d" % n)
        return z3.And(zl == t * p + s, s >= 1, s <= p - 1)

    def neg(self, g):
        """z3 formula for the negation of a goal, or None when it holds trivially"""
        ctx = self.ctx
        k = g[0]
        if k == "true":
            return None if g[1] else z3.BoolVal(True)
        if k == "mod":
            return self.zero_mod(g[1])
        if k in ("lt", "eq", "ne"):
            d = ctx.add(ctx.r(g[1]), ctx.r(g[2]), -1)
            if isinstance(d, int):
                ok = {"lt": d < 0, "eq": d == 0, "ne": d != 0}[k]
                return None if ok else z3.BoolVal(True)
            e = ctx.expand(d.p)
            if k == "eq" and not e:
                return None
            z = ctx.z(d)
            return {"lt": z >= 0, "eq": z != 0, "ne": z == 0}[k]
        if k == "if":
            c = ctx.r(g[1])
            alts = []
            for side, gs in ((1, g[2]), (0, g[3])):
                if isinstance(c, int):
                    if c != side:
                        continue
                    pre = z3.BoolVal(True)
                else:
                    pre = ctx.z(c) == side
                for x in gs:
                    n = self.neg(x)
                    if n is not None:
                        alts.append(z3.And(pre, n))
            return z3.Or(alts) if alts else None
        raise ValueError(k)


def gvals(g):
    if g[0] == "if":
        return [g[1]] + [v for x in g[2] + g[3] for v in gvals(x)]
    return [v for v in g[1:] if not isinstance(v, bool)]


class Conc:
    """the arithmetic of Ctx on plain integers"""
    @staticmethod
    def add(a, b, s=1): return a + s * b
    @staticmethod
    def mul(a, b): return a * b
    @staticmethod
    def divfloor(a, d): return a // d


def conc_ok(goals, p):
    for g in goals:
        if g[0] == "true":
            ok = g[1]
        elif g[0] == "mod":
            ok = g[1] % p == 0
        elif g[0] == "if":
            ok = conc_ok(g[2] if g[1] == 1 else g[3], p)
        else:
            ok = {"lt": g[1] < g[2], "eq": g[1] == g[2], "ne": g[1] != g[2]}[g[0]]
        if not ok:
            return False
    return True


SPECIAL = lambda p: [p - 1, 1, R % p, (1 << 64) - 1, p >> 1, ((1 << 256) - 1) % p, R * R % p, (p - 1) ^ ((1 << 64) - 1) if (p - 1) ^ ((1 << 64) - 1) < p else p - 2, 2, p - (1 << 128)]


def run_op(mod, tag, o, fixed=None, deadline=None, timeout=15000):
    """symbolic run of one wrapper. fixed: {arg index: concrete value}.
    yields (verdict, detail, model inputs or None, ctx)"""
    p = FIELDS[tag][1]
    sig = list(o["sig"]) + [""] * (3 - len(o["sig"]))

    def setup(ctx):
        ins, ptrs = [], []
        for k, kind in enumerate(sig):
            n = WORDS[kind]
            ob = Obj(max(8, 8 * n), "in%d" % k)
            cells = []
            for w in range(n):
                if fixed and k in fixed:
                    x = (fixed[k] >> (64 * w)) & ((1 << 64) - 1)
                else:
                    x = ctx.var(64, "%s%d" % ("abc"[k], w), 0, 1 if kind == "BOOL" else None)
                cells.append(x)
                ctx.store(P(ob, 8 * w), INT(64), x)
            ins.append(cells)
            ptrs.append(P(ob))
            if kind == "F":
                v = Env(ctx, p, None, None, None).val(cells)
                if not isinstance(v, int):
                    ctx.assume(ctx.z(v) <= p - 1)
        ctx.ins = ins
        for i, j in o["prod"]:
            E0 = Env(ctx, p, ins, None, None)
            ab = ctx.mul(E0.i(i), E0.i(j))
            if not isinstance(ab, int):
                ctx.assume(ctx.z(ab) <= (p - 1) ** 2)
        out = Obj(128, "out")
        ret = ctx.call("@w_%s_%s" % (tag, o["name"]), ptrs + [P(out)])
        while isinstance(ret, S):
            # make the result concrete on each path
            cand = rng(ret)[0]
            if ctx.decide(ctx.boolean("z", ctx.add(ret, cand, -1))):
                ret = cand
                break
            ret = ctx.r(ret)
            if isinstance(ret, S):
                ret = S(ret.p, cand + 1, ret.hi) if cand + 1 < ret.hi else cand + 1
            if cand > 300:
                raise IRError("too many results")
        outs = []
        for w in range(o["nout"]):
            v = ctx.load(P(out, 8 * w), INT(64))
            outs.append(v)
        return ret, outs

    for ctx, res in llir.explore(mod, setup, timeout=timeout):
        if deadline and time.time() > deadline:
            raise IRError("time budget")

        def inputs(m=None):
            m = m or ctx.solver.model()
            r = []
            for cells in ctx.ins:
                r.append([x if isinstance(x, int) else m.eval(ctx.z(x), model_completion=True).as_long() for x in cells])
            return r
        if isinstance(res, Panic):
            v = ctx.check()
            if v == z3.unsat:
                continue
            yield ("panic", "panic: " + res.what, [inputs()] if v == z3.sat else None, ctx)
            continue
        ret, outs = res
        if any(v is llir.UNDEF for v in outs):
            E = Env(ctx, p, ctx.ins, [0 if v is llir.UNDEF else v for v in outs], ret)
        else:
            E = Env(ctx, p, ctx.ins, outs, ret)
        pr = Prover(ctx, p)
        bad, cands = None, []
        for g in o["goal"](E):
            n = pr.neg(g)
            if n is None:
                continue
            # first with few of the definitions: quick, and a model is a candidate to replay
            mons = [m for x in gvals(g) for m in llir.poly(ctx.r(x))]
            done = False
            for dep, nm in ((2, False), (3, True)) if g[0] != "mod" else ():
                if ctx.refuted(n, mons, dep, nm):
                    done = True
                    break
                if ctx.light is not None:
                    cands.append(inputs(ctx.light))
            if done:
                continue
            v = ctx.check(n)
            if v == z3.unsat:
                continue
            if v == z3.unknown:
                bad = bad or ("unknown", g[0], cands)
                continue
            bad = ("open", g[0], [inputs()] + cands)
            break
        if bad:
            yield bad + (ctx,)
        else:
            yield ("ok", "", None, ctx)


def work(job):
    ll, so, tag, name, tier = job
    t0 = time.time()
    mod = work.mods.get(ll)
    if mod is None:
        mod = work.mods[ll] = llir.Module(open(ll).read())
    o = [x for x in OPS() if x["name"] == name][0]
    p = FIELDS[tag][1]
    st = dict(tag=tag, op=name, paths=0, queries=0, solver_s=0.0, steps=0, viol=None, undecided=[], funcs=set())

    def confirm(ins, why):
        ins = [list(x) for x in ins]
        # a model of the over-approximation may leave the canonical range of operands
        for k, kind in enumerate(list(o["sig"])):
            if kind == "F" and sum(x << (64 * i) for i, x in enumerate(ins[k])) >= p:
                return False
        got, err = irws.replay(so, "w_%s_%s" % (tag, name), ins, 16)
        if got is None:
            st["viol"] = ("%s %s: %s" % (FIELDS[tag][0], name, "the real code panics"), "inputs %s\n%s\n%s" % (ins, why, err))
            return True
        ret, out = got
        E = Env(Conc, p, ins, out, ret)
        if not conc_ok(o["goal"](E), p):
            st["viol"] = ("%s %s gives a wrong result" % (FIELDS[tag][0], name),
                          "wrapper w_%s_%s, body: %s\ninputs (64-bit words): %s\nreturned %d, output words %s\n%s" % (
                              tag, name, o["body"], [[hex(w) for w in x] for x in ins], ret, [hex(w) for w in out], why))
            return True
        return False

    def go(fixed, dl):
        opens = []
        try:
            for v, d, ins, ctx in run_op(mod, tag, o, fixed, dl):
                st["paths"] += 1
                st["queries"] += ctx.queries
                st["solver_s"] += ctx.solver_s
                st["steps"] += ctx.steps
                st["funcs"] |= ctx.funcs_seen
                if v != "ok":
                    opens.append((v, d))
                    if any(confirm(x, "%s %s" % (v, d)) for x in ins or ()):
                        return opens
        except IRError as e:
            opens.append(("unmodelled", str(e)[:200]))
        except Exception as e:
            opens.append(("unmodelled", "%s %s" % (type(e).__name__, str(e)[:160])))
            if os.environ.get("TRACE"):
                raise
        return opens
    op = go(None, t0 + 300)
    if op and not st["viol"]:
        # look for a concrete counterexample with one operand fixed (products become linear)
        fs = [k for k, kind in enumerate(o["sig"]) if kind in ("F", "R4", "R8")]
        for sv in SPECIAL(p):
            for k in fs:
                if st["viol"] or time.time() - t0 > 400:
                    break
                others = [j for j in fs if j != k]
                go({k: sv}, t0 + 400)
                if not others:
                    continue
        if not st["viol"] and o["sig"][0] in ("R4", "R8"):
            for v in (p, p + 1, p - 1, R - 1, 2 * p, R * R - 1, R - p, p << 256, ((p - 1) << 256) + p):
                n = WORDS[o["sig"][0]]
                if not st["viol"] and v < 1 << (64 * n):
                    confirm([[(v >> (64 * i)) & ((1 << 64) - 1) for i in range(n)], [0], [0]], "boundary candidate")
        if not st["viol"] and len(fs) == 2:
            for sv in SPECIAL(p)[:6]:
                for sw in SPECIAL(p)[:6]:
                    if not st["viol"]:
                        confirm([[(v >> (64 * i)) & ((1 << 64) - 1) for i in range(4)] for v in (sv, sw)] + [[0]], "candidate")
        if not st["viol"]:
            st["undecided"] = op
    st["funcs"] = sorted(st["funcs"])
    st["t"] = time.time() - t0
    return st


work.mods = {}


def demangle(n):
    m = re.findall(r"(?<!\d)\d+([A-Za-z_]\w*?)(?=\d|E|B|N|$)", n)
    return n.lstrip("@")[:120]


def check(c):
    ll, so = irws.build("irfield", wrappers())
    kind = "enc" if c.prop == "C11" else "arith"
    tags = {"C10": ["bnfr", "bnfq"], "C12": ["secp", "secq"], "C11": list(FIELDS)}[c.prop]
    jobs = [(ll, so, t, o["name"], c.tier) for o in OPS() if o["kind"] == kind for t in tags]
    funcs = set()
    with mp.Pool(8) as pool:
        for st in pool.imap_unordered(work, jobs):
            c.count("paths", st["paths"])
            c.count("queries", st["queries"])
            c.count("ir_instructions", st["steps"])
            c.count("operations")
            c.counts["solver_s"] = round(c.counts.get("solver_s", 0) + st["solver_s"], 2)
            funcs |= set(st["funcs"])
            if os.environ.get("VERBOSE"):
                print("%6.1fs %s %s paths=%d %s" % (st["t"], st["tag"], st["op"], st["paths"], st["undecided"] or ""))
            if st["viol"]:
                c.violation(*st["viol"])
            elif st["undecided"]:
                c.note("undecided: %s %s: %s" % (st["tag"], st["op"], st["undecided"][:2]))
                c.count("undecided")
    c.functions = [demangle(f) for f in sorted(funcs)][:400]
    c.bounds = {"operands": "all canonical operands; all 2^256 (2^512) integers for conversions", "fields": [FIELDS[t][0] for t in tags]}
    c.assumptions = ["LLVM IR at opt-level 0 with overflow checks is what is executed; rustc's own code generation is trusted"]
    c.samples = ["%s %s" % (j[2], j[3]) for j in jobs[:12]]
