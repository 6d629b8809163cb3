"""Properties decided by executing the compiler's LLVM IR symbolically: C01 (the compiler of
Brainfuck programs)."""
import multiprocessing as mp, os, time
import z3
import irws, llir
from llir import IRError, Panic, P, Obj, INT

W01 = r'''
use alloc::vec::Vec;
#[no_mangle]
pub extern "C" fn w_c16(code: *const u8, n: *const u64, out: *mut u64) -> u64 {
    let mut v: Vec<u8> = Vec::new();
    let k = unsafe { *n } as usize;
    let mut i = 0;
    while i < k { v.push(unsafe { *code.add(i) }); i += 1; }
    let r = crate::code::compile_to_u16(v);
    let mut i = 0;
    while i < r.len() { unsafe { *out.add(i) = r[i] as u64; } i += 1; }
    r.len() as u64
}
#[no_mangle]
pub extern "C" fn w_cfr(code: *const u8, n: *const u64, out: *mut u64) -> u64 {
    let mut v: Vec<u8> = Vec::new();
    let k = unsafe { *n } as usize;
    let mut i = 0;
    while i < k { v.push(unsafe { *code.add(i) }); i += 1; }
    let r = crate::code::compile(v);
    let mut i = 0;
    while i < r.len() {
        let w: [u64; 4] = unsafe { core::mem::transmute_copy(&r[i]) };
        unsafe { *out.add(4 * i) = w[0]; *out.add(4 * i + 1) = w[1]; *out.add(4 * i + 2) = w[2]; *out.add(4 * i + 3) = w[3]; }
        i += 1;
    }
    r.len() as u64
}
pub fn keep() { core::hint::black_box((w_c16 as usize, w_cfr as usize)); }
'''
INSTR = b"<>+-,.[]"
LB, RB = 91, 93
TAG = 0x5eed


def hook_from(ctx):
    """the field element of an integer, as a tagged stand-in"""
    def from_u64(cx, a):
        if len(a) == 2:
            for k, v in enumerate((a[1], TAG, 0, 0)):
                cx.store(P(a[0].o, a[0].off + 8 * k), INT(64), v)
            return
        raise IRError("Fr::from")
    for n in list(ctx.module.declared) + list(ctx.module.funcs):
        if ("2Fr" in n and "FromyE4from" in n) or ("bn256..fr..Fr" in n and "From$LT$u64$GT$" in n and "4from" in n):
            ctx.hooks[n] = from_u64


def spec(cls, syms):
    """textbook compilation; cls: instruction byte or None per position"""
    out, st = [], []
    for c, b in zip(cls, syms):
        if c is None:
            continue
        out.append(c)
        if c == LB:
            out.append(None)
            st.append(len(out) - 1)
        elif c == RB:
            j = st.pop()
            out.append(j + 1)
            out[j] = len(out)
    return out


def shape_run(mod, fn, shape, out):
    """shape: list of bytes (fixed) or strings of allowed instruction bytes, '*' adds every other byte"""
    n = len(shape)
    left = [0] * (n + 1)
    for i in range(n - 1, -1, -1):
        s = shape[i]
        left[i] = left[i + 1] + (1 if (s == RB if isinstance(s, int) else chr(RB) in s) else 0)

    def setup(ctx):
        hook_from(ctx)
        ctx.max_steps = 60000000
        bs, cls, depth = [], [], 0
        for i, s in enumerate(shape):
            if isinstance(s, int):
                bs.append(s)
                cls.append(s if s in INSTR else None)
            else:
                b = ctx.var(8, "b%d" % i)
                bs.append(b)
                al = sorted((ord(x) for x in s if x != "*"), key=INSTR.index)
                c = None
                for ch in INSTR:
                    if ch not in al and "*" not in s:
                        continue
                    if "*" not in s and ch == al[-1]:
                        ctx.assume(ctx.z(llir.poly(b)) == ch)
                        if ctx.check() == z3.unsat:
                            raise llir.Infeasible()
                        c = ch
                        break
                    if ctx.decide(ctx.boolean("z", ctx.add(b, ch, -1))):
                        c = ch
                        break
                if "*" in s and c is not None and c not in al:
                    raise llir.Infeasible()
                cls.append(c)
            depth += (cls[-1] == LB) - (cls[-1] == RB)
            if depth < 0 or depth > left[i + 1]:
                raise llir.Infeasible()
        # a byte known to be an instruction is that number
        code = Obj(max(1, n))
        for i, b in enumerate(bs):
            ctx.store(P(code, i), INT(8), cls[i] if cls[i] is not None else ctx.r(b))
        num, res = Obj(8), Obj(8 * out)
        ctx.store(P(num), INT(64), n)
        ctx.inp = (bs, cls)
        ctx.res = res
        return ctx.call("@" + fn, [P(code), P(num), P(res)])
    return setup


def example(ctx, extra=None):
    """concrete bytes of this path"""
    bs, cls = ctx.inp
    ctx.solver.push()
    if extra is not None:
        ctx.solver.add(extra)
    r = ctx.solver.check()
    m = ctx.solver.model() if r == z3.sat else None
    ctx.solver.pop()
    if m is None:
        return None
    o = []
    for b, c in zip(bs, cls):
        if c is not None or isinstance(b, int):
            o.append(c if c is not None else b)
        else:
            v = m.eval(ctx.z(llir.poly(ctx.r(b))), model_completion=True)
            o.append(v.as_long())
    return o


PR = 0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001


def native01(so, fn, bs, out):
    words = []
    for i in range(0, max(1, len(bs)), 8):
        words.append(sum(b << (8 * k) for k, b in enumerate(bs[i:i + 8])))
    got, err = irws.replay(so, fn, [words, [len(bs)]], out)
    exp = spec([b if b in INSTR else None for b in bs], bs)
    if fn == "w_cfr":
        exp = [x for e in exp for v in [(e << 256) % PR] for x in [(v >> (64 * i)) & (2 ** 64 - 1) for i in range(4)]]
    if got is None:
        return "program %r: the real code panics\n%s" % (bytes(bs), err)
    n = got[0] * (4 if fn == "w_cfr" else 1)
    if got[1][:n] != exp or n != len(exp):
        return "program %r\ncompiled by the real code: %s\nexpected:                  %s" % (bytes(bs), got[1][:n], exp)
    return None


def work01(job):
    ll, so, fn, name, shape, dl = job
    mod = work01.mods.get(ll)
    if mod is None:
        mod = work01.mods[ll] = llir.Module(open(ll).read())
    st = dict(name=name, fn=fn, paths=0, queries=0, solver_s=0.0, steps=0, viol=None, undecided=[], funcs=set())
    t0 = time.time()
    out = (1 if fn == "w_c16" else 4) * (len(shape) + 2 * sum(x in (LB, RB) if isinstance(x, int) else 1 for x in shape)) + 16

    def settle(ctx, extra, why):
        e = example(ctx, extra)
        if e is None:
            st["undecided"].append(why + " (no model)")
            return
        v = native01(so, fn, e, out)
        if v:
            st["viol"] = v + "\n" + why
        else:
            st["undecided"].append("%s %r" % (why, bytes(e)))
    try:
        for ctx, r in llir.explore(mod, shape_run(mod, fn, shape, out), max_paths=10 ** 6):
            st["paths"] += 1
            st["queries"] += ctx.queries
            st["solver_s"] += ctx.solver_s
            st["steps"] += ctx.steps
            st["funcs"] |= ctx.funcs_seen
            if isinstance(r, Panic):
                settle(ctx, None, "panic: %s" % r)
            else:
                exp = spec(ctx.inp[1], ctx.inp[0])
                neg = []
                if not isinstance(r, int):
                    neg.append(ctx.z(llir.poly(r)) != len(exp))
                elif r != len(exp):
                    neg.append(z3.BoolVal(True))
                for i, e in enumerate(exp):
                    ws_ = [(i, e)] if fn == "w_c16" else [(4 * i, e), (4 * i + 1, TAG), (4 * i + 2, 0), (4 * i + 3, 0)]
                    for j, x in ws_:
                        g = ctx.load(P(ctx.res, 8 * j), INT(64))
                        if isinstance(g, int):
                            if g != x:
                                neg.append(z3.BoolVal(True))
                        elif g is llir.UNDEF:
                            neg.append(z3.BoolVal(True))
                        else:
                            neg.append(ctx.z(llir.poly(g)) != x)
                ng = z3.Or(neg) if neg else z3.BoolVal(False)
                v = ctx.check(ng)
                if v != z3.unsat:
                    settle(ctx, ng, "wrong entries")
            if st["viol"] or time.time() > dl:
                if not st["viol"]:
                    st["undecided"].append("time")
                break
    except IRError as e:
        st["undecided"].append("unmodelled: %s" % str(e)[:200])
    st["funcs"] = sorted(st["funcs"])
    st["t"] = time.time() - t0
    return st


work01.mods = {}


def shapes01(tier):
    th = tier == "thorough"
    full = "<>+-,.[]*"
    out = [("any %d bytes" % n, [full] * n) for n in range(0, 5 if th else 4)]
    out += [("any %d brackets and commands" % n, ["[],"] * n) for n in range(4, 11 if th else 9)]
    out += [("any %d brackets and other bytes" % n, ["[]*"] * n) for n in range(4, 8 if th else 7)]
    # operands that do not fit one byte, and brackets far apart or deep
    for k in (120, 126, 127, 253, 254, 255, 256, 300) + ((1000, 4000) if th else ()):
        out.append(("loop around %d commands" % k, ["[+"] + [43] * k + ["[]*"] * 2 + ["]."]))
    for k in (20, 70) + ((140, 300) if th else ()):
        out.append(("%d nested loops" % k, [LB] * k + ["[]*"] * 2 + [RB] * k))
        out.append(("%d loops in a row" % k, [LB, RB] * k + ["[],*"] * 3))
    # positions beyond 15 bits, and up to the last that fits
    for k in (1100, 33000, 65527):
        out.append(("loop around %d commands" % k, [LB] + [43] * k + ["*", RB, LB, RB]))
    out.append(("comments around brackets", [10, LB, 0, 32, "[]*", 255, RB, 65, "[]*", LB, "*", RB, "*"]))
    return out


# ---------------------------------------------------------------- C25: the on-chain script
CAPS = [1024, 4096, 8192, 2046, 1023]


def run25(mod, lens, obs):
    """lens: length of each witness, or None for every length up to the cap"""
    def setup(ctx):
        ctx.max_steps = 40000000
        st = dict(load=[None] * 5, n=[None] * 5, bytes=[None] * 5, params=None, vk=None, verify=[], wrong=[])
        ctx.st = st

        def flag(name):
            v = ctx.var(1, name)
            return v, ctx.decide(ctx.boolean("z", v)) == 0

        def witness(i):
            if st["load"][i] is None:
                v, bad = flag("fail%d" % i)
                kind = 0
                if bad:
                    w, k2 = flag("kind%d" % i)
                    kind = -2 if k2 else -1
                st["load"][i] = kind
                if not bad:
                    if lens[i] is None:
                        st["n"][i] = ctx.var(16, "len%d" % i, 0, CAPS[i])
                    else:
                        st["n"][i] = lens[i]
                        st["bytes"][i] = [ctx.var(8, "w%d_%d" % (i, k)) for k in range(lens[i])]
            return st["load"][i]

        def load(cx, a):
            buf, cap, off, i, src = a
            if not all(isinstance(x, int) for x in (cap, off, i, src)):
                raise IRError("load_witness arguments")
            if src != 1 or i >= 5:
                return (1 << 64) - 1
            e = witness(i)
            if e:
                return (1 << 64) + e
            n = st["n"][i]
            if isinstance(n, int):
                rest = st["bytes"][i][off:]
                for k, b in enumerate(rest[:cap]):
                    cx.store(P(buf.o, buf.off + k), INT(8), b)
                if len(rest) > cap:
                    return (1 << 64) - 3
                return len(rest)
            if off:
                raise IRError("offset into a witness of unknown length")
            # too long for the buffer?
            if cap < CAPS[i] and cx.decide(cx.boolean("n", cx.add(cap, n, -1))):
                return (1 << 64) - 3
            st.setdefault("bufs", {})[i] = (buf.o, buf.off)
            return cx.r(n)

        def same(cx, p, n, i):
            """is this slice the whole witness i?"""
            if st["load"][i] != 0:
                return False
            w = st["n"][i]
            ln = cx.add(n, w, -1)
            if isinstance(ln, int):
                if ln:
                    return False
            elif cx.check(cx.z(llir.poly(ln)) != 0) != z3.unsat:
                return False
            if not isinstance(w, int):
                o, off = st.get("bufs", {}).get(i, (None, 0))
                return p.o is o and p.off == off
            neg = []
            for k in range(w):
                d = cx.add(cx.load(P(p.o, p.off + k), INT(8)), st["bytes"][i][k], -1)
                if isinstance(d, int):
                    if d:
                        return False
                else:
                    neg.append(cx.z(llir.poly(d)) != 0)
            return not neg or cx.check(z3.Or(neg)) == z3.unsat

        def params(cx, a):
            v, bad = flag("badparams")
            st["params"] = not bad
            return 0 if bad else 7 if same(cx, a[0], a[1], 0) else 8

        def vk(cx, a):
            v, bad = flag("badvk")
            st["vk"] = not bad
            return 0 if bad else 9 if same(cx, a[0], a[1], 1) and a[2] == 2 else 10

        def verify(cx, a):
            pid, vid, sid, ins, n, proof, plen = a
            wrong = []
            if pid != 7 or sid != 7:
                wrong.append("parameters other than those of witness 0")
            if vid != 9:
                wrong.append("a key other than that of witness 1")
            if not same(cx, proof, plen, 2):
                wrong.append("a proof other than witness 2")
            exp = []
            if st["load"][3] == 0 and st["load"][4] == 0 and isinstance(st["n"][3], int) and st["n"][3] % 2 == 0:
                c, i = st["bytes"][3], st["bytes"][4]
                exp = [[len(c) // 2] + [cx.add(c[k], cx.mul(c[k + 1], 256)) for k in range(0, len(c), 2)], [len(i)] + list(i)]
            neg = []
            if n != 1:
                wrong.append("%s instances" % n)
            else:
                cols, m = cx.load(ins, llir.PTR), cx.load(P(ins.o, ins.off + 8), INT(64))
                if m != len(exp):
                    wrong.append("%s columns" % m)
                else:
                    for j, e in enumerate(exp):
                        q, ln = cx.load(P(cols.o, cols.off + 16 * j), llir.PTR), cx.load(P(cols.o, cols.off + 16 * j + 8), INT(64))
                        if ln != len(e):
                            wrong.append("column %d of length %s instead of %d" % (j, ln, len(e)))
                            continue
                        for k, v in enumerate(e):
                            for w, x in enumerate((v, 0, 0, 0)):
                                g = cx.load(P(q.o, q.off + 32 * k + 8 * w), INT(64))
                                if g is llir.UNDEF:
                                    wrong.append("undefined instance")
                                    continue
                                d = cx.add(g, x, -1)
                                if isinstance(d, int):
                                    if d:
                                        wrong.append("column %d entry %d" % (j, k))
                                else:
                                    neg.append(cx.z(llir.poly(d)) != 0)
            if neg and cx.check(z3.Or(neg)) != z3.unsat:
                wrong.append("public inputs differ from the witnesses")
                st["neg"] = z3.Or(neg)
            v, bad = flag("badproof")
            st["verify"].append(not bad)
            st["wrong"] += wrong
            return 0 if bad else 1
        ctx.hooks.update({"@vf_load": load, "@vf_params": params, "@vf_vk": vk, "@vf_verify": verify})
        return ctx.call("@w_main", [])
    return setup


def scenario(ctx, lens):
    st = ctx.st
    s = z3.Solver()
    ctx.solver.push()
    if st.get("neg") is not None:
        ctx.solver.add(st["neg"])
    m = ctx.solver.model() if ctx.solver.check() == z3.sat else None
    ctx.solver.pop()
    if m is None:
        return None

    def ev(v):
        v = ctx.r(v)
        return v if isinstance(v, int) else m.eval(ctx.z(llir.poly(v)), model_completion=True).as_long()
    head, data = [], []
    for i in range(5):
        if st["load"][i] is None or st["load"][i] == 0:
            n = ev(st["n"][i]) if st["n"][i] is not None else 2
            head.append(n)
            data += [ev(b) for b in st["bytes"][i]] if st["bytes"][i] is not None else [(37 * k + i) & 255 for k in range(n)]
        else:
            head.append((1 << 64) + st["load"][i])
    good = st["verify"][-1] if st["verify"] else True
    head += [int(st["params"] is not False), int(st["vk"] is not False), int(good)]
    return head + data


def native25(so, sc):
    """None when the real code behaves, otherwise what it did"""
    got, err = irws.replay(so, "w_native", [sc, [len(sc)]], 4)
    ok = all(x < 1 << 63 for x in sc[:5]) and all(sc[5:8]) and sc[3] % 2 == 0
    if got is None:
        return "the script crashes: %s" % err
    ret, calls, wrong = got[1][:3]
    what = "returned %s after %d calls of verify_proof, %d of them about other data than the witnesses'" % ("by panicking" if ret == 1000 else ret, calls, wrong)
    if ret == 0 and (not ok or not calls or wrong):
        return "success although %s; it %s" % ("not every step succeeded" if not ok else "the witnessed data was not verified", what)
    if ret != 0 and ok:
        return "failure although every step succeeds; it %s" % what
    return None


def work25(job):
    ll, so, name, lens, dl = job
    mod = work01.mods.get(ll)
    if mod is None:
        mod = work01.mods[ll] = llir.Module(open(ll).read())
    st = dict(name=name, fn="program_entry", paths=0, queries=0, solver_s=0.0, steps=0, viol=None, undecided=[], funcs=set())
    t0 = time.time()
    try:
        for ctx, r in llir.explore(mod, run25(mod, lens, st), max_paths=10 ** 5):
            st["paths"] += 1
            st["funcs"] |= ctx.funcs_seen
            s = ctx.st
            okay = s["load"] == [0] * 5 and s["params"] is True and s["vk"] is True and s["n"][3] % 2 == 0
            verified = bool(s["verify"]) and s["verify"][-1] and not s["wrong"]
            why = None
            if isinstance(r, Panic) or r != 0:
                # every step that was tried went well, yet the script fails
                tried = all(x in (0, None) for x in s["load"]) and s["params"] is not False and s["vk"] is not False and all(s["verify"])
                if tried and (s["n"][3] is None or s["n"][3] % 2 == 0):
                    why = "fails (%s) although no step failed" % r
            elif not (okay and verified):
                why = "returns 0 although %s" % ("nothing was verified" if not s["verify"] else "verify_proof was asked about " + "; ".join(sorted(set(s["wrong"]))[:4]) if s["wrong"] else "a step failed")
            if why:
                sc = scenario(ctx, lens)
                v = native25(so, sc) if sc else None
                if v:
                    st["viol"] = "%s\n%s\nwitness lengths (or load errors) %s, parameters readable %d, key readable %d, proof verifies %d\nwitness bytes %s" % (
                        v, why, [x if x < 1 << 63 else x - (1 << 64) for x in sc[:5]], sc[5], sc[6], sc[7], sc[8:208])
                else:
                    st["undecided"].append(why)
            st["queries"] += ctx.queries
            st["solver_s"] += ctx.solver_s
            st["steps"] += ctx.steps
            if st["viol"] or time.time() > dl:
                if not st["viol"]:
                    st["undecided"].append("time")
                break
    except IRError as e:
        st["undecided"].append("unmodelled: %s" % str(e)[:200])
    st["funcs"] = sorted(st["funcs"])
    st["t"] = time.time() - t0
    return st


def check25(c):
    ll, so = irws.build_chain()
    dl = time.time() + (600 if c.tier == "quick" else 6000)
    jobs = []
    small = [(a, b) for a in range(0, 9) for b in range(0, 7)] + [(2046, 3), (4, 1023), (2046, 1023), (2045, 1), (512, 255), (514, 256), (510, 257)]
    if c.tier == "thorough":
        small += [(a, b) for a in range(9, 40) for b in (0, 1, 5, 40)] + [(1024, 512), (2044, 1022), (2040, 1020)]
    for a, b in small:
        jobs.append((ll, so, "program %d bytes, input %d bytes, other witnesses of every length" % (a, b), [None, None, None, a, b], dl))
    for p, v, q in ((0, 0, 0), (5, 3, 4), (1, 7, 2), (1024, 2, 3), (3, 4096, 2), (2, 3, 8192), (9, 9, 9)):
        jobs.append((ll, so, "parameters, key and proof of %d, %d and %d bytes" % (p, v, q), [p, v, q, 4, 2], dl))
    funcs, und = set(), []
    with mp.Pool(8) as pool:
        for st in pool.imap_unordered(work25, jobs, chunksize=1):
            for k in ("paths", "queries"):
                c.count(k, st[k])
            c.count("ir_instructions", st["steps"])
            c.count("witness_shapes")
            c.counts["solver_s"] = round(c.counts.get("solver_s", 0) + st["solver_s"], 2)
            funcs |= set(st["funcs"])
            if os.environ.get("VERBOSE"):
                print("%6.1fs %s paths=%d %s" % (st["t"], st["name"], st["paths"], st["undecided"][:2]))
            if st["viol"]:
                if not c.viol:
                    c.violation(st["viol"].split("\n")[0], st["name"] + "\n" + st["viol"])
            elif st["undecided"]:
                c.count("undecided")
                c.note("undecided: %s: %s" % (st["name"], st["undecided"][:2]))
    if c.counts.get("undecided") and not c.viol:
        # the executor could not follow the code everywhere: scenarios are still replayed on it
        E = [(1 << 64) - 1, (1 << 64) - 2]
        base = [5, 6, 7, 6, 3]
        scs = [(base, 1, 1, 1), ([0] * 5, 1, 1, 1), (CAPS, 1, 1, 1), (base, 0, 1, 1), (base, 1, 0, 1), (base, 1, 1, 0), ([5, 6, 7, 5, 3], 1, 1, 1),
               ([1024, 4096, 8192, 2, 0], 1, 1, 1)]
        scs += [(base[:i] + [e] + base[i + 1:], 1, 1, 1) for i in range(5) for e in E]
        for ls, a, b, d in scs:
            sc = list(ls) + [a, b, d] + [(91 * k + 200) & 255 for k in range(sum(x for x in ls if x < 1 << 63))]
            v = None if c.viol else native25(so, sc)
            if v:
                c.violation(v, "scenario %s" % sc[:60])
    c.functions = [f.lstrip("@")[:120] for f in sorted(funcs)][:400]
    c.bounds = {"program witness": "0-8 bytes and 510-514, 2045, 2046 bytes, every content", "input witness": "0-6 bytes and 255-257, 1023 bytes, every content",
                "other witnesses": "every length up to the size of the script's buffers (1024, 4096, 8192)", "faults": "each load (two error codes), each read and the verification fail or succeed"}
    c.assumptions = ["the system calls, verify_proof, VerifyingKey::read and read_verifier_params are stand-ins whose results are free; ckb_std itself is not available offline",
                     "a panic ends the script with a non-zero code", "LLVM IR at opt-level 0 with overflow checks is what is executed"]
    c.samples = [j[2] for j in jobs[:12]]


# ---------------------------------------------------------------- C26, C27: the prover command
STEPS = (1 << 22) - 1


def run26(shape, least, free, blind):
    """shape: (length of the input argument or None, source length, compiled entries, parameters stored)"""
    argn, srcn, comp, stored = shape

    def setup(ctx):
        ctx.max_steps = 4000000
        g = dict(fits=True, wrong=[], tx=None, written=0, neg=[], undecided=[])
        ctx.st = g
        g["arg"] = [ctx.var(8, "i%d" % k) for k in range(argn or 0)]
        g["src"] = [ctx.var(8, "s%d" % k) for k in range(srcn)]
        g["code"] = [ctx.var(16, "c%d" % k) for k in range(comp)]
        g["steps"] = ctx.var(32, "steps", 1, STEPS)

        def eq(cx, pairs):
            """do all pairs agree for every value?"""
            neg = []
            for x, y in pairs:
                if x is llir.UNDEF:
                    return False
                d = cx.add(x, y, -1)
                if isinstance(d, int):
                    if d:
                        return False
                else:
                    neg.append(cx.z(llir.poly(d)) != 0)
            if not neg or cx.check(z3.Or(neg)) == z3.unsat:
                return True
            g["neg"].append(z3.Or(neg))
            return False

        def fr(cx, p, want):
            return [(cx.load(P(p.o, p.off + 32 * k + 8 * w), INT(64)), x) for k, v in enumerate(want) for w, x in enumerate((v, 0, 0, 0))]

        def raw(cx, p, n):
            return [cx.load(P(p.o, p.off + k), INT(8)) for k in range(n)]

        def arg(cx, a):
            i, b = a
            for k, v in enumerate(g["arg"] if i == 2 else [97 + i, 46]):
                cx.store(P(b.o, b.off + k), INT(8), v)

        def vopen(cx, a):
            b = raw(cx, a[0], a[1])
            if b == [98, 46]:
                return 0
            if len(b) > 8 and b[-9] == 255:
                return 2 if stored else 3
            return 1

        def src(cx, a):
            for k, v in enumerate(g["src"]):
                cx.store(P(a[0].o, a[0].off + k), INT(8), v)

        def compile_(cx, a):
            p, n, o = a
            if n != srcn or not eq(cx, zip(raw(cx, p, n), g["src"])):
                g["wrong"].append("something else than the source was compiled")
            for k, v in enumerate(g["code"]):
                cx.store(P(o.o, o.off + 2 * k), INT(16), v)
            return comp

        def run(cx, a):
            c, n, i, m = a
            if n == comp and m == len(g["arg"]) and eq(cx, fr(cx, c, g["code"]) + fr(cx, i, g["arg"])):
                return 1
            g["wrong"].append("the interpreter ran something else than the program on the input")
            return 0

        def rows(cx, a):
            s1 = cx.add(g["steps"], 1)
            return {0: s1, 1: cx.add(s1, comp), 2: s1, 3: len(g["arg"]), 5: comp}.get(a[0], 0)

        def fits(cx, a):
            need = cx.add(g["steps"], 1 + comp + free)
            if isinstance(a[0], int) and least <= a[0] < 40 and cx.decide(cx.boolean("n", cx.add(need, (1 << a[0]) + 1, -1))):
                g["k"] = a[0]
                return 1
            g["fits"] = False
            g["k"] = a[0]
            return 0

        def instances(cx, a):
            p, n = a
            if n != 1:
                return 0
            cols, m = cx.load(p, llir.PTR), cx.load(P(p.o, p.off + 8), INT(64))
            if m != 2:
                return 0
            pairs = []
            for j, e in enumerate(([comp] + g["code"], [len(g["arg"])] + g["arg"])):
                q, ln = cx.load(P(cols.o, cols.off + 16 * j), llir.PTR), cx.load(P(cols.o, cols.off + 16 * j + 8), INT(64))
                if ln != len(e):
                    return 0
                pairs += fr(cx, q, e)
            return int(eq(cx, pairs))

        def tx(cx, a):
            p, n = a
            bad = []
            if n < 5:
                bad.append("%s witnesses" % n)
            else:
                k = g.get("k", 0)
                kb = [(k >> (8 * i)) & 255 for i in range(4)]
                s = [42] + [0] * 7
                want = [[101] + kb + s + [1, 0, 0, 0], [103, 2] + kb + s + [1], [99] + kb + s + [1], None, g["arg"]]
                for j, w in enumerate(want):
                    q, ln = cx.load(P(p.o, p.off + 16 * j), llir.PTR), cx.load(P(p.o, p.off + 16 * j + 8), INT(64))
                    if j == 3:
                        ok = ln == 2 * comp and eq(cx, [(cx.add(cx.load(P(q.o, q.off + 2 * i), INT(8)), cx.mul(256, cx.load(P(q.o, q.off + 2 * i + 1), INT(8)))), v) for i, v in enumerate(g["code"])])
                    else:
                        ok = ln == len(w) and eq(cx, zip(raw(cx, q, ln) if ln else [], w))
                    if not ok:
                        bad.append("witness %d (%s)" % (j, ("parameters", "key", "proof", "program", "input")[j]))
            g["tx"] = bad

        def written(cx, a):
            g["written"] += a[2]

        ctx.hooks.update({"@vf_nargs": lambda cx, a: 2 if argn is None else 3, "@vf_arglen": lambda cx, a: len(g["arg"]) if a[0] == 2 else 2, "@vf_arg": arg,
                          "@vf_open": vopen, "@vf_srclen": lambda cx, a: srcn, "@vf_src": src, "@vf_compile": compile_, "@vf_run": run, "@vf_rows": rows,
                          "@vf_blinding": lambda cx, a: blind, "@vf_fits": fits, "@vf_instances": instances, "@vf_tx": tx, "@vf_written": written})
        return ctx.call("@w_main", [])
    return setup


def native26(so, prop, sc):
    """None when the real code behaves, otherwise what it did"""
    got, err = irws.replay(so, "w_native", [sc, [len(sc)]], 6)
    if got is None:
        return "the command crashes: %s" % err
    ret, nofit, written, wrong, right = got[1][:5]
    run = "a run of %d steps of a program of %d entries on %s input" % (sc[4], sc[3], "no" if sc[0] == 2 else "%d bytes of" % sc[1])
    if prop == "C26":
        return "the circuit for %s needs %d rows (%d of them beyond the instruction table) and does not fit the size the command chose" % (run, sc[3] + sc[4] + 1 + sc[5], sc[5]) if nofit else None
    if nofit:
        return None
    if ret:
        return "%s: the command fails (%s)" % (run, "panic" if ret == 1000 else ret)
    if wrong or written != 1 or not right:
        return "%s: %s" % (run, "something else was compiled or run" if wrong else "%d transactions written" % written if written != 1 else "a witness of the transaction is not what the on-chain script expects")
    return None


def work26(job):
    ll, so, prop, name, shape, least, free, blind, dl = job
    mod = work01.mods.get(ll)
    if mod is None:
        mod = work01.mods[ll] = llir.Module(open(ll).read())
    st = dict(name=name, paths=0, queries=0, solver_s=0.0, steps=0, viol=None, undecided=[], funcs=set())
    t0 = time.time()
    try:
        for ctx, r in llir.explore(mod, run26(shape, least, free, blind), max_paths=10 ** 5):
            st["paths"] += 1
            st["funcs"] |= ctx.funcs_seen
            g = ctx.st
            bad = isinstance(r, Panic) or r != 0
            if prop == "C26":
                why = None if g["fits"] else "does not fit k = %s" % g.get("k")
            elif not g["fits"]:
                why = None
            else:
                why = "; ".join(g["wrong"]) or ("fails: %s" % r if bad else None) or (None if g["written"] == 1 and g["tx"] == [] else "transaction: %s, written %s" % (g["tx"], g["written"]))
            if why:
                extra = [z3.Or(g["neg"])] if g["neg"] else []
                s = ctx.solver
                s.push()
                s.add(*extra)
                m = s.model() if s.check() == z3.sat else None
                s.pop()
                v = None
                if m is not None:
                    def ev(v):
                        v = ctx.r(v)
                        return v if isinstance(v, int) else m.eval(ctx.z(llir.poly(v)), model_completion=True).as_long()
                    argn, srcn, comp, stored = shape
                    sc = [2 if argn is None else 3, argn or 0, srcn, comp, ev(g["steps"]), free, stored, least, blind] + [ev(x) for x in g["arg"] + g["src"] + g["code"]]
                    v = native26(so, prop, sc)
                if v:
                    st["viol"] = "%s\n%s\nscenario %s" % (v, why, sc[:80])
                else:
                    st["undecided"].append(why)
            st["queries"] += ctx.queries
            st["solver_s"] += ctx.solver_s
            st["steps"] += ctx.steps
            if st["viol"] or time.time() > dl:
                if not st["viol"]:
                    st["undecided"].append("time")
                break
    except IRError as e:
        st["undecided"].append("unmodelled: %s" % str(e)[:200])
    st["funcs"] = sorted(st["funcs"])
    st["t"] = time.time() - t0
    return st


def check26(c):
    import subprocess, ws
    b = ws.build("native", "sym/harness")
    r = subprocess.run([os.path.join(b, "symharness"), "rows"], stdout=subprocess.PIPE, text=True).stdout.split()
    if len(r) != 4 or r[2] != "ok":
        raise ws.BuildError("the number of rows a run cannot use is not constant: %s" % r)
    least, free, blind = int(r[0]), int(r[1]), int(r[3])
    ll, so = irws.build_prover()
    dl = time.time() + (600 if c.tier == "quick" else 6000)
    jobs = []
    big = 6 if c.tier == "quick" else 16
    for argn in [None, 0, 1, 2, 3, big]:
        for srcn, comp in ((1, 1), (3, 2), (2, 4), (big, big), (0, 3)):
            for stored in (0, 1):
                jobs.append((ll, so, c.prop, "input %s, source of %d bytes, %d entries, parameters %s" % (argn, srcn, comp, "stored" if stored else "not stored"),
                             (argn, srcn, comp, stored), least, free, blind, dl))
    funcs = set()
    with mp.Pool(8) as pool:
        for st in pool.imap_unordered(work26, jobs, chunksize=1):
            for k in ("paths", "queries"):
                c.count(k, st[k])
            c.count("ir_instructions", st["steps"])
            c.count("shapes")
            c.counts["solver_s"] = round(c.counts.get("solver_s", 0) + st["solver_s"], 2)
            funcs |= set(st["funcs"])
            if os.environ.get("VERBOSE"):
                print("%6.1fs %s paths=%d %s" % (st["t"], st["name"], st["paths"], st["undecided"][:2]))
            if st["viol"]:
                if not c.viol:
                    c.violation(st["viol"].split("\n")[0], st["name"] + "\n" + st["viol"])
            elif st["undecided"]:
                c.count("undecided")
                c.note("undecided: %s: %s" % (st["name"], st["undecided"][:2]))
    if c.counts.get("undecided") and not c.viol:
        # the executor could not follow the code everywhere: scenarios are still replayed on it
        for argn, srcn, comp, steps, stored in ((None, 2, 2, 5, 0), (0, 2, 2, 5, 1), (3, 4, 5, 9, 0), (2, 3, 3, 500, 1), (2, 3, 3, 503, 0), (2, 3, 3, 1020, 0), (1, 2, 2, 4093, 0), (2, 3, 4, 505, 0), (0, 1, 1, 510, 0), (0, 1, 1, 511, 0)):
            sc = [2 if argn is None else 3, argn or 0, srcn, comp, steps, free, stored, least, blind] + [(91 * k + 200) & 255 for k in range((argn or 0) + srcn)] + [300 * k + 5 for k in range(comp)]
            v = None if c.viol else native26(so, c.prop, sc)
            if v:
                c.violation(v, "scenario %s" % sc[:60])
    c.functions = [f.lstrip("@")[:120] for f in sorted(funcs)][:400]
    c.bounds = {"steps of the run": "1 to %d, symbolic" % STEPS, "compiled entries": "1-4 and %d, every content" % big, "input argument": "absent, 0-3 and %d bytes, every content" % big,
                "source": "0-3 and %d bytes, every content (the compiler is C01's)" % big, "parameters": "stored by an earlier run or not"}
    c.assumptions = ["files, command line, compiler, interpreter, keys, parameters, proofs and JSON are stand-ins (sym/prover) that check what they are given",
                     "the row demand of the circuit is the instruction table's plus a constant, which is measured on the real circuit (of 2^k rows %d cannot hold instruction table entries, k at least %d)" % (free, least),
                     "LLVM IR at opt-level 0 with overflow checks is what is executed"]
    c.samples = [j[3] for j in jobs[:12]]


def check(c):
    if c.prop in ("C26", "C27"):
        return check26(c)
    if c.prop == "C25":
        return check25(c)
    ll, so = irws.build("irvm", W01, "ckb_bf_vm", ["halo2", "halo2_gadgets", "halo2_proofs", "halo2curves", "poseidon"])
    dl = time.time() + (500 if c.tier == "quick" else 6000)
    jobs = []
    for name, sh in shapes01(c.tier):
        for fn in ("w_c16", "w_cfr"):
            if fn == "w_cfr" and 140 < len(sh) < 65000 and c.tier == "quick":
                continue
            jobs.append((ll, so, fn, name, sh, dl))
    jobs.sort(key=lambda j: -(len(j[4]) ** 2 * (20 ** sum(not isinstance(x, int) for x in j[4]))))
    funcs = set()
    with mp.Pool(8) as pool:
        for st in pool.imap_unordered(work01, jobs):
            for k in ("paths", "queries"):
                c.count(k, st[k])
            c.count("ir_instructions", st["steps"])
            c.count("shapes")
            c.counts["solver_s"] = round(c.counts.get("solver_s", 0) + st["solver_s"], 2)
            funcs |= set(st["funcs"])
            if os.environ.get("VERBOSE"):
                print("%6.1fs %s %s paths=%d %s" % (st["t"], st["fn"], st["name"], st["paths"], st["undecided"][:2]))
            if st["viol"]:
                c.violation("%s: %s" % ("compile_to_u16" if st["fn"] == "w_c16" else "compile", st["viol"].split("\n")[0]), st["viol"])
            elif st["undecided"]:
                c.count("undecided")
                c.note("undecided: %s %s: %s" % (st["fn"], st["name"], st["undecided"][:2]))
    if c.counts.get("undecided") and not c.viol:
        # the executor could not follow the code: candidates are still replayed on it
        cand = [b"", b"+", b"a+b-c", b"[]", b"[[]]", b"[][]", b"[+[-]>]", b"[\0]", b"+\0+", b"\xff[", b"[" * 40 + b"]" * 40,
                b"[" + b"+" * 300 + b"]", b"[" + b"+" * 254 + b"]", b"+" * 127 + b"[]", b"[]" * 140 + b"[+]"]
        cand += [bytes([x]) + b"[.]" for x in range(0, 256) if x not in b"[]"]
        for b in cand:
            if sum((x == LB) - (x == RB) for x in b):
                continue
            for fn in ("w_c16", "w_cfr"):
                v = None if c.viol else native01(so, fn, list(b), 4 * 2 * len(b) + 16)
                if v:
                    c.violation(v.split("\n")[0], v)
    c.functions = [f.lstrip("@")[:120] for f in sorted(funcs)][:400]
    c.bounds = {"programs": [j[3] for j in jobs if j[2] == "w_c16"],
                "bytes": "every value of every free byte; sources beyond these lengths and long sources are one loop around many commands"}
    c.assumptions = ["LLVM IR at opt-level 0 with overflow checks is what is executed; rustc's own code generation is trusted",
                     "Fr::from(u64) is a stand-in carrying the integer (C10 decides it)"]
    c.samples = ["%s %s" % (j[2], j[3]) for j in jobs[:12]]
