"""C05-C09: what every satisfying assignment of the real circuit must look like."""
import json, multiprocessing, os, random, subprocess, sys, tempfile, time
import z3
import ws
from common import run
from circ import Circuit, Search, PR, isconst, cval, padd, pconst

OPC = {c: ord(c) for c in "+-<>.,[]"}


def T(S, s, name):
    cell = S.c.tags.get(name)
    if cell is None:
        return None
    return S.cellpoly(s, ("a",) + cell)


def sub(p, q):
    return padd(p, q, -1)


def Zf(S, env, p):
    """p == 0 as a formula (python bool when syntactically decided)"""
    if isconst(p):
        return z3.BoolVal(cval(p) == 0)
    return S.zzero(p, env)


def meta(S):
    N, n, I, O = S.c.d["shape"]
    prog = S.c.inst[0][1:]
    return N, n, I, O, prog


def g_boundary(S, s, env):
    N, n, I, O, prog = meta(S)
    out = []
    for f in ("clk", "ip", "mp", "mv"):
        out.append(("first row %s is zero" % f, Zf(S, env, T(S, s, "p.%s.0" % f)), "v"))
    l = N - 1
    out.append(("last row position is past the end", Zf(S, env, sub(T(S, s, "p.ip.%d" % l), pconst(len(prog)))), "v"))
    out.append(("last row current instruction is zero", Zf(S, env, T(S, s, "p.ci.%d" % l)), "v"))
    out.append(("last row next instruction is zero", Zf(S, env, T(S, s, "p.ni.%d" % l)), "v"))
    return out


def g_program(S, s, env):
    N, n, I, O, prog = meta(S)
    L = len(prog)
    at = lambda j: prog[j] if j < L else 0
    out = []
    for r in range(N):
        ip, ci, ni = (T(S, s, "p.%s.%d" % (f, r)) for f in ("ip", "ci", "ni"))
        alts = []
        for j in range(L + 1):
            if isconst(ip) and cval(ip) != j:
                continue
            alts.append(z3.And(Zf(S, env, sub(ip, pconst(j))), Zf(S, env, sub(ci, pconst(at(j)))), Zf(S, env, sub(ni, pconst(at(j + 1))))))
        out.append(("row %d executes the public program" % r, z3.Or(alts) if alts else z3.BoolVal(False), "v"))
    if (0, 0) in S.c.sym_instance:
        p = S.cellpoly(s, ("i", 0, 0))
        out.append(("public program length is the number of entries checked", Zf(S, env, sub(p, pconst(L))), "v"))
    return out


def ops(S, s, N):
    r = []
    for k in range(N):
        p = T(S, s, "p.ci.%d" % k)
        if not isconst(p):
            return None
        r.append(cval(p))
    return r


def g_io(S, s, env):
    N, n, I, O, prog = meta(S)
    o = ops(S, s, N)
    if o is None:
        S.inconclusive.append("io: instruction not determined")
        return []
    out = []
    reads = [r for r in range(N - 1) if o[r] == OPC[","]]
    nin = I
    out.append(("number of values read is the number of inputs", z3.BoolVal(len(reads) == nin), "v"))
    if len(reads) == nin:
        for k, r in enumerate(reads):
            out.append(("value %d read is the public input" % k, Zf(S, env, sub(T(S, s, "p.mv.%d" % (r + 1)), S.cellpoly(s, ("i", 1, k + 1)))), "v"))
    if (1, 0) in S.c.sym_instance:
        out.append(("public input length is the number of values read", Zf(S, env, sub(S.cellpoly(s, ("i", 1, 0)), pconst(len(reads)))), "v"))
    writes = [r for r in range(N - 1) if o[r] == OPC["."]]
    out.append(("number of values written is the number of outputs", z3.BoolVal(len(writes) == O), "v"))
    if len(writes) == O:
        for k, r in enumerate(writes):
            out.append(("output %d is the value written" % k, Zf(S, env, sub(T(S, s, "p.mv.%d" % r), T(S, s, "o.val.%d" % k))), "v"))
    return out


def ordered(S, s, env, N):
    c = []
    for r in range(N - 1):
        m0, m1, c0, c1 = (T(S, s, x % k) for x, k in (("m.mp.%d", r), ("m.mp.%d", r + 1), ("m.clk.%d", r), ("m.clk.%d", r + 1)))
        if None in (m0, m1, c0, c1):
            return z3.BoolVal(True)
        same = Zf(S, env, sub(m1, m0))
        later = z3.And(S.zrange(sub(sub(c1, c0), pconst(1)), N, env))
        c.append(z3.Or(z3.Not(same), later))
    return z3.And(c) if c else z3.BoolVal(True)


def g_memory(S, s, env):
    N, n, I, O, prog = meta(S)
    out = []
    mp = [T(S, s, "p.mp.%d" % r) for r in range(N)]
    mv = [T(S, s, "p.mv.%d" % r) for r in range(N)]
    ordd = None
    dom = z3.BoolVal(True)
    for r in range(1, N):
        dom = z3.And(dom, S.zrange(mp[r], N, env))
        moved = sub(mp[r], mp[r - 1])
        if isconst(moved) and cval(moved) == 0:
            continue
        mvd = z3.Not(Zf(S, env, moved))
        want = Zf(S, env, mv[r])
        for q in range(r - 1):
            d = sub(mp[r], mp[q])
            if isconst(d) and cval(d):
                continue
            want = z3.If(Zf(S, env, d), Zf(S, env, sub(mv[r], mv[q])), want)
        if ordd is None:
            ordd = ordered(S, s, env, N)
        out.append(("row %d finds the cell as it was left" % r, z3.Implies(z3.And(dom, mvd, ordd), want), "v"))
        out.append(("row %d finds the cell as it was left (memory table out of time order)" % r, z3.Implies(z3.And(dom, mvd), want), "unordered"))
    return out


def g_step(S, s, env):
    N, n, I, O, prog = meta(S)
    out = []
    o = ops(S, s, N)
    if o is None:
        S.inconclusive.append("step: instruction not determined")
        return []
    for r in range(N):
        out.append(("row %d cell value is a byte" % r, S.zrange(T(S, s, "p.mv.%d" % r), 255, env), "v"))
    for r in range(N - 1):
        if o[r] not in OPC.values():
            continue
        out += [("row %d %s" % (r, nm), f, "v") for nm, f in step_formula(S, s, env, chr(o[r]), lambda nm, k: T(S, s, "p.%s.%d" % (nm, r + k)))]
    return out


def step_formula(S, s, env, op, get):
    out = []
    c0, c1 = get("clk", 0), get("clk", 1)
    out.append(("clock", Zf(S, env, sub(sub(c1, c0), pconst(1)))))
    ip0, ip1, ni, mv0, mv1 = get("ip", 0), get("ip", 1), get("ni", 0), get("mv", 0), get("mv", 1)
    mp0, mp1 = get("mp", 0), get("mp", 1)
    if op in "[]":
        z = Zf(S, env, mv0)
        if op == "]":
            z = z3.Not(z)
        out.append(("jump of %s" % op, z3.If(z, Zf(S, env, sub(ip1, ni)), Zf(S, env, sub(sub(ip1, ip0), pconst(2))))))
    else:
        out.append(("position after %s" % op, Zf(S, env, sub(sub(ip1, ip0), pconst(1)))))
    d = {"<": PR - 1, ">": 1}.get(op, 0)
    out.append(("cell pointer after %s" % op, Zf(S, env, sub(sub(mp1, mp0), pconst(d)))))
    if op in "[].":
        out.append(("cell value after %s" % op, Zf(S, env, sub(mv1, mv0))))
    if op in "+-":
        e, w = (pconst(1), 255) if op == "+" else (pconst(PR - 1), 0)
        wrap = Zf(S, env, sub(mv0, pconst(w)))
        out.append(("cell value after %s" % op, z3.If(wrap, Zf(S, env, sub(mv1, pconst(255 - w))), Zf(S, env, sub(sub(mv1, mv0), e)))))
    return out


GOALS = {"C05": g_step, "C06": g_program, "C07": g_io, "C08": g_memory, "C09": g_boundary}


def adapt(g):
    """goals of kind 'unordered' are only reported as the known finding"""
    def f(S, s, env):
        for name, fm, kind in g(S, s, env):
            if kind == "v":
                yield name, fm
            elif kind == "unordered" and not getattr(S, "unordered_seen", False):
                S.try_unordered = name
                yield "UNORDERED " + name, fm
    return f


def explore(job):
    prop, prog, inp, dump, seconds, native = job
    d = json.loads(dump)
    I = d["shape"][2]
    sym = {(1, k + 1) for k in range(I)} | {(0, 0), (1, 0)}
    c = Circuit(d, sym)
    S = Search(c, [adapt(GOALS[prop])], seconds=seconds)
    S.pub_range = {(1, k + 1): 255 for k in range(I)}
    t = time.time()
    res = {"prog": prog, "input": inp, "shape": d["shape"], "found": [], "unconfirmed": []}
    if not d["same_layout"]:
        S.inconclusive.append("layout depends on the values")
    try:
        ok = S.run()
    except Exception as e:
        import traceback
        S.inconclusive.append("engine error: " + traceback.format_exc()[-400:])
        ok = False
    if S.found:
        rc, out = run([native, "forge", "--prog", prog, "--input", ",".join(map(str, inp))], timeout=120)
        ch = [int(x, 16) for x in out.split("CHALLENGES ")[1].split("\n")[0].split(",") if x]
        for name, val, st in S.found:
            get, why = S.complete(val, ch)
            if get is None:
                res["unconfirmed"].append("%s: %s" % (name, why))
                continue
            lines = []
            for cell in c.honest:
                v = get(("a",) + cell)
                if v != c.honest[cell]:
                    lines.append("%d %d 0x%x" % (cell[0], cell[1], v))
            for (cc, rr) in sorted(c.sym_instance):
                lines.append("inst %d %d 0x%x" % (cc, rr, get(("i", cc, rr))))
            fd, fn = tempfile.mkstemp(prefix="forge")
            os.write(fd, ("\n".join(lines) + "\n").encode())
            os.close(fd)
            rc, out = run([native, "forge", "--prog", prog, "--input", ",".join(map(str, inp)), "--cells", fn], timeout=120)
            os.remove(fn)
            rows = []
            for r in range(d["shape"][0]):
                rows.append(" ".join("%s=%s" % (f, short(get(("a",) + c.tags["p.%s.%d" % (f, r)]))) for f in ("clk", "ip", "ci", "ni", "mp", "mv")))
            pub = "public: " + ", ".join("%d/%d=%d" % (a, b, get(("i", a, b))) for a, b in sorted(c.sym_instance))
            if "ACCEPTED" in out:
                res["found"].append({"name": name, "cells": lines, "rows": rows, "pub": pub})
            else:
                res["unconfirmed"].append("%s: MockProver %s" % (name, out[-300:]))
    res.update({"leaves": S.leaves, "branches": S.branches, "queries": S.queries, "solver_s": S.solver_s, "inconclusive": sorted(set(S.inconclusive)), "wall": time.time() - t, "cells": len(c.names), "constraints": len(c.cons) + len(c.cons2)})
    return res


def short(v):
    return str(v) if v < 1 << 32 else ("-%d" % (PR - v) if PR - v < 1 << 32 else hex(v))


QUICK = [
    ("+", []), ("-", []), (">", []), (",", [7]), (".", []), ("+.", []), (",.", [7]), (",+", [7]), (",-", [7]),
    ("[]", []), ("[+]", []), ("+[-]", []), (">+<.", []), (",>,<.", [3, 4]), (",>.<.", [9]), ("><", []), ("+>+<", []),
    (",[-]", [1]), (",.,.", [0, 5]), ("-+", []), ("+-.", []), (">>", []), (">,<,>.", [5, 6]), ("[[]]", []), ("+>++<-", []), (",[]", [0]), (">-<,", [0]),
]
DEEP = QUICK + [
    (",[.-]", [1]), ("+[>+<-]", []), (",>,<[-]", [1, 2]),
    (",[-]>+.", [2]), ("+[>+<-]>.", []), (",>,[<.>-]", [3, 1]), ("+[[-]]", []), (",[>,.<-]", [1, 8]), (">>+<<,.", [1]), ("+>+>+<<.", []),
    (",+,-,.", [1, 2, 3]), ("++[-].", []), ("[>]+<>.", []), (",[[-]>+<]>.", [1]), (">+>+<.<.", []),
]


def check(c):
    deep = c.tier == "thorough"
    progs = DEEP if deep else QUICK
    native = os.path.join(ws.build("native", "sym/harness"), "symharness")
    r = subprocess.run([native, "layout"], input="\n".join("%s|%s" % (p, ",".join(map(str, i))) for p, i in progs) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    dumps = r.stdout.strip().split("\n")
    if len(dumps) != len(progs):
        # the layout itself could not be produced for an honest run (C04's business)
        c.note("layout dump incomplete: %d of %d" % (len(dumps), len(progs)))
    jobs = [(c.prop, p, i, d, 2400 if deep else 240, native) for (p, i), d in zip(progs, dumps) if d.startswith("{")]
    c.functions = ["constraint system of ckb_bf_base::main_config::MyCircuit::configure and the layout of its synthesize (dumped from the compiled code): every gate, lookup, selector, fixed value and copy constraint"]
    c.bounds = {"programs": len(jobs), "processor_rows_max": max(json.loads(j[3])["shape"][0] for j in jobs) if jobs else 0,
                "cells": "every advice cell ranges over the whole field; public input values over all bytes; public lengths over the whole field", "outside": "longer traces (the row-local part of C05 has no such bound)"}
    c.assumptions = ["an equation between challenge polynomials over cells committed before the challenges holds identically (Schwartz-Zippel)", "the proof system enforces gates, lookups and copies (C16-C20 cover parts of that)"]
    with multiprocessing.Pool(8) as pool:
        for res in pool.imap_unordered(explore, sorted(jobs, key=lambda j: -json.loads(j[3])["shape"][1])):
            for k in ("leaves", "branches", "queries"):
                c.count(k, res[k])
            c.count("solver_ms", int(res["solver_s"] * 1000))
            c.count("constraints", res["constraints"])
            if os.environ.get("VERBOSE"):
                print(res["prog"], round(res["wall"], 1), res["leaves"], res["branches"])
            if res["inconclusive"]:
                c.count("inconclusive_programs")
                for x in res["inconclusive"]:
                    c.note("%s: %s" % (res["prog"], x))
            for x in res["unconfirmed"]:
                c.note("%s: candidate not confirmed: %s" % (res["prog"], x[:300]))
            for f in res["found"]:
                if f["name"].startswith("UNORDERED") and c.known_finding("unordered-memory-rows"):
                    continue
                if len(c.viol) < 3:
                    c.violation("program %s: accepted assignment where it is false that %s" % (res["prog"], f["name"]),
                                "forged cells (replay: %s forge --prog '%s' --input '%s' --cells <file with the lines below>): MockProver accepts\n%s\nprocessor rows:\n%s\nforged:\n%s" % (native, res["prog"], ",".join(map(str, res["input"])), f["pub"], "\n".join(f["rows"]), "\n".join(f["cells"])))
            if len(c.samples) < 6:
                c.samples.append({k: res[k] for k in ("prog", "shape", "leaves", "branches", "queries", "cells", "constraints")})
    c.cov.update({"states": c.counts.get("branches", 0) + c.counts.get("leaves", 0), "transitions": c.counts.get("branches", 0), "traces_validated_against_impl": len(jobs)})
