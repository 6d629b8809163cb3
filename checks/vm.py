"""C02 (semantics), C03 (trace), C04 (circuit completeness): symbolic execution of the
real interpreter and of the real circuit synthesis over the symbolic field."""
import json, os, random, subprocess, time
import ws
from common import run

SYMFR = [("bn256", "fr")]
OPS = "><+-,."


def words(n):
    """all balanced token strings of length n over {?, [, ]}"""
    out = []

    def go(s, d):
        if len(s) == n:
            if d == 0:
                out.append(s)
            return
        if d > n - len(s):
            return
        go(s + "?", d)
        go(s + "[", d + 1)
        if d:
            go(s + "]", d - 1)
    go("", 0)
    return out


def split(w, k):
    """expand the first k '?' of w into the six simple instructions"""
    out = [w]
    for _ in range(k):
        nxt = []
        for x in out:
            i = x.find("?")
            if i < 0:
                nxt.append(x)
            else:
                nxt += [x[:i] + o + x[i + 1:] for o in OPS if not (o == "<" and i == 0)]
        out = nxt
    return out


LONG = [
    ",[-]|44", ",[->+<]|44", ",>,<[->+<]>.|40", ",[>,.<-]|30", ",[.-]|30", ",>,[<.>-]<[-]|34",
    ",[[-]]|30", ",[>+[-]<-]|40", ",[>,[>,[-]<-]<-]|34", "[[[[[[]]]]]],[-[-[-[-]]]].|20",
    ">" * 20 + "," + "<" * 20 + ",." , ">>>>>>>>,>,>,<.<.<.", "[>]", ",[>,]|24",
    "," * 24, "," * 12 + "." * 12, "+" * 300 + ".|400", "-" * 300 + ".|400",
    "," + "+" * 12 + ".", "," + "-" * 12 + ".", ",>,>,>,>,<<<<.>.>.>.>.",
    "+[>,]<[.<]|30", "[" * 10 + "+" + "]" * 10 + ",.", ",[" * 4 + "-" + "]" * 4 + "|30",
    ",[-]>,[-]<,[-].|24", "[,.]," + ">" * 9 + "[-]" + "<" * 9 + ".",
    "++++++++[>++++++++<-]>+.|200", ",>,<[>[->+>+<<]>>[-<<+>>]<<<-]>>.|60",
    ">,[>,]<[.<]|30", "+[,.]|14", ",[,.]|20", ".,.[.,].|20",
]


def tasks(prop, tier):
    t = []
    deep = tier == "thorough"
    circ = prop == "C04"
    L = 5 if deep else 4
    for n in range(1, L + 1):
        for w in words(n):
            t += split(w, 2 if n >= 4 else 1 if n == 3 else 0)
    # data-dependent loops: cell 0 (and 1) arbitrary bytes, then every shape
    for n in range(2, (6 if deep else 5)):
        for w in words(n):
            if "[" in w:
                t += split("," + w, 0) if n < 4 else [x for x in split("," + w, 1)]
                if n <= 3:
                    t.append(",>," + w)
                    t.append(",>,<" + w)
    t += LONG
    if not circ:
        # arbitrary contents of the tape at the start, one or two instructions
        t += ["?@m1", "?@m2", "?@m3", "??@m2", "[?]@m2", "?[?]@m2", "[?]?@m3", "[[?]?]@m2"]
        t += [x + "+u" for x in ("?", "??", "[?]", ",[?]", ",.", "+.", ",[-]")]
        if deep:
            t += split("???@m3", 1) + split("[??]@m3", 1) + split("?[??]@m3", 1)
            t += [",[-]|780", "+" * 600 + "|700", ",[->+>+<<]>>[-<<+>>]<.|120"]
    elif deep:
        t += [",[-]|120", ",[->+<]|150"]
    seen = set()
    return [x for x in t if not (x in seen or seen.add(x))]


def check(c):
    deep = c.tier == "thorough"
    steps = 14 if deep else 12
    c.functions = ["ckb_bf_vm::interpreter::Interpreter::{new,set_code,set_input,run} (compiled from /repo, executed on symbolic field elements)"]
    if c.prop == "C04":
        c.functions += ["ckb_bf_base::main_config::MyCircuit::{configure,synthesize} and every *_table.rs load_table/configure", "halo2_proofs floor planner and layouter"]
    c.assumptions = [
        "the symbolic field type stands for bn256::Fr, whose concrete arithmetic is checked separately (C10)",
        "challenges are generic: an equation between challenge polynomials is required to hold identically" if c.prop == "C04" else "runs that leave the tape on the left or read past the input are outside the property",
    ]
    ts = tasks(c.prop, c.tier)
    random.Random(c.seed).shuffle(ts)
    heavy = [x for x in ts if x.count("?") >= 2 or "|" in x]
    ts = heavy + [x for x in ts if x not in set(heavy)]
    c.bounds = {"tokens": "every program shape up to %d tokens with every simple instruction symbolic, every shape up to %d tokens after a read, and %d longer templates" % (5 if deep else 4, 5 if deep else 4, len(LONG)),
                "steps": steps, "input": "every byte value symbolic", "tasks": len(ts),
                "outside": "longer programs of other shapes, more executed steps"}
    bins = ws.build("symfr", "sym/harness", features="symharness/sym", symfields=SYMFR)
    native = ws.build("native", "sym/harness")
    tf = os.path.join(ws.WORK, "tasks-%s-%d" % (c.prop, os.getpid()))
    open(tf, "w").write("\n".join(ts) + "\n")
    budget = 3000 if deep else 420
    p = subprocess.Popen([os.path.join(bins, "symharness"), "vm", "--props", c.prop, "--steps", str(steps), "--tasks", tf, "--threads", "8", "--seconds", str(budget)],
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    spurious = 0
    for line in p.stdout:
        line = line.strip()
        if not line.startswith("{"):
            continue
        r = json.loads(line)
        if "violation" in r:
            cmd = [os.path.join(native, "symharness"), "vm", "--props", c.prop, "--prog", r["prog"], "--input", r["input"], "--unread", r["unread"], "--mem", r["mem"]]
            rc, out = run(cmd, timeout=300)
            if "FAILS" in out or rc not in (0,):
                c.violation("program %s input [%s]%s: %s" % (r["prog"], r["input"], " memory [%s]" % r["mem"] if r["mem"] else "", r["what"]),
                            "symbolic task %s\nreplay on the unmodified field: %s\n%s" % (r["task"], " ".join(cmd), out[-1500:]))
                if len(c.viol) >= 3:
                    p.kill()
                    break
            else:
                spurious += 1
                c.note("counterexample not confirmed by the real code (ignored): %s %s" % (r["prog"], r["what"]))
        elif r.get("skipped"):
            c.count("tasks_skipped_for_time")
        else:
            c.count("tasks_done")
            c.count("evaluations", r["paths"])
            for k in ("paths", "pruned", "forks", "queries", "unknown", "asserts", "assert_queries", "identities"):
                c.count(k, r[k])
            c.count("solver_ms", r["solver_ms"])
            if not r["complete"]:
                c.count("tasks_incomplete")
            for e in r["errors"] + r["inconclusive"]:
                c.note("inconclusive: " + e[:200])
                c.count("inconclusive")
            if len(c.samples) < 8 and r["paths"] > 3:
                c.samples.append(r)
    p.wait()
    os.remove(tf)
    c.counts.pop("evaluations", None)
    c.cov.update({"states": c.counts.get("paths", 0) + c.counts.get("forks", 0), "transitions": c.counts.get("forks", 0),
                  "traces_validated_against_impl": c.counts.get("paths", 0),
                  "explanation": "states: symbolic path ends and forks; each path end runs the real code and asserts the property for all values on that path; asserts that are not polynomial identities go to z3"})
    if not c.samples:
        c.samples.append({"tasks": ts[:5]})
