"""Builds a copy of one /repo crate with thin wrappers appended, as LLVM IR (for the symbolic
executor) and as a shared library (for replaying counterexamples on the real code)."""
import ctypes, fcntl, glob, os, re, shutil, subprocess, sys, json
import ws

FLAGS = ["--emit=llvm-ir,link", "-C", "codegen-units=1", "-C", "debuginfo=0", "-Z", "share-generics=no",
         "-C", "symbol-mangling-version=v0"]


def build(kind, wrappers, crate="halo2curves", links=()):
    """-> (path of the .ll, path of the .so)"""
    d = os.path.join(ws.WORK, kind)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(ws.WORK, kind + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stage = os.path.join(d, crate + ".stage")
        if os.path.exists(stage):
            shutil.rmtree(stage)
        shutil.copytree(os.path.join(ws.REPO, crate), stage, ignore=shutil.ignore_patterns("target", ".git"))
        lib = os.path.join(stage, "src", "lib.rs")
        with open(lib, "a") as f:
            f.write("\n#[allow(warnings)]\n#[doc(hidden)]\npub mod verifw;\n")
        with open(os.path.join(stage, "src", "verifw.rs"), "w") as f:
            f.write(wrappers)
        ws.sync(stage, os.path.join(d, crate))
        shutil.rmtree(stage)
        for l in links:
            ws.link(os.path.join(d, l), os.path.join(ws.REPO, l))
        ws.put(os.path.join(d, "so", "Cargo.toml"),
               '[package]\nname="verifso"\nversion="0.1.0"\nedition="2021"\n[lib]\ncrate-type=["cdylib"]\n[dependencies]\n%s={path="../%s"}\n' % (crate, crate))
        ws.put(os.path.join(d, "so", "src", "lib.rs"), "pub use %s::verifw::*;\n#[used] pub static KEEP: fn() = %s::verifw::keep;\n" % (crate, crate))
        ws.put(os.path.join(d, "Cargo.toml"), '[workspace]\nmembers=["%s","so"]\n' % crate)
        lock = os.path.join(d, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copy(os.path.join(ws.VERIF, "lib", "Cargo.lock.base"), lock)
        tgt = os.path.join(ws.WORK, kind + "-target")
        e = ws.env(tgt)
        e["CARGO_PROFILE_DEV_OPT_LEVEL"] = "0"
        for f in glob.glob(os.path.join(tgt, "debug", "deps", crate + "-*.ll")):
            os.remove(f)
        # the IR build has its own profile flags, hence its own target directory
        e2 = dict(e)
        e2["CARGO_TARGET_DIR"] = tgt + "-ir"
        for f in glob.glob(os.path.join(tgt + "-ir", "debug", "deps", crate + "-*.ll")):
            os.remove(f)
        src = os.path.join(d, crate, "src", "lib.rs")
        os.utime(src)
        r = subprocess.run(["cargo", "rustc", "--offline", "-q", "-p", crate, "--lib", "--"] + FLAGS, cwd=d, env=e2,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ws.BuildError(r.stdout[-6000:])
        ll = glob.glob(os.path.join(tgt + "-ir", "debug", "deps", crate + "-*.ll"))
        if len(ll) != 1:
            raise ws.BuildError("expected one .ll, found %s" % ll)
        r = subprocess.run(["cargo", "build", "--offline", "-q", "-p", "verifso"], cwd=d, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ws.BuildError(r.stdout[-6000:])
        return ll[0], os.path.join(tgt, "debug", "libverifso.so")


def build_chain():
    """the on-chain script over the stand-ins of sym/chain -> (.ll, .so)"""
    kind = "irchain"
    d = os.path.join(ws.WORK, kind)
    os.makedirs(d, exist_ok=True)
    sh = os.path.join(ws.VERIF, "sym", "chain")
    with open(os.path.join(ws.WORK, kind + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = os.path.join(ws.REPO, "ckb_bf_verifier", "src")
        dst = os.path.join(d, "chain", "src", "prog")
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        pre = "#[allow(unused_imports)]\nuse crate::shims::{alloc, ckb_bf_base, ckb_std, halo2_gadgets, halo2_proofs, halo2curves};\n"
        for r, _, fs in os.walk(src):
            for f in fs:
                p = os.path.join(r, f)
                rel = os.path.relpath(p, src)
                if rel == "lib.rs" or not f.endswith(".rs"):
                    continue
                out, skip = [], False
                for l in open(p).read().split("\n"):
                    if l.strip().startswith("#![") or re.match(r"\s*extern crate alloc\s*;", l):
                        continue
                    out.append(l)
                ws.put(os.path.join(dst, "mod.rs" if rel == "main.rs" else rel), pre + "\n".join(out))
        ws.put(os.path.join(d, "chain", "src", "lib.rs"), open(os.path.join(sh, "shim.rs")).read())
        ws.put(os.path.join(d, "so", "src", "lib.rs"), open(os.path.join(sh, "native.rs")).read())
        ws.put(os.path.join(d, "chain", "Cargo.toml"), '[package]\nname="chain"\nversion="0.1.0"\nedition="2021"\n')
        ws.put(os.path.join(d, "so", "Cargo.toml"), '[package]\nname="verifso"\nversion="0.1.0"\nedition="2021"\n[lib]\ncrate-type=["cdylib"]\n[dependencies]\nchain={path="../chain"}\n')
        ws.put(os.path.join(d, "Cargo.toml"), '[workspace]\nmembers=["chain","so"]\n')
        tgt = os.path.join(ws.WORK, kind + "-target")
        e = ws.env(tgt)
        e["CARGO_PROFILE_DEV_OPT_LEVEL"] = "0"
        e2 = dict(e, CARGO_TARGET_DIR=tgt + "-ir")
        for f in glob.glob(os.path.join(tgt + "-ir", "debug", "deps", "chain-*.ll")):
            os.remove(f)
        os.utime(os.path.join(d, "chain", "src", "lib.rs"))
        for cmd, en in ((["cargo", "rustc", "--offline", "-q", "-p", "chain", "--lib", "--"] + FLAGS, e2),
                        (["cargo", "build", "--offline", "-q", "-p", "verifso"], e)):
            r = subprocess.run(cmd, cwd=d, env=en, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise ws.BuildError(r.stdout[-6000:])
        ll = glob.glob(os.path.join(tgt + "-ir", "debug", "deps", "chain-*.ll"))
        if len(ll) != 1:
            raise ws.BuildError("expected one .ll, found %s" % ll)
        return ll[0], os.path.join(tgt, "debug", "libverifso.so")


RUNNER = r'''
import ctypes, json, sys
so, fn, ins, nout = json.loads(sys.stdin.read())
L = ctypes.CDLL(so)
bufs = []
for w in ins:
    b = (ctypes.c_uint64 * max(1, len(w)))(*w)
    bufs.append(b)
o = (ctypes.c_uint64 * max(1, nout))()
f = getattr(L, fn)
f.restype = ctypes.c_uint64
r = f(*[ctypes.byref(b) for b in bufs], ctypes.byref(o))
print(json.dumps([r, list(o)]))
'''


def replay(so, fn, ins, nout):
    """run a wrapper natively in a child process -> (ret, out words) or None when it panicked"""
    r = subprocess.run([sys.executable, "-c", RUNNER], input=json.dumps([so, fn, ins, nout]), text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        return None, r.stderr[-800:]
    v = json.loads(r.stdout.strip().split("\n")[-1])
    return v, ""

def build_prover():
    """the prover command over the stand-ins of sym/prover -> (.ll, .so)"""
    kind = "irprover"
    d = os.path.join(ws.WORK, kind)
    os.makedirs(d, exist_ok=True)
    sh = os.path.join(ws.VERIF, "sym", "prover")
    names = ["ckb_bf_base", "ckb_bf_prover", "ckb_bf_vm", "ckb_hash", "ckb_jsonrpc_types", "ckb_mock_tx_types", "ckb_types", "env_logger", "format",
             "halo2_gadgets", "halo2_proofs", "halo2curves", "log", "rand", "rand_xorshift", "serde_json", "String"]
    pre = "#[allow(unused_imports)]\nuse crate::shims::{%s};\n" % ", ".join(names)
    with open(os.path.join(ws.WORK, kind + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = os.path.join(ws.REPO, "ckb_bf_prover", "src")
        dst = os.path.join(d, "prov", "src")
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        for f in sorted(os.listdir(src)):
            if f == "lib.rs" or not f.endswith(".rs"):
                continue
            t = "\n".join(l for l in open(os.path.join(src, f)).read().split("\n") if not l.strip().startswith("#!["))
            t = re.sub(r"(?m)^fn main\(", "pub fn main(", t)
            t = re.sub(r"(?<![:\w])std::", "crate::shims::std::", t)
            ws.put(os.path.join(dst, {"main.rs": "prog.rs", "ckb_tx.rs": "tx.rs"}.get(f, f)), pre + t)
        ws.put(os.path.join(d, "res", "dummy_tx.json"), "{}")
        ws.put(os.path.join(dst, "lib.rs"), open(os.path.join(sh, "shim.rs")).read())
        ws.put(os.path.join(d, "so", "src", "lib.rs"), open(os.path.join(sh, "native.rs")).read())
        ws.put(os.path.join(d, "prov", "Cargo.toml"), '[package]\nname="prov"\nversion="0.1.0"\nedition="2021"\n')
        ws.put(os.path.join(d, "so", "Cargo.toml"), '[package]\nname="verifso"\nversion="0.1.0"\nedition="2021"\n[lib]\ncrate-type=["cdylib"]\n[dependencies]\nprov={path="../prov"}\n')
        ws.put(os.path.join(d, "Cargo.toml"), '[workspace]\nmembers=["prov","so"]\n')
        tgt = os.path.join(ws.WORK, kind + "-target")
        e = ws.env(tgt)
        e["CARGO_PROFILE_DEV_OPT_LEVEL"] = "0"
        e2 = dict(e, CARGO_TARGET_DIR=tgt + "-ir")
        for f in glob.glob(os.path.join(tgt + "-ir", "debug", "deps", "prov-*.ll")):
            os.remove(f)
        os.utime(os.path.join(dst, "lib.rs"))
        for cmd, en in ((["cargo", "rustc", "--offline", "-q", "-p", "prov", "--lib", "--"] + FLAGS, e2),
                        (["cargo", "build", "--offline", "-q", "-p", "verifso"], e)):
            r = subprocess.run(cmd, cwd=d, env=en, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise ws.BuildError(r.stdout[-6000:])
        ll = glob.glob(os.path.join(tgt + "-ir", "debug", "deps", "prov-*.ll"))
        if len(ll) != 1:
            raise ws.BuildError("expected one .ll, found %s" % ll)
        return ll[0], os.path.join(tgt, "debug", "libverifso.so")
