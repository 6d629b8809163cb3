"""Scratch cargo workspaces over /repo's current tree (optionally with the
symbolic field overlay), under /verif/.work (ignored by git)."""
import os, shutil, subprocess, filecmp, fcntl, re, time, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
PINNED = "/root/.rustup/toolchains/nightly-2023-02-17-x86_64-unknown-linux-gnu/bin"
CRATES = ["ckb_bf_vm", "ckb_bf_base", "halo2", "halo2_gadgets", "halo2_proofs", "halo2curves", "poseidon"]


class BuildError(Exception):
    pass


def env(target):
    e = dict(os.environ)
    e.update({
        "PATH": "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "RUSTUP_TOOLCHAIN": "1.70.0",
        "RUSTC": PINNED + "/rustc", "RUSTDOC": PINNED + "/rustdoc",
        "RUSTC_WRAPPER": "", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never",
        "CARGO_INCREMENTAL": "0",
        "CARGO_PROFILE_DEV_OPT_LEVEL": "2", "CARGO_PROFILE_DEV_DEBUG": "0",
        "CARGO_TARGET_DIR": target,
    })
    for k in ("RUSTFLAGS", "RUST_BACKTRACE"):
        e.pop(k, None)
    e["RUSTFLAGS"] = "--cap-lints=allow"
    return e


def sync(src, dst):
    """copy a tree, keeping mtimes of unchanged files so cargo does not rebuild"""
    os.makedirs(dst, exist_ok=True)
    names = set(os.listdir(src))
    for n in os.listdir(dst):
        if n not in names and n not in ("target",):
            p = os.path.join(dst, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.remove(p)
    for n in names:
        if n in ("target", ".git"):
            continue
        s, d = os.path.join(src, n), os.path.join(dst, n)
        if os.path.isdir(s):
            sync(s, d)
        else:
            put(d, open(s, "rb").read())


def put(path, data):
    if isinstance(data, str):
        data = data.encode()
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.remove(path)
    if os.path.exists(path) and open(path, "rb").read() == data:
        return
    with open(path, "wb") as f:
        f.write(data)


def link(path, target):
    if os.path.islink(path) and os.readlink(path) == target:
        return
    if os.path.lexists(path):
        if os.path.isdir(path) and not os.path.islink(path):
            shutil.rmtree(path)
        else:
            os.remove(path)
    os.symlink(target, path)


# appended to a staged copy of a source file: names the harness needs but the crate does not export
EXPORTS = {
    ("halo2_proofs", "src/poly.rs"): "\n#[doc(hidden)]\npub mod sym_hooks {\n    pub use super::query::{CommitmentReference, Query};\n    pub fn prover_query<'a, C: halo2curves::CurveAffine>(point: C::Scalar, poly: &'a super::Polynomial<C::Scalar, super::Coeff>, blind: super::commitment::Blind<C::Scalar>) -> super::ProverQuery<'a, C> {\n        super::ProverQuery { point, poly, blind }\n    }\n}\n",
    ("poseidon", "src/spec.rs"): "\nimpl<F: FieldExt, const T: usize> State<F, T> {\n    #[doc(hidden)]\n    #[allow(missing_docs)]\n    pub fn sym_from(words: [F; T]) -> Self {\n        State(words)\n    }\n}\n",
}


def stage_exports(crate, dst, exports):
    stage = dst + ".stage"
    if os.path.exists(stage):
        shutil.rmtree(stage)
    shutil.copytree(os.path.join(REPO, crate), stage, ignore=shutil.ignore_patterns("target", ".git"))
    for (c, f), text in exports.items():
        if c == crate:
            with open(os.path.join(stage, f), "a") as o:
                o.write(text)
    sync(stage, dst)
    shutil.rmtree(stage)


def make(kind, harness, symfields=(), exports={}):
    """kind: name of the scratch workspace. symfields: subset of
    {('bn256','fr'), ('bn256','fq'), ...} replaced by symbolic types."""
    d = os.path.join(WORK, kind)
    os.makedirs(d, exist_ok=True)
    for c in CRATES:
        if c == "halo2curves" and symfields:
            p = os.path.join(d, c)
            if os.path.islink(p):
                os.remove(p)
            tmp = p
            stage_overlay(tmp, symfields)
        elif any(e[0] == c for e in exports):
            p = os.path.join(d, c)
            if os.path.islink(p):
                os.remove(p)
            stage_exports(c, p, exports)
        else:
            link(os.path.join(d, c), os.path.join(REPO, c))
    link(os.path.join(d, "harness"), os.path.join(VERIF, harness))
    put(os.path.join(d, "Cargo.toml"), '[workspace]\nmembers = ["harness"]\n')
    lock = os.path.join(d, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(VERIF, "lib", "Cargo.lock.base"), lock)
    return d


def stage_overlay(dst, symfields):
    src = os.path.join(REPO, "halo2curves")
    ov = os.path.join(VERIF, "sym", "overlay")
    stage = dst + ".stage"
    if os.path.exists(stage):
        shutil.rmtree(stage)
    shutil.copytree(src, stage, ignore=shutil.ignore_patterns("target", ".git"))
    s = os.path.join(stage, "src")
    for m, f in symfields:
        os.rename(os.path.join(s, m, f + ".rs"), os.path.join(s, m, f + "_real.rs"))
        shutil.copy(os.path.join(ov, "%s_%s.rs" % (m, f) if os.path.exists(os.path.join(ov, "%s_%s.rs" % (m, f))) else f + ".rs"),
                    os.path.join(s, m, f + ".rs"))
    shutil.copy(os.path.join(ov, "symcore.rs"), os.path.join(s, "symcore.rs"))
    shutil.copy(os.path.join(ov, "symfield.rs"), os.path.join(s, "symfield.rs"))
    lib = open(os.path.join(s, "lib.rs")).read()
    lib += "\n#[macro_use]\npub mod symfield;\npub mod symcore;\n"
    open(os.path.join(s, "lib.rs"), "w").write(lib)
    sync(stage, dst)
    shutil.rmtree(stage)


def build(kind, harness, features="", symfields=(), release=False, bins=None, exports={}):
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, kind + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = make(kind, harness, symfields, exports)
        tgt = os.path.join(WORK, kind + "-target")
        cmd = ["cargo", "build", "--offline", "-q"]
        if features:
            cmd += ["--features", features]
        r = subprocess.run(cmd, cwd=os.path.join(d, "harness") if False else d, env=env(tgt),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout[-6000:])
        return os.path.join(tgt, "debug")


ALGSYM = (("bn256", "fr"), ("bn256", "fq"), ("secp256k1", "fp"))


def build_alg():
    """-> (symbolic binary, native binary)"""
    s = build("symalg", "sym/alg", features="symalg/sym", symfields=ALGSYM, exports=EXPORTS)
    n = build("natalg", "sym/alg", exports=EXPORTS)
    return os.path.join(s, "symalg"), os.path.join(n, "symalg")
