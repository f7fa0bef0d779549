"""Builds, from /repo's current working tree, what a check needs:
  * the symbolic executor (engine/)
  * per harness binary: the optimised, fully linked LLVM IR of harness + flatcitybuf + every dependency + std
  * the same harness binary as native code (for validation and replay)
"""
import glob, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FCB_REPO", "/repo")
BUILD = os.environ.get("FCB_BUILD", VERIF + "/build")
WS = BUILD + "/ws"
TARGET = BUILD + "/target"
ENGINE = BUILD + "/engine"
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
RUSTFLAGS = " ".join([
    "-C save-temps", "-C no-vectorize-loops", "-C no-vectorize-slp",
    "-C link-arg=-Wl,--unresolved-symbols=ignore-all",
    "--cfg fcb_verif", "--check-cfg cfg(fcb_verif)".replace(" cfg", "=cfg"),
    "-A warnings",
])
PROFILE = """
[profile.sym]
inherits = "release"
panic = "abort"
opt-level = 2
lto = "fat"
codegen-units = 16
debug = 0
strip = "none"
overflow-checks = true
debug-assertions = true
incremental = false

[profile.sym.build-override]
opt-level = 0
overflow-checks = false
debug-assertions = false

[profile.sym.package.fcb_core]
debug = "line-tables-only"
[profile.sym.package.harness]
debug = "line-tables-only"

[patch.crates-io]
reqwest12 = { package = "reqwest", path = "VERIF/harness/stubs/reqwest12" }
reqwest11 = { package = "reqwest", path = "VERIF/harness/stubs/reqwest11" }
bson = { path = "VERIF/harness/stubs/bson" }
serde_cbor = { path = "VERIF/harness/stubs/serde_cbor" }
prettytable = { path = "VERIF/harness/stubs/prettytable" }
cjseq2 = { path = "BUILD/cjseq2" }
""".replace("VERIF", VERIF).replace("BUILD", BUILD)


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
            del e[k]
    e.update(
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="", CARGO_INCREMENTAL="0", RUSTC_BOOTSTRAP="",
    )
    del e["RUSTC_BOOTSTRAP"]
    return e


def write_if_changed(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(text)


def run(cmd, cwd, e, log, timeout):
    with open(log, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise BuildError(f"timed out: {' '.join(cmd)}")
    if r.returncode != 0:
        tail = "".join(open(log).readlines()[-60:])
        raise BuildError(f"failed ({r.returncode}): {' '.join(cmd)}\n{tail}")


def engine(timeout=600):
    e = env()
    e["CARGO_TARGET_DIR"] = ENGINE
    os.makedirs(ENGINE, exist_ok=True)
    run(["cargo", "build", "--release", "--offline"], VERIF + "/engine", e, ENGINE + "/build.log", timeout)
    return ENGINE + "/release/fcbsym"


def cjseq():
    """cjseq2 as published, but built as an rlib only (its manifest also asks for a cdylib, which costs a link)."""
    src = sorted(glob.glob("/root/.cargo/registry/src/*/cjseq2-0.1.1"))
    if not src:
        raise BuildError("cjseq2 0.1.1 is not in the cargo registry")
    dst = BUILD + "/cjseq2"
    for d, _, fs in os.walk(src[0] + "/src"):
        for f in fs:
            p = os.path.join(d, f)
            write_if_changed(dst + p[len(src[0]):], open(p).read())
    write_if_changed(dst + "/Cargo.toml", """[package]
name = "cjseq2"
version = "0.1.1"
edition = "2021"
autobins = false
[lib]
path = "src/lib.rs"
[dependencies]
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
thiserror = "1.0"
rand = "0.8.5"
reqwest = { version = "0.11", features = ["blocking", "json"] }
[workspace]
""")


def cli_package():
    """the package of the bins that run the command line program: its sources, copied, with a way to call `main`"""
    src, dst = f"{REPO}/src/rust/cli", WS + "/harness_cli"
    names = sorted(os.path.basename(f)[:-3] for f in glob.glob(VERIF + "/harness/cli/*.rs"))
    deps = re.search(r"(?ms)^\[dependencies\]\s*$(.*?)(?=^\[|\Z)", open(src + "/Cargo.toml").read())[1]
    deps = re.sub(r"(?m)^clap\b.*$", "", deps)
    text = f"""[package]
name = "harness_cli"
version = "0.1.0"
edition = "2021"
autobins = false
[dependencies]
{deps}
clap = {{ package = "clapshim", path = "{VERIF}/harness/stubs/clapshim" }}
harness = {{ path = "../harness" }}
symrt = {{ path = "../harness/symrt" }}
"""
    for n in names:
        text += f'[[bin]]\nname = "{n}"\npath = "bin/{n}.rs"\n'
        write_if_changed(f"{dst}/bin/{n}.rs", open(f"{VERIF}/harness/cli/{n}.rs").read())
    write_if_changed(dst + "/Cargo.toml", text)
    for d, _, fs in os.walk(src + "/src"):
        for f in fs:
            s = open(os.path.join(d, f), "rb").read().decode()
            rel = os.path.relpath(os.path.join(d, f), src + "/src")
            if rel == "main.rs":
                s += "\n/// what the process would end with\npub(crate) fn run_main() -> impl std::process::Termination { main() }\n"
            write_if_changed(f"{dst}/cli/{rel}", s)


def overlay(cli=False):
    text = open(f"{REPO}/src/rust/Cargo.toml").read()
    for table in ("package", "dependencies"):
        text = re.sub(rf"(?ms)^\[{table}\].*?(?=^\[|\Z)", "", text)
    text, n = re.subn(r"(?ms)^members\s*=\s*\[.*?\]", 'members = ["fcb_core", "harness"' + (', "harness_cli"' if cli else '') + ']', text)
    if n != 1:
        raise BuildError("no members line in src/rust/Cargo.toml")
    os.makedirs(WS, exist_ok=True)
    for link, to in (("fcb_core", f"{REPO}/src/rust/fcb_core"), ("harness", VERIF + "/harness"), ("cli", f"{REPO}/src/rust/cli")):
        p = f"{WS}/{link}"
        if os.path.islink(p) and os.readlink(p) != to:
            os.unlink(p)
        if not os.path.islink(p):
            os.symlink(to, p)
    write_if_changed(WS + "/Cargo.toml", text + PROFILE)
    if cli:
        cli_package()
    cjseq()
    lock = WS + "/Cargo.lock"
    src = VERIF + "/harness/workspace.lock"
    if os.path.exists(src):
        shutil.copyfile(src, lock)
    elif not os.path.exists(lock):
        shutil.copyfile("/opt/vp/ws/Cargo.lock", lock)


def build(bins, timeout=800):
    """-> {bin: (ll path, native path)}"""
    cli = any(os.path.exists(f"{VERIF}/harness/cli/{b}.rs") for b in bins)
    overlay(cli)
    e = env()
    e["CARGO_TARGET_DIR"] = TARGET
    e["RUSTFLAGS"] = RUSTFLAGS
    os.makedirs(TARGET, exist_ok=True)
    # stale temporaries of an earlier build of the same binaries would be ambiguous
    for b in bins:
        for f in glob.glob(f"{TARGET}/sym/deps/{b}-*"):
            if not f.endswith((".d",)):
                pass
    cmd = ["cargo", "build", "--offline", "--profile", "sym", "-p", "harness"] + (["-p", "harness_cli"] if cli else [])
    for b in bins:
        cmd += ["--bin", b, "--bin", b + "_nat"]
    run(cmd, WS, e, TARGET + "/build.log", timeout)
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=e, capture_output=True, text=True).stdout.strip()
    dis = glob.glob(sysroot + "/lib/rustlib/*/bin/llvm-dis")[0]
    out = {}
    for b in bins:
        exe = f"{TARGET}/sym/{b}"
        # several hashes can coexist (flags changed): take the newest
        bcs = [f for f in glob.glob(f"{TARGET}/sym/deps/{b}-*.rcgu.bc") if ".lto." not in f]
        bcs = [f for f in bcs if os.path.getsize(f) > 300_000] or bcs
        if not bcs:
            raise BuildError(f"no bitcode for {b}")
        bc = max(bcs, key=os.path.getmtime)
        ll = f"{BUILD}/{b}.ll"
        subprocess.run([dis, bc, "-o", ll], check=True)
        out[b] = (ll, f"{TARGET}/sym/{b}_nat")
    return out


if __name__ == "__main__":
    t = time.time()
    print(engine(), round(time.time() - t, 1))
    t = time.time()
    print(build(sys.argv[1:]), round(time.time() - t, 1))
