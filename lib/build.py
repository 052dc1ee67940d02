"""Build steps shared by every check: the engine, the IR of /repo's current code, the native replayer."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = os.path.join(V, "build")
TC = "1.92.0"
LL = os.path.join(B, "vsharness.ll")
ENG = os.path.join(B, "engine", "release", "irsym")


class BuildError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("CARGO_TARGET_DIR", None)
    e.update(kw)
    return e


def run(cmd, cwd, e, what):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(f"{what} failed:\n{p.stdout[-4000:]}")
    return p.stdout


def tree_hash(*roots):
    h = hashlib.sha256()
    for r in roots:
        if os.path.isfile(r):
            fs = [r]
        else:
            fs = []
            for d, ds, f in os.walk(r):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build"))
                fs += [os.path.join(d, x) for x in sorted(f)]
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as g:
                h.update(g.read() + b"\0")
    return h.hexdigest()


class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def stamp(name):
    try:
        return open(os.path.join(B, name)).read()
    except OSError:
        return ""


def set_stamp(name, v):
    open(os.path.join(B, name), "w").write(v)


def engine():
    h = tree_hash(os.path.join(V, "engine", "src"), os.path.join(V, "engine", "Cargo.toml"))
    if stamp("engine.stamp") == h and os.path.exists(ENG):
        return
    fp = os.path.join(B, "engine", "release", ".fingerprint")
    for d in glob.glob(os.path.join(fp, "irsym-*")):
        shutil.rmtree(d)
    run(["cargo", "+" + TC, "build", "--release", "--offline", "--target-dir", os.path.join(B, "engine")],
        os.path.join(V, "engine"), env(), "engine build")
    set_stamp("engine.stamp", h)


def repo_files():
    return [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock"),
            os.path.join(REPO, "rust-toolchain.toml"), os.path.join(V, "harness", "src"),
            os.path.join(V, "harness", "Cargo.toml"), os.path.join(V, "stubs")]


def harness():
    """Compile /repo's current source together with the scenarios to one optimised LLVM module."""
    h = tree_hash(*[f for f in repo_files() if os.path.exists(f)])
    if stamp("harness.stamp") == h and os.path.exists(LL):
        return h
    t = os.path.join(B, "harness")
    for d in glob.glob(os.path.join(t, "release", ".fingerprint", "*")):
        if re.match(r"(masstree|vsharness|seize|parking|portable)", os.path.basename(d)):
            shutil.rmtree(d)
    for f in glob.glob(os.path.join(t, "release", "deps", "vsharness*.ll")):
        os.remove(f)
    run(["cargo", "+" + TC, "rustc", "--release", "--offline", "--target-dir", t, "--", "--emit=llvm-ir"],
        os.path.join(V, "harness"),
        env(RUSTUP_TOOLCHAIN=TC, RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp"), "harness build")
    f = glob.glob(os.path.join(t, "release", "deps", "vsharness*.ll"))
    if len(f) != 1:
        raise BuildError(f"expected one IR file, found {f}")
    shutil.copyfile(f[0], LL)
    set_stamp("harness.stamp", h)
    return h


def llvm_bin():
    for tc in glob.glob(os.path.expanduser("~/.rustup/toolchains/*/lib/rustlib/*/bin/llc")):
        return os.path.dirname(tc)
    raise BuildError("llc not found")


def replayer():
    """Native executable that runs one scenario with given inputs and schedule on the compiled code."""
    h = tree_hash(LL, os.path.join(V, "rt"), ENG)
    exe = os.path.join(B, "replayer")
    if stamp("replayer.stamp") == h and os.path.exists(exe):
        return exe
    il = os.path.join(B, "inst.ll")
    run([ENG, "instrument", LL, il], B, env(), "instrument")
    run([os.path.join(llvm_bin(), "llc"), "-O1", "-filetype=obj", "-relocation-model=pic", il, "-o",
         os.path.join(B, "inst.o")], B, env(), "llc")
    names = re.findall(r"^define [^\n]*@(h_\w+)\(\)", open(LL).read(), re.M)
    with open(os.path.join(B, "table.c"), "w") as f:
        for n in names:
            f.write(f"extern void {n}(void);\n")
        f.write("struct { const char *name; void (*f)(void); } vs_table[] = {\n")
        for n in names:
            f.write(f'{{"{n}", {n}}},\n')
        f.write("{0, 0}};\n")
    run(["gcc", "-O1", "-g", "-w", "-o", exe, os.path.join(V, "rt", "rt.c"), "table.c", "inst.o", "-lpthread", "-lm",
         "-ldl", "-lgcc_s"], B, env(), "replayer link")
    set_stamp("replayer.stamp", h)
    return exe
