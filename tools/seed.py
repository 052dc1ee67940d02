"""seed.py new ID PROPERTY   (edits on stdin as python: E(file, old, new, n=1); DEMO = '''...'''; NEEDS, BREAKS)
   seed.py try ID [PROP..]   apply to /repo, build, test, demo, checks, undo"""
import json, os, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/sh
# Builds demo.rs against /repo in a scratch directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 1
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$d/demo.rs" "$w/src/main.rs"
cp /repo/Cargo.lock "$w/"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
masstree = { path = "/repo" }
seize = "*"
[profile.release]
debug-assertions = DBG
[workspace]
T
cd "$w" && export RUSTUP_TOOLCHAIN=1.92.0 CARGO_TARGET_DIR="$w/t" CARGO_NET_OFFLINE=true
cargo build --release --offline -q || exit 0
timeout 200 "$w/t/release/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def new(id, prop):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    edits = []
    ns = {"E": lambda *a, **k: edits.append((a, k)), "DBG": "false"}
    exec(sys.stdin.read(), ns)
    assert not sh("git -C /repo status --porcelain -uno").stdout.strip()
    try:
        for (f, old, nw, *n), _ in edits:
            p = os.path.join("/repo", f)
            s = open(p).read()
            k = n[0] if n else 1
            assert s.count(old) >= 1, (f, old)
            if k == 1:
                assert s.count(old) == 1, (f, s.count(old), old)
                s = s.replace(old, nw)
            else:  # the k-th occurrence (1-based, negative: -k)
                i = -1
                for _ in range(abs(k)):
                    i = s.index(old, i + 1)
                s = s[:i] + nw + s[i + len(old):]
            open(p, "w").write(s)
        diff = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE, text=True).stdout
    finally:
        sh("git -C /repo checkout -- .")
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.rs"), "w").write(ns["DEMO"].lstrip())
    open(os.path.join(d, "demo.sh"), "w").write(SH.replace("DBG", ns["DBG"]))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(os.path.join(d, "meta.json"), "w"),
              indent=1)


def trial(id, props):
    d = os.path.join(V, "seeded", id)
    m = json.load(open(os.path.join(d, "meta.json")))
    props = props or [m["property"]]
    base = json.load(open("/opt/vp/BASELINE.json"))
    out = [id]
    r = sh(f"cd /repo && bash {d}/demo.sh")
    out.append(f"demo-clean={r.returncode}")
    try:
        r = sh(f"git -C /repo apply {d}/patch.diff")
        if r.returncode:
            return out + ["apply failed " + r.stdout]
        r = sh("bash /opt/vp/build.sh")
        out.append(f"build={r.returncode}")
        if r.returncode:
            return out + [r.stdout[-1500:]]
        r = sh("bash /opt/vp/test.sh /tmp/seed_test.json")
        t = json.load(open("/tmp/seed_test.json"))
        passed = set(t["passed"] if "passed" in t else [k for k, v in t.items() if v in ("passed", True)])
        want = base.get("passed") or base.get("stable") or base.get("tests") or []
        miss = [x for x in want if x not in passed]
        out.append(f"tests-lost={len(miss)} {miss[:3]}")
        r = sh(f"cd /repo && bash {d}/demo.sh")
        out.append(f"demo-bug={r.returncode} {r.stdout.strip()[-150:]!r}")
        for p in props:
            t0 = time.time()
            r = sh(f"cd {V} && ./check {p}")
            out.append(f"\n    {p}: rc={r.returncode} {time.time()-t0:.0f}s {' | '.join(r.stdout.strip().splitlines()[-2:])[:300]}")
    finally:
        sh("git -C /repo checkout -- .")
    return out


if sys.argv[1] == "new":
    new(sys.argv[2], sys.argv[3])
else:
    print(" ".join(trial(sys.argv[2], sys.argv[3:])))
