import json, os, subprocess
import build


def write(path, prop, scen, v):
    with open(path, "w") as f:
        f.write(f"# property {prop}\n# {v['kind']} {v['id']} {' '.join(v['detail'].split())}\n# at {v['at']}\n")
        f.write(f"fn {scen}\n")
        for n, vals in v["inputs"]:
            for x in vals:
                f.write(f"in {x}\n")
        for t, h in v["schedule"]:
            f.write(f"seg {t} {h}\n")
        for t in v["trace"]:
            f.write("# trace " + " ".join(t.split()) + "\n")


def run(path):
    """Returns (violated, text)."""
    exe = build.replayer()
    try:
        p = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120,
                           errors="replace")
    except subprocess.TimeoutExpired:
        return False, "replay timed out"
    t = p.stdout.strip().splitlines()
    last = next((x for x in reversed(t) if x.startswith("VS-")), t[-1] if t else "")
    return p.returncode == 1 and last.startswith("VS-VIOLATION"), last


def raw(path):
    exe = os.path.join(build.B, "replayer")
    try:
        p = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120,
                           errors="replace")
    except subprocess.TimeoutExpired:
        return -1, "timed out"
    t = p.stdout.strip().splitlines()
    return p.returncode, next((x for x in reversed(t) if x.startswith("VS-")), t[-1] if t else "")
