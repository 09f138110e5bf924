"""Build and confirm planted bugs: mkseed.py [--test] [--check] id...

A spec is tools/seedspecs/<id>.py with PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)]; everything after the
line '# --- demo' is the demonstration. The bug lives only in a scratch copy under /tmp.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "31fb622"  # the commit the work started from; a bug has to change its lines, not those of a repair
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ok = True


def own_lines(w):
    """Removed lines that the original repository does not have."""
    res, f = [], None
    for x in subprocess.run(["git", "diff", "-U0"], cwd=w, capture_output=True, text=True).stdout.splitlines():
        if x.startswith("--- a/"):
            f = x[6:]
            blame = subprocess.run(["git", "blame", "-s", BASE + "..HEAD", "--", f], cwd=w, capture_output=True,
                                   text=True).stdout.splitlines()
        elif x.startswith("@@"):
            a = x.split()[1][1:].split(",")
            start, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
            bad = [b for b in blame[start - 1:start - 1 + n] if not b.startswith("^")]
            res += bad if n and len(bad) == n else []
            if not n:
                print("   note: pure insertion at", f, start)
    return res


for sid in args:
    path = f"{V}/tools/seedspecs/{sid}.py"
    src = open(path).read()
    head, demo = src.split("# --- demo\n", 1)
    ns = {}
    exec(head, ns)
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    w = d + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        for f, old, new in ns["EDITS"]:
            p = f"{w}/kasa/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        out = f"{V}/seeded/{sid}"
        os.makedirs(out, exist_ok=True)
        diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True, check=True).stdout
        open(out + "/patch.diff", "w").write(diff)
        ours = own_lines(w)
        if ours:
            print(sid, "CHANGES LINES OF A REPAIR:", ours[:3], flush=True)
            ok = False
        open(out + "/demo.py", "w").write(demo)
        open(out + "/demo.sh", "w").write('#!/bin/bash\n# cwd is the repository; exit 0 when the property holds\n'
                                          'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
                                          'exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(out + "/meta.json", "w"), indent=1)
        good = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        bad = subprocess.run(["bash", out + "/demo.sh"], cwd=w, capture_output=True, text=True)
        line = f"{sid}: clean rc={good.returncode} patched rc={bad.returncode}"
        fine = good.returncode == 0 and bad.returncode != 0
        if good.returncode:
            line += "\nCLEAN OUTPUT " + good.stdout[-800:] + good.stderr[-1500:]
        line += " :: " + (bad.stdout + bad.stderr).strip().splitlines()[-1][:160] if bad.returncode else ""
        if "--check" in sys.argv:
            r = subprocess.run([V + "/run.py", "--property", ns["PROPERTY"], "--no-evidence"],
                               env={**os.environ, "VERIF_REPO": w}, capture_output=True, text=True)
            line += f"\n   check rc={r.returncode} " + " | ".join(
                x[:140] for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "---")))[:600]
            if r.returncode not in (0, 1):
                line += r.stdout[-1500:] + r.stderr[-1500:]
        if "--test" in sys.argv:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "8", "-p", "no:cacheprovider",
                                "-p", "no:sugar", "--timeout=60", "-x"], cwd=w, capture_output=True, text=True,
                               env={**os.environ, "PYTHONPATH": w, "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC",
                                    "PYTHONHASHSEED": "0"})
            line += "\n   tests: " + (t.stdout.strip().splitlines() or ["?"])[-1][:200]
            if t.returncode:
                line += "\n" + "\n".join(x for x in t.stdout.splitlines() if x.startswith(("FAILED", "ERROR")))[:1500]
                fine = False
        print(line, flush=True)
        ok &= fine
    finally:
        shutil.rmtree(d)
sys.exit(0 if ok else 1)
