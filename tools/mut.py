"""Try an ad-hoc mutation: mut.py Cxx[,Cyy] file old new  (scratch copy under /tmp; nothing in /repo changes)."""
import os, shutil, subprocess, sys, tempfile
props, file, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
try:
    subprocess.run(["cp", "-a", os.environ.get("MUT_BASE", "/repo") + "/kasa", d + "/kasa"], check=True)
    subprocess.run(["cp", "-a", os.environ.get("MUT_BASE", "/repo") + "/devtools", d + "/devtools"], check=True)
    os.makedirs(d + "/tests"); os.symlink("/repo/tests/fixtures", d + "/tests/fixtures")
    p = f"{d}/{file}" if file.startswith("devtools/") else f"{d}/kasa/{file}"
    s = open(p).read()
    assert s.count(old) >= 1, "old text not found"
    s = s.replace(old, new, 1)
    open(p, "w").write(s)
    for prop in props.split(","):
        r = subprocess.run(["/verif/run.py", "--property", prop, "--no-evidence", *sys.argv[5:]],
                           env={**os.environ, "VERIF_REPO": d}, capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if l.startswith(("---", "VIOLATION", "HARNESS", "INCONC")) or " tier=" in l]
        print(prop, "rc", r.returncode, *lines[:10], sep="\n  ")
        if r.returncode not in (0, 1):
            print(r.stdout[-3000:], r.stderr[-3000:])
finally:
    shutil.rmtree(d)
