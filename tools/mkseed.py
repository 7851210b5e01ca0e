"""mk(...): write /verif/seeded/<id>/ from edits, a demonstration and a description."""
import json, os, shutil, subprocess, tempfile

SH = '''#!/bin/bash
# Run with cwd /repo. Exit 0: the property holds for this history; 1: it does not.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
D=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$D"' EXIT
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin LANG=C.UTF-8 PYTHONPATH="$REPO" PYTHONHASHSEED=0
unset PYTHONHOME PYTHONSTARTUP PYTHONPYCACHEPREFIX PYTHONDONTWRITEBYTECODE
cd "$D" || exit 99
timeout 120 /opt/venv/bin/python -B "$HERE/demo.py" "$D"
'''


def mk(id, prop, edits, demo, needs, breaks):
    d = f"/verif/seeded/{id}"
    tmp = tempfile.mkdtemp(prefix="mk.", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
        for f, old, new in edits:
            p = f"{tmp}/r/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", tmp + "/r", "diff"], check=True, stdout=subprocess.PIPE, text=True).stdout
        assert diff
        # warn when lines of fix commits are touched
        for f in {e[0] for e in edits}:
            blame = subprocess.run(["git", "-C", tmp + "/r", "blame", "-s", "HEAD", "--", f], stdout=subprocess.PIPE, text=True).stdout.split("\n")
            added = {line.split(") ", 1)[1] for line in blame if ")" in line and not line.startswith("^")}
            for line in diff.split("\n"):
                if line.startswith("-") and not line.startswith("---") and line[1:] in added and line[1:].strip():
                    print(f"  {id}: WARNING: changes a line added later: {line[1:]!r}")
    finally:
        shutil.rmtree(tmp)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(SH)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("made", id)
