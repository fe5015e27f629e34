"""
Helper to create a planted bug: tools/plant.py DEF.py
DEF.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source, run with cwd=repo, must exit 0/1).
Creates seeded/<ID>/ after checking that the demo passes on the unchanged tree and fails with the patch.
"""
import sys, os, subprocess, json, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# run with cwd = repository; exit 0 = property holds in this scenario
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
export HOME="$scratch" TMPDIR="$scratch" RETURNN_CACHE_DIR="$scratch/cache" PYTHONPATH="$PWD" TF_USE_LEGACY_KERAS=1 TF_CPP_MIN_LOG_LEVEL=3 PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1
/opt/venv/bin/python "$here/demo.py" < /dev/null
"""


def main(fn):
    d = {}
    exec(open(fn).read(), d)
    out = os.path.join(VERIF, "seeded", d["ID"])
    os.makedirs(out, exist_ok=True)
    open(out + "/demo.sh", "w").write(SH)
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.py", "w").write(d["DEMO"].lstrip())
    json.dump(dict(property=d["PROP"], needs=" ".join(d["NEEDS"].split()), what_it_breaks=" ".join(d["BREAKS"].split())), open(out + "/meta.json", "w"), indent=1)
    wt = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt, "HEAD"])

        def demo():
            p = subprocess.run(["timeout", "250", "bash", out + "/demo.sh"], cwd=wt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return p.returncode, "\n".join(p.stdout.decode(errors="replace").splitlines()[-6:])[-700:]

        rc0, o0 = demo()
        for f, old, new in d["EDITS"]:
            s = open(f"{wt}/{f}").read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(f"{wt}/{f}", "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", wt, "diff"]).decode()
        open(out + "/patch.diff", "w").write(diff)
        rc1, o1 = demo()
        ok = rc0 == 0 and rc1 != 0
        print(d["ID"], "demo unchanged rc", rc0, "patched rc", rc1, "OK" if ok else "BAD")
        if not ok:
            print(o0, "\n--- patched:\n", o1)
        else:
            print("   ", o1.splitlines()[-1:] )
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", wt])
        shutil.rmtree(wt, ignore_errors=True)


for f in sys.argv[1:]:
    main(f)
