"""Plant a bug: plant.py SPEC.py   (development helper, never run by a check)

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source).
Writes seeded/<ID>/ after confirming, in a scratch copy of /repo, that the patch applies, touches only lines
of the original repository, keeps the stable tests passing, and that the demonstration separates the two trees.
"""
import os, sys, subprocess, tempfile, shutil, json, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

def sh(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       env=env, text=True)
    return p.returncode, p.stdout

def main(path):
    spec = {}
    exec(open(path).read(), spec)
    base = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.strip()
    out = os.path.join(HERE, "seeded", spec["ID"])
    edited = {}
    for f, old, new in spec["EDITS"]:
        s = edited.get(f) or open(os.path.join(REPO, f)).read()
        if s.count(old) != 1:
            print("EDIT does not match once:", f, repr(old), s.count(old)); return 1
        edited[f] = s.replace(old, new)
    # only original lines are changed
    tmp = tempfile.mkdtemp(prefix="plant_")
    try:
        for f, s in edited.items():
            p = os.path.join(tmp, "new"); open(p, "w").write(s)
            rc, o = sh(f"diff {REPO}/{f} {p}")
            orig = sh(f"git -C /repo show {base}:{f}")[1]
            olines = set(l.strip() for l in orig.splitlines())
            for l in o.splitlines():
                if l.startswith("<") and l[1:].strip() and l[1:].strip() not in olines:
                    print("WARNING: changes a line that is not original:", f, l)
        # patch
        sh(f"git -C /repo diff --quiet")
        for f, s in edited.items():
            open(os.path.join(REPO, f), "w").write(s)
        rc, diff = sh("git -C /repo diff")
        sh("git -C /repo checkout -- .")
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(spec["DEMO"])
        open(os.path.join(out, "demo.sh"), "w").write(
            '#!/bin/bash\nset -e\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=4\n'
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        rc, o = sh(f"bash {out}/demo.sh", cwd=REPO, timeout=300)
        if rc: print("DEMO FAILS on clean tree\n", o[-1500:]); return 1
        rc, o = sh(f"git -C /repo apply {out}/patch.diff")
        if rc: print("patch does not apply", o); return 1
        try:
            rc, o = sh(f"bash {out}/demo.sh", cwd=REPO, timeout=300)
            if rc == 0: print("DEMO PASSES on patched tree"); return 1
            print("demo says:", o.strip().splitlines()[-1][:200] if o.strip() else "")
            if "--notest" not in sys.argv:
                rc, o = sh("bash /opt/vp/test.sh /tmp/plant_out.json", cwd=REPO)
                res = json.load(open("/tmp/plant_out.json")); stable = json.load(open("/opt/vp/BASELINE.json"))
                def names(d, keys):
                    for k in keys:
                        if isinstance(d, dict) and k in d: return set(map(str, d[k]))
                    return set()
                st = names(stable, ["stable", "passed", "pass", "tests"]); ok = names(res, ["passed", "pass", "stable"])
                if st - ok: print("STABLE TESTS BROKEN:", st - ok); return 1
                print("stable tests pass:", len(st & ok))
            ids = [spec["PROPERTY"]] + list(spec.get("ALSO", []))
            for i in ids:
                rc, o = sh(f"python3-vt {HERE}/check.py {i}", cwd=HERE)
                v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
                print(f"check {i}: rc={rc}", (v or o.splitlines()[-1:])[0][:200] if o else "")
                print("   " + "\n   ".join(l[:220] for l in o.splitlines() if not l.startswith("KNOWN"))[:900])
        finally:
            sh("git -C /repo checkout -- .")
    finally:
        shutil.rmtree(tmp)
    return 0
sys.exit(main(sys.argv[1]))
