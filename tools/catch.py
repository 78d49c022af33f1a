"""catch.py [ID[:CHECK,...]]... : which checks report each planted bug (development helper; scratch copies, never /repo)."""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(a):
    i, _, cs = a.partition(":")
    d = os.path.join(HERE, "seeded", i)
    cs = cs.split(",") if cs else [json.load(open(d + "/meta.json"))["property"]]
    t = tempfile.mkdtemp(prefix="catch_")
    out = []
    try:
        subprocess.run("git -C /repo archive HEAD drdmannturb examples pyproject.toml | tar -x -C " + t, shell=True, check=True)
        subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + t, d + "/patch.diff"], cwd="/", check=True)
        for c in cs:
            r = subprocess.run(["python3-vt", "check.py", c, "quick"], cwd=HERE, env=dict(os.environ, VG_REPO=t), capture_output=True, text=True)
            l = [x for x in r.stdout.splitlines() if x.startswith("  [") or "ANALYSIS" in x]
            out.append("%-28s %s rc=%d %s" % (i, c, r.returncode, (l or [""])[0][:170]))
    finally:
        shutil.rmtree(t)
    return "\n".join(out)
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
