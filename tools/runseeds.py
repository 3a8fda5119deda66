"""Runs the check of each planted change's property on a patched copy of /repo; prints what caught it (development tool)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(id_, args):
    d = os.path.join(V, "seeded", id_)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        subprocess.run("cp -a /repo %s/repo && cp -a %s %s/verif && rm -rf %s/verif/seeded" % (w, V, w, w), shell=True, check=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w + "/repo", check=True)
        env = dict(os.environ, VERIF_REPO=w + "/repo", VERIF_SEED="1", VERIF_TIER="quick")
        r = subprocess.run(["sh", w + "/verif/check", prop] + args, env=env, capture_output=True, text=True)
        return id_, prop, r.returncode, r.stdout
    finally:
        shutil.rmtree(w, ignore_errors=True)


def row(id_):
    """What the rt driver alone and what the prover alone say about a planted change."""
    meta = json.load(open(os.path.join(V, "seeded", id_, "meta.json")))
    _, prop, rc, _ = one(id_, ["--no-prove"])
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        subprocess.run(["git", "apply", os.path.join(V, "seeded", id_, "patch.diff")], cwd=w + "/repo", check=True)
        env = dict(os.environ, VERIF_REPO=w + "/repo", PYTHONDONTWRITEBYTECODE="1")
        subprocess.run([sys.executable, V + "/pyvc/prove.py", prop, w + "/o.json", "--jobs", "3", "--budget", "200"],
                       env=env, capture_output=True, timeout=600)
        try:
            d = json.load(open(w + "/o.json"))
        except (OSError, ValueError):
            d = {"obligations": [], "unsupported": ["no result"]}
        bad = [x["name"] for x in d["obligations"] if x["status"] == "failed"]
        opn = sum(x["status"] not in ("failed", "proved") for x in d["obligations"])
        proof = "fails: " + bad[0][:90].replace("|", "/") + (" (+%d)" % (len(bad) - 1) if len(bad) > 1 else "") if bad else \
            "outside the reach" if d["unsupported"] else "%d open" % opn if opn else "MISSED"
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return "| %s | %s | %s | %s |" % (id_, prop, "input found" if rc == 1 else "missed", proof), meta


a = sys.argv[1:]
if "--table" in a:
    # rewrites the table of DESIGN.md between its markers
    ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(V + "/seeded"))
    rows = []
    with ThreadPoolExecutor(2) as ex:
        for r, _ in ex.map(row, ids):
            print(r, flush=True)
            rows.append(r)
    if len(ids) == len(os.listdir(V + "/seeded")):
        t = open(V + "/DESIGN.md").read()
        i, j = t.index("<!-- table -->"), t.find("<!-- /table -->")
        new = "<!-- table -->\n| change | property | rt alone | prover alone |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /table -->"
        t = t[:i] + new + (t[j + len("<!-- /table -->"):] if j >= 0 else t[i + len("<!-- table -->"):])
        open(V + "/DESIGN.md", "w").write(t)
    sys.exit()
opts = [x for x in a if x.startswith("--") and x != "-v"]
ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(V + "/seeded"))
missed = 0
with ThreadPoolExecutor(3) as ex:
    for id_, prop, rc, out in ex.map(lambda i: one(i, opts), ids):
        v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
        kind = "MISSED" if rc != 1 else "caught without input" if v and v[0].endswith("no-failing-input-found") else "caught with input"
        missed += rc != 1
        print("%-12s %s exit %d %s" % (id_, prop, rc, kind), flush=True)
        if "-v" in a or rc != 1:
            print("\n".join("      " + l[:300] for l in out.splitlines()[-12:]))
print("missed: %d" % missed)
