"""Development tool: validates planted bugs and shows which checks catch them (never run by a check).

seedtest.py validate ID...        patch applies, tests pass, demo passes without / fails with the patch
seedtest.py check ID... [-p C01,C02|all|own] [-t quick|thorough]
"""
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = pathlib.Path(__file__).resolve().parent.parent
SEEDS = ROOT / "seeded"


def scratch(sid, apply=True):
    d = pathlib.Path(tempfile.mkdtemp(prefix=f"seed_{sid}_", dir="/tmp"))
    subprocess.run(f"cp -a /repo/. {d}/", shell=True, check=True)
    if apply:
        p = subprocess.run(["patch", "-p1", "-s", "-i", str(SEEDS / sid / "patch.diff")], cwd=d, capture_output=True, text=True)
        if p.returncode:
            shutil.rmtree(d)
            raise SystemExit(f"{sid}: patch does not apply: {p.stderr}")
    return d


def env(d):
    return {**os.environ, "PYTHONPATH": str(d), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}


def demo(sid, d):
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="demo_", dir="/tmp"))
    for f in (SEEDS / sid).iterdir():
        if f.suffix not in (".diff", ".patch") and f.name != "meta.json":
            shutil.copy(f, tmp)
    e = dict(os.environ)
    e.pop("PYTHONPATH", None)
    p = subprocess.run(["bash", str(tmp / "demo.sh")], cwd=d, capture_output=True, text=True, env=e, timeout=300)
    shutil.rmtree(tmp)
    return p


def validate(sid):
    json.loads((SEEDS / sid / "meta.json").read_text())
    clean = scratch(sid, False)
    p = demo(sid, clean)
    ok = p.returncode == 0
    if not ok:
        print(sid, "demo fails on unchanged tree:", p.stdout[-500:], p.stderr[-800:])
    shutil.rmtree(clean)
    d = scratch(sid)
    p = demo(sid, d)
    if p.returncode == 0:
        ok = False
        print(sid, "demo passes with the patch")
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests", "-x", "--timeout=300"],
                       cwd=d, capture_output=True, text=True, env=env(d))
    if "500 passed" not in t.stdout:
        ok = False
        print(sid, "tests:", "\n".join(t.stdout.splitlines()[-8:]))
    shutil.rmtree(d)
    print(sid, "VALID" if ok else "INVALID", (p.stdout + p.stderr).strip().splitlines()[-1:])
    return ok


def check(sid, props, tier):
    d = scratch(sid)
    meta = json.loads((SEEDS / sid / "meta.json").read_text())
    want = [meta["property"]] if props == "own" else (
        [x["property"] for x in json.loads((ROOT / "MANIFEST.json").read_text())["checks"]] if props == "all" else props.split(","))
    for p in want:
        t = time.time()
        r = subprocess.run([str(ROOT / "check"), p, tier], capture_output=True, text=True,
                           env={**os.environ, "VERIF_REPO": str(d)})
        caught = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
        msg = [x for x in r.stdout.splitlines() if not x.startswith(("VIOLATION", p))]
        print(f"{sid} [{meta['property']}] {p}: {'CAUGHT' if caught else 'missed'} rc={r.returncode} {time.time()-t:.0f}s  "
              f"{msg[0][:160] if caught and msg else ''}", flush=True)
    shutil.rmtree(d)


args = sys.argv[2:]
props, tier = "own", "quick"
if "-p" in args:
    i = args.index("-p")
    props = args[i + 1]
    del args[i:i + 2]
if "-t" in args:
    i = args.index("-t")
    tier = args[i + 1]
    del args[i:i + 2]
ids = args or sorted(x.name for x in SEEDS.iterdir())
for sid in ids:
    if sys.argv[1] == "validate":
        validate(sid)
    else:
        check(sid, props, tier)
