"""Writes known_findings.json: genuine defects that are recorded rather than repaired, and those that were repaired."""
import importlib
import json
import os
import subprocess
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [REPO, str(ROOT)]
from mc.engine import Stats, canon, describe  # noqa: E402

FINDINGS = [
    ("F28", "C17", [["anonname", n, k] for n in ("lookup", "fields", "size", "alignment", "dynamic", "cs")
                    for k in ("struct", "union")],
     "a field of an anonymous {2} that is called `{1}` is hidden by the class attribute of that name"),
    ("F29", "C02", [["dup", t] for t in ("struct T { uint8 _; uint16 a; uint8 _; };", "struct T { uint32 _; uint32 _; };",
                                         "struct T { uint8 _ : 4; uint8 a : 4; uint8 _; };",
                                         "struct T { uint8 _[2]; uint8 a; uint8 _[2]; };")],
     "of several fields called `_` only the last value is kept, and dumped for all of them: {1}"),
]
SHORT = {"F28": 2, "F29": 1}  # leading words of the message that identify the failure
EXTRA = ROOT / "tools" / "known_extra.json"
PROPS = {
    "d369867": "C09", "b2ff2a0": "C20", "2cd3bc0": "C20",
    "f89743a": "C13", "f6b02ca": "C13",
    "34b1d93": "C03", "fa0e4c3": "C03", "8efe8d1": "C03", "0f5a2b1": "C04", "a31f21d": "C09", "afc6c63": "C03",
    "a96c7ec": "C04", "a9fba17": "C03", "2ae6e66": "C03", "c1ef39b": "C06", "bbd7204": "C06", "c9b4df3": "C07",
    "5785fb5": "C07", "986f18e": "C07", "f469e04": "C12", "055c14a": "C12", "9c5b9e4": "C12", "dbcc3f9": "C13",
    "960fb9b": "C05", "74b397a": "C15", "b10b92d": "C10", "7d977c8": "C10", "6ec5530": "C19", "f8d83c5": "C16",
    "b0c647d": "C19", "1cc0195": "C14", "0d12a7d": "C11", "b136bd2": "C11", "b7c6334": "C17", "3553dbf": "C11",
    "b4b6d71": "C06", "363c02f": "C16", "31f1e70": "C13", "4f987bd": "C20", "ee850d6": "C20", "f543d25": "C17",
    "5560156": "C07", "55c6c97": "C08", "dd7d517": "C09", "52913d3": "C07", "ab5f093": "C07", "dae97f7": "C19",
    "6b46333": "C12", "5e3815c": "C17", "73901da": "C17",
}
if EXTRA.exists():
    PROPS.update(json.loads(EXTRA.read_text()))

findings = []
for fid, prop, cases, what in FINDINGS:
    mod = importlib.import_module(f"mc.props.{prop.lower()}")
    for i, case in enumerate(cases):
        try:
            mod.run(case, Stats())
        except Exception as e:  # noqa: BLE001
            findings.append({"id": f"{fid}.{i + 1}", "property": prop, "case": canon(case), "observed": " ".join(describe(e).split()[:SHORT[fid]]),
                             "what": what.format(*case)})
        else:
            sys.exit(f"{fid} {case} no longer fails")
log = subprocess.run(["git", "-C", REPO, "log", "--reverse", "--format=%h|%s", "865698f..HEAD"], capture_output=True,
                     text=True, check=True).stdout
fixed = []
for line in log.splitlines():
    h, _, msg = line.partition("|")
    if not msg.startswith("fix: "):
        continue
    fixed.append(f"fixed: property={PROPS[h]} {h} {msg[5:]}")
(ROOT / "known_findings.json").write_text(json.dumps({"findings": findings, "fixed": fixed}, indent=1) + "\n")
print(len(findings), "findings", len(fixed), "fixed")
