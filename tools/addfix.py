"""addfix.py PROP : records /repo's HEAD commit as a repaired defect of PROP"""
import json, subprocess, sys
h, s = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h %s"], capture_output=True, text=True).stdout.strip().split(" ", 1)
k = json.load(open("/verif/known_findings.json"))
k["fixed"].append(f"fixed: property={sys.argv[1]} {h} {s.removeprefix('fix: ')}")
json.dump(k, open("/verif/known_findings.json", "w"), indent=1)
