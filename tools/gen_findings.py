#!/usr/bin/env python3
"""Writes the "fixed" list of known_findings.json: one line per "fix:" commit of /repo, with the property whose check
reports the defect if it returns.  The entries are a record only; they suppress nothing."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
P = {}
def add(prop, hashes):
    for h in hashes.split():
        P[h] = prop
add("C01", "1cb4998 ab20da3 e5dcc8e")
add("C02", "f58bb68 b162953 94bddb3 14088a4 7905175 7d5186f 5604122")
add("C03", "a3c51b1 a3126a8 f422d3d bdbbf75 556f5e0")
add("C04", "9ce44c8 8fb5a8d 01072a6 226c35d 844a905")
add("C05", "8478863 afd2409")
add("C06", "07f6d1d 548f513 15d4b3f b882456")
add("C07", "a41aef5")
add("C08", "1351124 1833600 11f2327")
add("C09", "ff221e4 e22f59e 960c0a4 2685bcf 63d9523")
add("C10", "6261374")
add("C11", "f091397 1f833cf b319335")
add("C12", "6e27347 a7b4066")
add("C13", "20e70f7 382a393")
add("C14", "19cf7d2 4bcee69 505ea28 d9e04b9 2adc493 469043a")
add("C15", "79419f3 b2a333a 8439599 526a0de 7aadc93 42909b4 e64b448 50dd933 efbb022")
add("C16", "e42c9cc 05d6d34 7890655 1c1738b")
add("C17", "2765380 74e2d00")
add("C18", "a86644d 1db7a1e")
add("C19", "6c3c722 9cd1416 c66c13c 8f8d31b")
add("C20", "9a0eef3 257f860 19afcdf 3da60ba 4b1e217")
add("C21", "0744f82 2b74aa3 9e63ba2 8d6d28c")
add("C22", "ac8a3e9 58c4eb7 1635317 f1cabc7 a730531 4727650 61393dc e576208")
add("C23", "ee3891f cea88d5 a3e1806")
add("C24", "e7eeb93 1b4e3e8 cbab578 dee1cd1 226af35 0409b4e 9694766 6bca7c4 12798ea")
add("C25", "b2fd107 cad5720 29901dc 0d77263 996dd6c f7680aa 4f1f386")
add("C26", "9ba7070 244bfdb 074540e f4d334a 7989c5a 045c3a6 58cc21f")
add("C27", "2c92ecf 4613f3b 4612f3b 8888e9a 3a89ed9 0edf679 0a4e5ee d82e94e")
add("C28", "d6dbe38 60e42fc d693dbb d6883ba")
add("C29", "29a04f5 3e3d99b 14111b6 d3a7407 d3fa705 192dc55 e0790cb bf6fdbf 64c7299")
add("C30", "fc26612")
add("C31", "04d2664 c3bce72 565c7c5")
add("C32", "5ecdf1a d7c53e6 df6e957 5c7bcb9 2386028 9422e24 9c2abfe 05ae8fe")
add("C33", "7d8a244 41ec872 ea5b41f")
add("C34", "9e01ce7 294ad81")
add("C35", "f7e20f3 2ee30cb")
# later fixes, by commit
for line in open(os.path.join(HERE, "tools", "fixed_extra.txt")) if os.path.exists(os.path.join(HERE, "tools", "fixed_extra.txt")) else []:
    if line.strip():
        h, p = line.split(); P[h] = p
path = os.path.join(HERE, "known_findings.json")
d = json.load(open(path))
log = subprocess.check_output(["git", "-C", REPO, "log", "--reverse", "--abbrev=7", "--format=%h %s"], text=True)
fixed, missing = [], []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    if h not in P:
        missing.append(l); continue
    fixed.append("fixed: property=%s %s %s" % (P[h], h, s[5:]))
d["fixed"] = fixed
json.dump(d, open(path, "w"), indent=1, ensure_ascii=False); open(path, "a").write("\n")
print(len(fixed), "fixed entries;", "missing:", missing)
sys.exit(1 if missing else 0)
