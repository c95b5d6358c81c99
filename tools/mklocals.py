#!/usr/bin/env python3
"""contracts/locals.txt and fields.txt: the locals of every function under contract and the fields of the structs, as the contracts know them.
Run when a contract is written against changed code (never by a check)."""
import subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
vx = sys.argv[1] if len(sys.argv) > 1 else os.path.join(V, "build/vx/debug/vx")
fns = {}
for u in ["builtin", "macros", "serde"]:
    p = os.path.join(V, "contracts", u + ".vx")
    if u == "serde":
        p = os.path.join(V, "contracts", "syntax.vx")
    o = subprocess.run([vx, "/repo", p, "/dev/null", "/dev/null", "--locals"], stdout=subprocess.PIPE, text=True, check=True).stdout
    here = {}
    for l in o.splitlines():
        here.setdefault(l.split("\t")[0], []).append(l)
    for k, v in here.items():
        fns.setdefault(k, v)
with open(os.path.join(V, "contracts/locals.txt"), "w") as f:
    for k in sorted(fns):
        f.write("\n".join(fns[k]) + "\n")

rows, fns = {}, None
for u in ["builtin", "macros"]:
    o = subprocess.run([vx, "/repo", os.path.join(V, "contracts", u + ".vx"), "/dev/null", "/dev/null", "--fields"], stdout=subprocess.PIPE, text=True, check=True).stdout
    fns = [l[3:] for l in o.splitlines() if l.startswith("fn\t")]
    here = {}
    for l in o.splitlines():
        if l.startswith("field\t"):
            here.setdefault(l.split("\t")[1], []).append(l[6:])
    for k, v in here.items():
        rows.setdefault(k, v)
with open(os.path.join(V, "contracts/fields.txt"), "w") as f:
    f.write("".join(l + "\n" for k in sorted(rows) for l in rows[k]))
with open(os.path.join(V, "contracts/functions.txt"), "w") as f:
    f.write("\n".join(fns) + "\n")
