#!/usr/bin/env python3
"""blame.py: do the planted bugs apply, and which lines of ours do they change?"""
import glob, os, re, subprocess
base = subprocess.check_output("git -C /repo log --format=%h --grep='^base$'", shell=True, text=True).strip()
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
for d in sorted(glob.glob(os.path.join(root, "*"))):
    p = os.path.join(d, "patch.diff")
    if subprocess.run(["git", "-C", "/repo", "apply", "--check", p], capture_output=True).returncode:
        print(os.path.basename(d), "does not apply")
        continue
    f, n, ours, orig = None, 0, 0, 0
    for ln in open(p):
        if ln.startswith("--- a/"):
            f = ln[6:].strip()
            b = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f], text=True).splitlines()
        m = re.match(r"@@ -(\d+)", ln)
        if m:
            n = int(m.group(1)) - 1
        elif ln[0] == "-" and not ln.startswith("---"):
            if b[n].lstrip("^").startswith(base[:6]):
                orig += 1
            else:
                ours += 1
            n += 1
        elif ln[0] == " ":
            n += 1
    print(os.path.basename(d), "original", orig, "ours", ours, "" if orig else "<-- only additions or ours")
