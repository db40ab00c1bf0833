#!/usr/bin/env python3
"""find.py DIR BASEDEMO PATCHEDDEMO [demo args...]: files on which two builds of the demo differ, smallest first."""
import subprocess, sys, os
from concurrent.futures import ThreadPoolExecutor
d, a, b, args = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
def run(x, f):
    try:
        r = subprocess.run([x, f] + args, capture_output=True, text=True, timeout=60)
        return (r.stdout, r.returncode)
    except subprocess.TimeoutExpired:
        return ("hang", 1)
def one(f):
    p = os.path.join(d, f)
    return (os.path.getsize(p), p) if run(a, p) != run(b, p) else None
with ThreadPoolExecutor(8) as ex:
    r = sorted(x for x in ex.map(one, sorted(os.listdir(d))) if x)
print(len(r), "of", len(os.listdir(d)), "differ")
for x in r[:5]: print(x)
