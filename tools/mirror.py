#!/usr/bin/env python3
"""Mirrors /repo's sources into build/repo. Only files whose content differs
are written (so that their time is the current one), which makes the build
follow the contents of the working tree whatever its files' times are."""
import os, shutil, sys
SRC, DST = sys.argv[1], sys.argv[2]
want = set()
for top in ("include", "src"):
    for d, _, names in os.walk(os.path.join(SRC, top)):
        for n in names:
            want.add(os.path.relpath(os.path.join(d, n), SRC))
for rel in sorted(want):
    a, b = os.path.join(SRC, rel), os.path.join(DST, rel)
    with open(a, "rb") as f:
        new = f.read()
    try:
        with open(b, "rb") as f:
            if f.read() == new:
                continue
    except OSError:
        os.makedirs(os.path.dirname(b), exist_ok=True)
    with open(b, "wb") as f:
        f.write(new)
for d, _, names in os.walk(DST):
    for n in names:
        p = os.path.join(d, n)
        if os.path.relpath(p, DST) not in want:
            os.remove(p)
