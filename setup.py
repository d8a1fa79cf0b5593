#!/usr/bin/env python3
"""Nothing is kept between runs: every check builds what it needs. This only tries the tools."""
import subprocess, sys
for c in (["cargo", "kani", "--version"], ["verus", "--version"], ["cargo", "--version"]):
    r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(" ".join(c), "->", (r.stdout.strip().splitlines() or [""])[0])
    if r.returncode:
        sys.exit("missing tool: " + c[0])
