#!/usr/bin/env python3
"""Nothing is kept between runs; this only makes sure that the tools are there."""
import subprocess, sys
for c in (["java", "-version"], ["cargo", "+1.85.0", "--version"]):
    r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(c[0], r.stdout.decode().splitlines()[:1])
    if r.returncode:
        sys.exit(1)
