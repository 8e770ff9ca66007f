#!/usr/bin/env python3
"""subset.py SRC PROPERTY OUT: builds the explorer from only the files PROPERTY needs, for trees
in which something another property's exploration calls has been renamed or removed."""
import os, re, subprocess, sys
src, prop, out = sys.argv[1:]
os.chdir(src)
texts = {f: open(f).read() for f in os.listdir('.') if f.endswith('.go')}
files = {f for f in texts if not re.match(r'c\d', f)} | {f for f in texts if 'props["%s"]' % prop in texts[f]}
for _ in range(12):
    r = subprocess.run(['go', 'build', '-gcflags=-e', '-o', out] + sorted(files), capture_output=True, text=True)
    if r.returncode == 0:
        sys.exit(0)
    missing = set(re.findall(r'undefined: (\w+)$', r.stderr, re.M))
    more = {f for f in texts for m in missing
            if re.search(r'^(func (\([^)]*\) )?%s\(|type %s |var %s |const %s |\t%s +=)' % (m, m, m, m, m), texts[f], re.M)} - files
    if not more:
        break
    files |= more
sys.stderr.write(r.stderr)
sys.exit(1)
