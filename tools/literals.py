#!/usr/bin/env python3
"""The numbers written in the implementation's source (tables of coefficients left out): a dictionary
of inputs worth trying, like a fuzzer's.  Usage: literals.py SRC_DIR > out"""
import glob, os, re, sys
found = set()
for f in glob.glob(os.path.join(sys.argv[1], '**', '*.rs'), recursive=True):
    for line in open(f, encoding='utf8', errors='replace'):
        line = re.sub(r'//.*', '', line)
        if re.match(r'^\s*[\[(]?\s*(-?\d+,\s*)*-?[\d.]+([eE][-+]?\d+)?\s*[)\]]?,?\s*$', line):
            continue
        for m in re.finditer(r'(?<![\w.])(\d[\d_]*\.\d*(?:[eE][-+]?\d+)?|\d[\d_]*[eE][-+]?\d+)(?:_?f64)?', line):
            found.add(float(m.group(1).replace('_', '')))
print('\n'.join(repr(x) for x in sorted(found)))
