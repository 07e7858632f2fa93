#!/usr/bin/env python3
"""Executable twin of the spelling specifications: the text between TWIN BEGIN and TWIN END in verus/*.vrs,
rewritten from Verus spec functions to plain Rust functions, for the harness.
usage: twin.py OUT IN..."""
import re, sys

def convert(t):
    t = re.sub(r'("(?:[^"\\]|\\.)*")@', r'\1', t)
    t = re.sub(r'\bopen spec fn\b', 'fn', t)
    t = re.sub(r' decreases [^{]*\{', ' {', t)
    t = re.sub(r'\bSeq<char>', '&str', t)
    t = re.sub(r'\bSeq<JV>', '&[Value]', t)
    t = re.sub(r'(: |-> )int\b', r'\1i64', t)
    return t

def main():
    out = '// generated by tools/twin.py from verus/*.vrs: do not edit\nuse super::rt::*;\nuse serde_json::Value;\n'
    for f in sys.argv[2:]:
        s = open(f).read()
        for m in re.finditer(r'// TWIN BEGIN\n(.*?)// TWIN END', s, re.S):
            out += convert(m.group(1))
    try:
        if open(sys.argv[1]).read() == out: return
    except OSError:
        pass
    open(sys.argv[1], 'w').write(out)
main()
