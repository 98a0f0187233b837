#!/usr/bin/env python3
"""Numbers and four-letter names that occur in /repo/src but not in the reference list: the generators
visit them (and their neighbours) more often. They steer the workload only; no verdict depends on them.
dict.py            prints the new ones as NUMBERS;FLOATS;NAMES
dict.py --all      prints every one, for the reference list (harness/literals.txt)"""
import glob, os, re, sys

def harvest(root):
    ints, floats, names = set(), set(), set()
    for p in sorted(glob.glob(root + "/**/*.rs", recursive=True)):
        try:
            s = open(p, errors="replace").read()
        except OSError:
            continue
        s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
        for m in re.findall(r'b?"([ -~]{4})"', s):
            names.add(m)
        for m in re.findall(r"\[\s*((?:b?'[ -~]'\s*,?\s*){4})\]", s):
            names.add("".join(re.findall(r"'(.)'", m)))
        s = re.sub(r'"(\\.|[^"\\])*"', '""', s)
        s = re.sub(r"//[^\n]*", "", s)
        for t, b in (("8", 8), ("16", 16), ("32", 32), ("64", 64)):
            s = re.sub(r"\bu%s::MAX\b" % t, str((1 << b) - 1), s)
            s = re.sub(r"\bi%s::MAX\b" % t, str((1 << (b - 1)) - 1), s)
        s = re.sub(r"\bas\s+[uif](8|16|32|64|128|size)\b", "", s)
        for m in re.findall(r"(?<![\w.])(\d[\d_]*\.\d[\d_]*(?:[eE]-?\d+)?|\d[\d_]*(?:[eE]-\d+)|\d[\d_]*(?=_?f(?:32|64)\b))", s):
            floats.add(float(m.replace("_", "")))
        num = r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?(?![\w.]*\.\d)"
        val = lambda x: int(x.replace("_", ""), 0) if not re.fullmatch(r"0[\d_]+", x) else int(x.replace("_", ""))
        for m in re.findall(num, s):
            ints.add(val(m))
        for a, op, b in re.findall(num + r"[\s()]*(<<|[*+/-])[\s()]*" + num, s):
            a, b = val(a), val(b)
            if op == "<<" and b < 64:
                ints.add(a << b)
            elif op == "*":
                ints.add(a * b)
            elif op == "+":
                ints.add(a + b)
            elif op == "-" and a >= b:
                ints.add(a - b)
            elif op == "/" and b:
                ints.add(a // b)
    return {str(i) for i in ints if i < 1 << 64}, {repr(f) for f in floats}, names

def show(d):
    return ";".join(",".join(sorted(x)) for x in d)

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    d = harvest("/repo/src")
    if "--all" in sys.argv:
        print("\n".join(f"{k} {v}" for k, x in zip("nfs", d) for v in sorted(x)))
    else:
        known = [set(), set(), set()]
        for l in open(here + "/harness/literals.txt"):
            known["nfs".index(l[0])].add(l[2:-1])
        d = [x - k for x, k in zip(d, known)]
        d[2] = {x.encode().hex() for x in d[2]}
        print(show(d))
