#!/usr/bin/env python3
"""A scratch copy of the headers with a statement that does nothing at the
start of every function: noop.py DIR [statement]"""
import os, re, shutil, sys
d = sys.argv[1]
stmt = sys.argv[2] if len(sys.argv) > 2 else "(void)0;"
shutil.copytree("/repo/include", d + "/include")
shutil.copytree("/repo/scripts", d + "/scripts")
n = 0
for r, _, fs in os.walk(d + "/include"):
    for f in fs:
        p = os.path.join(r, f)
        s = open(p).read()
        out, i, stack = "", 0, []
        code = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|^[ \t]*#(?:\\\n|[^\n])*', lambda m: re.sub(r"[^\n]", " ", m.group(0)), s, flags=re.S | re.M)
        depth_fn = None
        depth = 0
        par = 0
        ins = []
        for k, ch in enumerate(code):
            if ch in "([":
                par += 1
            if ch in ")]":
                par -= 1
            if ch == "{":
                if depth_fn is None and par == 0:
                    head = re.split(r"[;{}]", code[:k])[-1] if not re.search(r"[;}]\s*$", code[:k]) else ""
                    full = code[:k].rstrip()
                    # member initialiser lists: the body is the brace after ) or } not followed by ,
                    j = k
                    stm = re.split(r";|public:|private:", code[:k])[-1]
                    is_type = re.search(r"\b(namespace|class|struct|enum|union|extern)\b[^()]*$", re.split(r"[;{}]", code[:k])[-1])
                    tail = full[-1:] 
                    if not is_type and (full.endswith(")") or re.search(r"\)\s*(const|noexcept(\s*\([^{}]*\))?|override|final|->[^{};]*|\s)+$", full) or full.endswith("}")):
                        # an initialiser  x{...}  of a member is preceded by an identifier, so this is a body
                        if not re.match(r"\s*\}", code[k + 1:]):
                            ins.append(k + 1)
                        depth_fn = depth
                depth += 1
            if ch == "}":
                depth -= 1
                if depth_fn is not None and depth == depth_fn:
                    depth_fn = None
        for k in reversed(ins):
            s = s[:k] + " " + stmt + s[k:]
        n += len(ins)
        open(p, "w").write(s)
print(n, "statements added")
