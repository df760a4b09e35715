"""Copies /repo/structmeta-derive/src into the simulator's derive_host crate.

The only edits: the `#[proc_macro_derive(..)]` attributes and the line
`extern crate proc_macro;` go away and `proc_macro` becomes an alias of
proc_macro2, so that the derive entry points are ordinary functions.
"""
import os, re

def sync(src, dst):
    want = {}
    for root, _, files in os.walk(src):
        for f in files:
            if f.endswith(".rs"):
                p = os.path.join(root, f)
                want[os.path.relpath(p, src)] = open(p, encoding="utf-8").read()
    out = {}
    for k, s in want.items():
        if k == "lib.rs":
            names = entries(s)
            s = strip_derive_attr(s)
            s = re.sub(r"(?m)^\s*extern\s+crate\s+proc_macro\s*;", "", s)
            s += "\nextern crate proc_macro2 as proc_macro;\n"
            for d, fn in names:
                s += f"#[allow(non_snake_case)]\npub use self::{fn} as entry_{d};\n"
        else:
            s = re.sub(r"(?m)^\s*extern\s+crate\s+proc_macro\s*;", "", s)
        out[k] = s
    os.makedirs(dst, exist_ok=True)
    for root, _, files in os.walk(dst):
        for f in files:
            r = os.path.relpath(os.path.join(root, f), dst)
            if r not in out:
                os.unlink(os.path.join(root, f))
    for k, s in out.items():
        p = os.path.join(dst, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p, encoding="utf-8").read() != s:
            open(p, "w", encoding="utf-8").write(s)

def entries(s):
    """(derive, function) of every derive macro"""
    return re.findall(r"proc_macro_derive\s*\(\s*(\w+)[^]]*\]\s*(?:(?:#\s*\[[^]]*\]|//[^\n]*)\s*)*pub\s+fn\s+(\w+)", s)

def strip_derive_attr(s):
    o, i = [], 0
    for m in re.finditer(r"#\s*\[\s*proc_macro_derive\b", s):
        if m.start() < i:
            continue
        j, d = m.start() + 1, 0
        while j < len(s):
            if s[j] == "[":
                d += 1
            elif s[j] == "]":
                d -= 1
                if d == 0:
                    break
            j += 1
        o.append(s[i:m.start()])
        i = j + 1
    o.append(s[i:])
    return "".join(o)
