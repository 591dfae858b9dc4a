#!/usr/bin/env python3
"""Writes spec/Lit.tla: the byte strings of the literals L("...") used in the specifications
(TLC cannot look inside a string)."""
import re, glob, os, ast
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
lits = set()
for f in glob.glob(d + "/*.tla"):
    if f.endswith("/Lit.tla"):
        continue
    lits |= set(re.findall(r'\bL\(("(?:[^"\\]|\\.)*")\)', open(f).read()))
o = ["-------------------------------- MODULE Lit --------------------------------",
     "(* Generated by tools/mklit.py: byte strings of the literals used elsewhere. *)",
     "EXTENDS Naturals, Sequences, TLC",
     "LitTab =="]
first = True
for l in sorted(lits):
    b = ast.literal_eval(l).encode("latin1")
    o.append("  %s (%s :> <<%s>>)" % ("  " if first else "@@", l, ", ".join(str(x) for x in b)))
    first = False
o += ["L(s) == LitTab[s]", "=" * 77, ""]
open(d + "/Lit.tla", "w").write("\n".join(o))
print(len(lits), "literals")
