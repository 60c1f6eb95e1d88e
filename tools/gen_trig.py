#!/usr/bin/env python3
"""Writes spec/Trig.tla: integer tables of elementary functions used by the specifications."""
from math import *
o = ["-------------------------------- MODULE Trig --------------------------------",
     "(* Generated by tools/gen_trig.py: rounded values of elementary functions.   *)",
     "EXTENDS Integers"]
def tab(name, doc, xs):
    o.append("(* %s *)" % doc)
    s = name + " == <<" + ", ".join(str(x) for x in xs) + ">>"
    while len(s) > 118:
        k = s.rfind(", ", 0, 116) + 1
        o.append(s[:k]); s = "   " + s[k:]
    o.append(s)
def tab2(name, doc, rows):
    o.append("(* %s *)" % doc)
    o.append(name + " == <<")
    for i, r in enumerate(rows):
        s = "  <<" + ", ".join(str(x) for x in r) + ">>" + ("," if i + 1 < len(rows) else "")
        while len(s) > 118:
            k = s.rfind(", ", 0, 116) + 1
            o.append(s[:k]); s = "    " + s[k:]
        o.append(s)
    o.append(">>")
tab("Cos16", "cosine of (i - 1)/16 radian, in 1e-6", [round(cos(i / 16) * 1e6) for i in range(0, 110)])
tab2("AtanH", "arc tangent of h / (2 r), in 2^-18 radian: AtanH[h][r]", [[round(atan(h / (2 * r)) * 2**18) for r in range(1, 33)] for h in range(1, 17)])
tab("Sin50", "sine of (i - 1)/50 radian, in 1e-4", [round(sin(i / 50) * 1e4) for i in range(0, 81)])
o.append("=" * 77)
open(__file__.rsplit("/", 2)[0] + "/spec/Trig.tla", "w").write("\n".join(o) + "\n")
