#!/usr/bin/env python3
"""Writes mc/src/specs_table.rs: format specifications, each as the library's
format string and as std's. Not run by any check."""
import os
FLAGS = ["", "+", "-", "#", "0", "<", "^", ">", ">+#0"]
WIDTHS = ["", "1", "7", "40", "300"]
PRECS = ["", ".0", ".3"]
TRAITS = ["", "?", "x?", "X?", "o", "x", "X", "p", "b", "e", "E"]
ATTRS = [("", "c"), ("(fg=red)", "fg(c)"), ("(bold,bg=blue)", "bb(c)")]
rows = []
for t in TRAITS:
    for w in WIDTHS:
        for p in PRECS:
            for f in FLAGS:
                rows.append((f, w, p, t))
for t in ["", "?", "x", "e"]:
    rows += [("", "65535", "", t), ("^", "4097", "", t), ("0", "32", "", t), ("", "33", ".40", t), ("", "", ".300", t), ("+", "2", ".1", t), ("<", "129", ".33", t), ("#", "257", "", t)]
out = []
for i, (f, w, p, t) in enumerate(rows):
    a, s = ATTRS[i % 3]
    out.append(f'    s!("{{:{f}{w}{p}{a}{t}}}", "{{:{f}{w}{p}{t}}}", {int(w or 0)}, {i % 3}),')
text = "//! Written by tools/mkspecs.py.\n" + f"pub static SPECS: [Spec; {len(out)}] = [\n" + "\n".join(out) + "\n];\n"
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc/src/specs_table.rs"), "w").write(text)
