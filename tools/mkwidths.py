#!/usr/bin/env python3
"""mkwidths.py: writes spec/Widths.tla, the display widths of characters by the
Unicode character database of Python: control, format and combining characters
have no width, those that are wide or full width by East Asian Width take two
columns, all others one. (Run by hand: the file is committed.)"""
import os, unicodedata as u
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def width(c):
    g = u.category(chr(c))
    if g in ("Cc", "Mn", "Me", "Cf"):
        return 0
    return 2 if u.east_asian_width(chr(c)) in "WF" else 1


runs = []
for c in range(0x110000):
    if 0xd800 <= c < 0xe000:
        continue
    # unassigned characters continue the run that they are in
    w = runs[-1][1] if runs and u.category(chr(c)) == "Cn" else width(c)
    if not runs or runs[-1][1] != w:
        runs.append((c, w))
with open(V + "/spec/Widths.tla", "w") as f:
    f.write("------------------------------- MODULE Widths -------------------------------\n"
            "(* Display width of characters; written by tools/mkwidths.py                *)\n"
            "EXTENDS Integers, Sequences\n\n"
            "(* <<first character, width>> of each run of characters of one width        *)\n"
            "Runs == <<\n")
    items = ["<<%d, %d>>" % r for r in runs]
    for i in range(0, len(items), 6):
        f.write("    " + ", ".join(items[i:i + 6]) + ("," if i + 6 < len(items) else "") + "\n")
    f.write("    >>\n\nRECURSIVE RunOf(_, _, _)\n"
            "(* The last of the runs lo..hi that starts at or before c                   *)\n"
            "RunOf(c, lo, hi) ==\n"
            "    IF lo = hi THEN lo\n"
            "    ELSE LET mid == (lo + hi + 1) \\div 2\n"
            "         IN IF Runs[mid][1] <= c THEN RunOf(c, mid, hi) ELSE RunOf(c, lo, mid - 1)\n\n"
            "Width(c) == IF c < 32 THEN 0\n"
            "            ELSE IF c < 127 THEN 1\n"
            "            ELSE Runs[RunOf(c, 1, Len(Runs))][2]\n"
            "=============================================================================\n")
print(len(runs))
