#!/usr/bin/env python3
"""Writes spec/CodePages.tla from the ISO 8859 tables of the Python standard library."""
import os
P = ["iso8859_1", "iso8859_2", "iso8859_3", "iso8859_4", "iso8859_9", "iso8859_10", "iso8859_13", "iso8859_14", "iso8859_15"]
out = ["---------------------------- MODULE CodePages ----------------------------",
       "(* The upper halves (bytes 128..255) of the ISO 8859 parts 1,2,3,4,9,10,13,14,15. *)",
       "(* Generated by tools/mkcodepages.py from the tables of the Python standard       *)",
       "(* library; 65533 marks bytes the standard leaves undefined.                      *)"]
for k, p in enumerate(P):
    v = []
    for b in range(128, 256):
        try:
            v.append(ord(bytes([b]).decode(p)))
        except UnicodeDecodeError:
            v.append(65533)
    out.append("Iso%d == <<%s>>" % (k + 1, ", ".join(map(str, v))))
out.append("=============================================================================")
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "CodePages.tla")
open(f, "w").write("\n".join(out) + "\n")
