#!/usr/bin/env python3-vt
"""native/sbtab.inc: the oracle tables of vc/sbtab.py for the native oracles"""
import os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/vc")
import sbtab
with open(R + "/native/sbtab.inc", "w") as f:
    f.write("// generated by tools/gen_sbtab.py; 0xFFFD: the byte is not part of the charset\n#define EACH_SB(X) %s\n" % " ".join("X(%s)" % n for n in sbtab.NAMES))
    f.write("struct SbTab { const char* name; unsigned short dec[256]; };\nstatic const SbTab sbtabs[] = {\n")
    for n in sbtab.NAMES:
        f.write('{"%s", {%s}},\n' % (n, ",".join("0x%X" % (0xFFFD if c is None else c) for c in sbtab.decode_table(n))))
    f.write("};\n")
