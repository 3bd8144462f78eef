#!/usr/bin/env python3
"""Nothing is built ahead of time: every check extracts, proves and compiles from
/repo's current tree.  This only confirms that the tools are there."""
import shutil, sys, os, tempfile, subprocess
miss = [t for t in ("why3", "z3", "cvc5", "clang++-18", "g++", "c++filt") if not shutil.which(t)]
if not os.path.exists("/usr/local/bin/z3-new"):
    miss.append("z3-new")
if miss:
    print("missing tools:", miss)
    sys.exit(1)
ROOT = os.path.dirname(os.path.abspath(__file__))
p = subprocess.run(["why3", "--config", os.path.join(ROOT, "vt/why3.conf"), "prove", "-L", os.path.join(ROOT, "theories"), "--type-only", os.path.join(ROOT, "theories/prelude.mlw")])
sys.exit(p.returncode)
