#!/usr/bin/env python3
"""Nothing is prebuilt (every check builds from /repo's working tree); this
only makes sure the tools are there and the specifications parse."""
import os, subprocess, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.dont_write_bytecode = True
import tlc
import xgoenv as X

X.scratch()
X.run(["go", "version"])
specs = os.path.join(X.VERIF, "specs")
for d in sorted(os.listdir(specs)):
    p = X.run(["java", "-Djava.io.tmpdir=" + X.sub("jtmp"), "-cp", tlc._cmd(), "tla2sany.SANY"]
              + sorted(f for f in os.listdir(os.path.join(specs, d)) if f.endswith(".tla")),
              cwd=os.path.join(specs, d), check=False)
    if p.returncode != 0 or "*** Errors" in p.out or "Fatal errors" in p.out:
        sys.exit("specs/%s does not parse:\n%s" % (d, p.out + p.err))
    print("specs/%s parses" % d)
