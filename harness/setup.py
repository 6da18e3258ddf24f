"""Check that the library, TLC and every module of the specification load."""
import os
import subprocess
import sys

from . import api, tlc

for name in sorted(os.listdir(tlc.SPEC)):
    if name.endswith(".tla"):
        p = subprocess.run(["java", "-cp", tlc.JARS, "tla2sany.SANY", name], cwd=tlc.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        text = p.stdout.decode("utf8", "replace")
        if p.returncode != 0 or "error" in text.lower().replace("error(s)", ""):
            print(text)
            sys.exit(1)
print("%d schemes, %d coding schemes; specification parses" % (len(api.SCHEMES), len(api.CODING)))
