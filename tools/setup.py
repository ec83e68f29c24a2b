#!/usr/bin/env python3
# Nothing needs to be prepared: every check builds what it needs. Confirms that the tools are there.
import subprocess, sys
r = subprocess.run(["g++-10", "--version"], stdout=subprocess.PIPE, text=True)
print(r.stdout.splitlines()[0])
sys.exit(r.returncode)
