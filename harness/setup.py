"""setup_cmd: nothing is compiled; verifies that the tools are there and that every specification parses."""
import glob
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
bad = 0
for f in sorted(glob.glob(os.path.join(V, "spec", "*.tla"))):
    r = subprocess.run(["java", "-cp", JAR, "tla2sany.SANY", os.path.basename(f)], cwd=os.path.dirname(f), capture_output=True, text=True)
    if r.returncode != 0 or "*** Errors" in r.stdout or "Fatal" in r.stdout:
        print(r.stdout[-2000:])
        bad = 1
r = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy"], capture_output=True, text=True)
if r.returncode:
    print(r.stderr)
    bad = 1
sys.exit(bad)
