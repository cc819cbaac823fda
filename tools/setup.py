#!/usr/bin/env python3
"""Nothing is fetched or installed; parses every specification so that a damaged checkout is noticed early."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(V + "/build", exist_ok=True)
cp = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for f in sorted(glob.glob(V + "/spec/*.tla")):
    p = subprocess.run(["java", "-cp", cp, "tla2sany.SANY", f], cwd=V + "/spec", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        print(p.stdout.decode()[-2000:])
        bad = 1
sys.exit(bad)
