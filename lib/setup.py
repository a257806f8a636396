"""Checks build everything they need themselves; this only makes sure the tools are there."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(V + "/evidence", exist_ok=True)
for cmd in (["tlc", "-h"], ["bash", "-c", ". /opt/vp/env.sh; go version"]):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if not r.stdout:
        sys.exit(f"{cmd} does not work")
