"""development helper: build and run a planted bug's demo.cpp against the tree VERIF_REPO names"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
d = sys.argv[1]
exe = B.build("plain", {"demo_" + os.path.basename(d): [d + "/demo.cpp"]})
e = list(exe.values())[0]
import tempfile
with tempfile.TemporaryDirectory() as t:
    sys.exit(subprocess.run([e], cwd=t, timeout=200).returncode)
