"""nothing to build: the verifier and the oracles are Python; checks that the tools are there"""
import shutil, subprocess, sys
pvt = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
subprocess.run([pvt, "-c", "import z3; print('z3', z3.get_version_string())"], check=True)
subprocess.run(["/opt/venv/bin/python", "-c", "import sys; print(sys.version)"], check=True)
