"""Nothing is built ahead: every check instruments /repo's current source.  This only shows that the tools are there."""
import subprocess, sys, os
py = "/opt/veriftools/pyvenv/bin/python"
r = subprocess.run([py if os.path.exists(py) else sys.executable, "-c",
                    "import sys; sys.path.append('/opt/venv/lib/python3.12/site-packages'); import z3, jinja2, yaml; print('z3', z3.get_version_string())"])
sys.exit(r.returncode)
