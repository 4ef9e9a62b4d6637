"""Nothing to build: checks that the interpreters and z3 are there and that the engine's self test passes."""
import os, subprocess, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-c', 'import symx, z3, sympy; from symx import core; print(z3.get_version_string(), sympy.__version__)'], cwd=H)
sys.exit(r.returncode)
