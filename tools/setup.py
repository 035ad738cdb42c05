"""Sanity of the installed pieces: provers answer, the repository imports."""
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = subprocess.run(['/opt/venv/bin/python', '-c', 'import sys; sys.path.insert(0, "/repo"); import specula; specula.init(-1, precision=0); print("ok")'],
                   capture_output=True, text=True, cwd='/tmp')
print(r.stdout, r.stderr[-500:])
z = subprocess.run(['z3', '--version'], capture_output=True, text=True)
print(z.stdout)
sys.exit(0 if 'ok' in r.stdout and z.returncode == 0 else 1)
