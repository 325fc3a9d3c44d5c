"""Checks that the tools the checks need are there."""
import os
import subprocess
import sys
import numpy
import z3
print('python', sys.version.split()[0], 'numpy', numpy.__version__, 'z3',
      z3.get_version_string())
py = '/opt/venv/bin/python'
if os.path.exists(py):
    subprocess.run([py, '-c', 'import numpy; print("replay numpy", '
                    'numpy.__version__)'], check=True)
