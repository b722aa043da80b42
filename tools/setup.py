#!/usr/bin/env python3
"""Nothing to build: checks that the interpreter the checks use has what they need."""
import shutil
import subprocess
import sys

py = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
sys.exit(subprocess.call([py, "-c", "import hypothesis; print('hypothesis', hypothesis.__version__)"]))
