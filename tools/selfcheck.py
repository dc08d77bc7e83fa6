#!/usr/bin/env python3
"""Nothing to build: makes sure that what the checks need is there."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
code = ('from dst import engine; engine.load(); '
        'print(len(engine.all_codes), "code objects,", '
        'len(engine.query_names()), "queries")')
sys.exit(subprocess.call(['/opt/venv/bin/python', '-c', code], cwd=ROOT))
