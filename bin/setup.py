#!/usr/bin/env python3
"""Build the framework from the committed files: compile the module overrides."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from tlcrun import HERE, BUILD, JARS

def ensure(force=False):
    src = os.path.join(HERE, 'java', 'FixOverrides.java')
    dst = os.path.join(BUILD, 'FixOverrides.class')
    if not force and os.path.exists(dst) and os.path.getmtime(dst) >= os.path.getmtime(src): return
    os.makedirs(BUILD, exist_ok=True)
    tmp = BUILD + '.%d' % os.getpid()
    subprocess.run(['javac', '-cp', JARS, '-d', tmp, src], check=True)
    for f in os.listdir(tmp): os.replace(os.path.join(tmp, f), os.path.join(BUILD, f))
    os.rmdir(tmp)

if __name__ == '__main__':
    ensure(force=True)
    if '--notest' not in sys.argv:
        subprocess.run([sys.executable, os.path.join(HERE, 'bin', 'fixtest.py')], check=True)
