#!/usr/bin/env python3
"""Builds the extractor and the replay harness (the checks build them again)."""
import subprocess, os, sys
here = os.path.dirname(os.path.abspath(__file__))
for c in ('extract', 'replay'):
    r = subprocess.run(['cargo', 'build', '--offline', '--release', '--quiet'], cwd=os.path.join(here, c), env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(here, 'target', c)))
    if r.returncode: sys.exit(1)
