#!/usr/bin/env python3
"""Nothing is built ahead of the checks; this only makes sure that the tools are there."""
import shutil, subprocess, sys
missing = [t for t in ('clang++', 'g++', 'verus') if not shutil.which(t)]
if missing:
    print('missing: %s' % missing); sys.exit(1)
subprocess.run(['verus', '--version'], check=True)
