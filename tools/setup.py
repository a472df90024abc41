#!/usr/bin/env python3
"""Sanity-check the toolchain the monitors need (everything is built per check from /repo's tree)."""
import shutil, sys
missing = [t for t in ('g++', 'gcc', 'clang', 'clang++', 'make', 'git') if not shutil.which(t)]
if missing:
    print('missing tools:', missing); sys.exit(1)
print('ok')
