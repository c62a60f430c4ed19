#!/usr/bin/env python3
"""Offline setup: check the compiler and pre-build the sanitized library flavours."""
import run, sys
th = run.tree_hash()
for fl in ('asan', 'tsan'):
    try:
        print(fl, run.build_lib(fl, th))
    except run.HarnessError as e:
        print('setup: ', str(e)[:500])
        sys.exit(1)
