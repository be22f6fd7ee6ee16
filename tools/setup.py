#!/usr/bin/env python3-vt
"""setup: nothing to build (the verifier is interpreted); checks that the tools it needs are present"""
import shutil, sys
import z3
missing = [t for t in ('clang++-18', 'g++', 'cvc5', 'z3-new') if not shutil.which(t)]
print('z3', z3.get_version_string(), 'missing:', missing)
sys.exit(1 if missing else 0)
