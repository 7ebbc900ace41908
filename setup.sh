#!/bin/bash
# Nothing to build: the provers regenerate their obligations from /repo on every run. Check that the tools are there.
cd "$(dirname "$(realpath "$0")")" || exit 1
/opt/venv/bin/python -c "
from vf import env
import z3, numpy, galois, qldpc
assert qldpc.__file__.startswith('/repo/'), qldpc.__file__
print('z3', z3.get_version_string(), 'qldpc from', qldpc.__file__)
" && lean --version
