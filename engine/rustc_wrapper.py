#!/usr/bin/env python3
"""RUSTC_WRAPPER: emit LLVM IR for the crates that are encoded, and record the final link command."""
import json, os, sys

ENCODED = {'measures_core', 'measures_distributions', 'measures_exponential_family', 'measures_combinators',
           'measures_bayesian', 'symbolic_math', 'mathjit', 'vharness'}
a = sys.argv[1:]
env = dict(os.environ)
if '--crate-name' in a:
    name = a[a.index('--crate-name') + 1]
    kind = a[a.index('--crate-type') + 1] if '--crate-type' in a else ''
    if name in ENCODED and kind != 'bin':
        a += ['--emit=llvm-ir', '-Ccodegen-units=1', '-Zshare-generics=n']
        env['RUSTC_BOOTSTRAP'] = '1'
    if name == 'vmain' and os.environ.get('VSYM_LINK'):
        json.dump({'cmd': a, 'cwd': os.getcwd()}, open(os.environ['VSYM_LINK'], 'w'))
os.execvpe(a[0], a, env)
