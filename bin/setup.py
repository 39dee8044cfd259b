#!/usr/bin/env python3
"""Checks that the tools the checks use are here; everything is built by the checks themselves, from /repo's current tree."""
import shutil, subprocess, sys, os
missing = [t for t in ('node', 'gcc', 'g++', 'make', 'nm', 'objcopy', 'qemu-x86_64') if not shutil.which(t)]
if not os.path.exists('/usr/lib/node_modules/npm/node_modules/node-gyp/bin/node-gyp.js'): missing.append('node-gyp')
if subprocess.run(['node', '-e', "require(process.argv[1])", os.path.join(os.path.dirname(os.path.abspath(__file__)), '../js/lib.js')]).returncode: missing.append('fast-check')
if missing: print('missing: ' + ', '.join(missing))
sys.exit(1 if missing else 0)
