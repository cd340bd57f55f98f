#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]: rebuild from /repo, run one check"""
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild

ap = argparse.ArgumentParser()
ap.add_argument('id')
ap.add_argument('--tier', default=None)
ap.add_argument('--replay')
a = ap.parse_args()
exe = vbuild.build_harness([a.id])[0]
env = os.environ
env['VERIF_DIR'] = vbuild.VERIF
out = os.path.dirname(exe)
env['FIMEX_IO_PLUGINS_PATH'] = out
env['VP_PLUGINS'] = out
env['VERIF_REPO'] = vbuild.REPO
env['LC_ALL'] = 'C.UTF-8'
# libgomp reads these when it is loaded
env.setdefault('OMP_NUM_THREADS', '2')
env.setdefault('OMP_WAIT_POLICY', 'passive')
tier = a.tier or env.get('VERIF_TIER', 'quick')
args = [exe]
if tier == 'thorough':
    args.append('--thorough')
if a.replay:
    args += ['--replay', a.replay]
sys.stdout.flush()
os.execve(exe, args, env)
