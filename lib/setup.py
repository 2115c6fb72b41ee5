"""Builds all variants and monitors once, so that checks start from a warm cache."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
b = build.Builder()
try:
    b.tool('tracecheck')
    for v in ('san', 'opt', 'sample'):
        b.repo_bins(v)
except build.BuildError as e:
    print('warning: %s' % str(e)[-2000:])
finally:
    b.close()
