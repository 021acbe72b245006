#!/usr/bin/env python3
"""check.py <property id> [quick|thorough] [--seconds N] [--replay FILE]"""
import importlib, os, shutil, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from rds import engine
from rds.build import BuildError

NUMPY = ('C23', 'C24', 'C25', 'C26', 'C27', 'C28', 'C30', 'C31')


def main():
    pid = sys.argv[1]
    if pid in NUMPY:
        try:
            import numpy
        except ImportError:
            vt = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'
            os.execv(vt, [vt, os.path.abspath(__file__)] + sys.argv[1:])
    mod = importlib.import_module('checks.' + pid.lower())
    try:
        return engine.main(mod.CHECK, sys.argv[2:])
    except BuildError as e:
        sys.stderr.write('build failed: %s\n' % e)
        return 2

if __name__ == '__main__':
    sys.exit(main())
