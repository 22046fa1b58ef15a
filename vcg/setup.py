"""setup: nothing to build (Python + installed tools); checks that the tools are there."""
import ctypes
import os
import shutil
import sys
from . import build, llvmir


def main():
    ok = True
    for t in (build.CLANG, build.OPT) if hasattr(build, 'OPT') else (build.CLANG,):
        if not (os.path.exists(t) or shutil.which(t)):
            print('missing', t)
            ok = False
    for t in ('cvc5', 'z3-new'):
        if not shutil.which(t):
            print('note: back end', t, 'not found; others are used')
    import z3
    print('z3', z3.get_version_string())
    return 0 if ok else 1


if __name__ == '__main__':
    sys.exit(main())
