"""setup_cmd: nothing to compile; makes sure the stand-in solver is
executable and the interpreter has what the checks need."""
import os
import stat
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(VERIF, 'stubs', 'bin', 'pomdp-solve')
os.chmod(p, 0o755)
import numpy  # noqa
print('setup ok: python %s, numpy %s' % (sys.version.split()[0],
                                         numpy.__version__))
