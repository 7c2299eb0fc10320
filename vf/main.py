import os
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import runner
import scipy.spatial, scipy.special, scipy.optimize, yaml

if __name__ == '__main__':
    rc = runner.main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
