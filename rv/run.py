import os
import sys
import warnings

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter('ignore')

import loader
loader.install()

import numpy as np
np.seterr(all='ignore')

import core
sys.modules.setdefault('core', core)
import props

if __name__ == '__main__':
    props.load(sys.argv[1])
    sys.exit(core.main(sys.argv[1:]))
