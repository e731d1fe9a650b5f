"""setup_cmd: builds the prover (the checks also build it on demand)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common as K
print(K.build_engine())
