"""extract translation units: xt.py tu..."""
import sys; sys.path.insert(0, "/verif")
from vc import build as B
for t in sys.argv[1:]: print(t, B.extract(t))
