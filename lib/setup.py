"""Compiles what the checks share, so that the first one does not pay for all."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, vp
vp.java_classes()
have = [d for d, (srcs, _, _) in B.DRIVERS.items() if all(s.startswith("@") or os.path.exists(os.path.join(B.VERIF, s)) for s in srcs)]
B.build(have, True)
print("built", *have)
