INIT Init
NEXT Next
INVARIANTS Cosine Opposite Pole Noon Lower Fwd Rim Sym RefBound RefMore Ref39
CHECK_DEADLOCK FALSE
