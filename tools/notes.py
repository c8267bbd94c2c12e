LEVEL = {}
DEFAULT = ("For all inputs, sizes and iterations, over real arithmetic: the obligations generated from the current source are discharged by the prover. "
           "Trusted: pyvc, z3/cvc5, the assumed contracts of the torch/numpy functions listed in the evidence (cross-checked on seeded concrete runs of the real package); floating-point rounding is not modelled.")
NOTES = {}
