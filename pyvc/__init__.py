"""pyvc: a small deductive verifier for the Python subset used by teleprox.

source text of /repo  --ast-->  symbolic execution of each function under contract, all paths,
loops by invariant  -->  verification conditions  --z3 (cvc5)-->  discharged / refuted / unknown
"""
