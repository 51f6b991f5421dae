BASE = [
    "z3 4.x (python bindings of the tools venv), cvc5",
    "the obligation generator and rewriting prover in /verif/vt (term, poly, nf, prove, smt)",
    "contracts of the torch operators used by the library (vt/symt.py), cross-checked against real torch by selfcheck.py and by running every contract on the real library",
    "CPython executing the unmodified library source; redirected entry points are listed in vt/patch.py",
]
ASSUMPTIONS = [
    "floating point arithmetic is treated as exact real arithmetic (rounding, overflow, NaN and -0.0 are outside the contracts)",
    "integer indices are mathematical integers (no int64 overflow)",
    "CPU execution, single thread; CUDA and Pulsar code paths are not built here and are out of scope",
    "torch autograd of compositions of torch operators is trusted; hand-written backward functions are under contract where listed",
    "device and stream semantics, memory layout and aliasing beyond views created by the modelled operators are not modelled",
]
