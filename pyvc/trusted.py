"""What the verdicts rest on, reported in every evidence file."""
BASE = [
    "CPython 3.12 executes the real source statements (symbolic values flow through the interpreter; the code is not translated)",
    "PyVC models of numpy and xarray operations (pyvc/arrays.py, pyvc/xrmodel.py); compared with the installed libraries by evaluating every contract on the real code (cross_checked_on_real_code)",
    "the polynomial normal form and case splitter in pyvc/terms.py and pyvc/prover.py",
    "z3 5.3 and cvc5 1.4",
]
ASSUMPTIONS = [
    "floating-point arithmetic is treated as exact real arithmetic (overflow, rounding and float32 storage not modelled)",
    "functions contracted on dependencies: numpy, xarray, pandas, cftime, netCDF4 behave as modelled",
    "sin, cos, exp are uninterpreted functions with range facts only",
    "sizes are unbounded integers; memory is unlimited",
]
