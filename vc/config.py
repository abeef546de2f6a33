"""Which contract files decide which property."""
# property -> (contract files, extra notes)
FILES = {
    "K01": ["kernels"], "K02": ["kernels"], "K03": ["kernels", "means"],
    "M01": ["means"],
    "G01": ["gp"], "G02": ["gp"], "G03": ["gp"], "G04": ["gp"], "G05": ["multigp"], "G07": ["gpopt"],
    "B01": ["bo"], "B02": ["bo"], "B03": ["bo"], "B04": ["bo"],
    "A01": ["acqui"], "O01": ["opt"], "O02": ["opt"], "O03": ["optmeta"], "O04": ["nlopt"], "I01": ["init"],
    "T01": ["tools", "tools_tbb"], "T02": ["tools"], "X02": ["parego"], "X03": ["cbo"],
    "S01": ["save"], "S02": ["save"],
}

TRUSTED = [
    "clang 18 front end (fe/export.cpp walks its AST; the verified text is the body exported from /repo on this run)",
    "symbolic executor, normaliser and loop rules of vc/ (every loop closed form is itself an obligation proved by induction)",
    "z3 5.3.2 and cvc5 1.1.2",
    "contracts of external libraries in vc/models.py (Eigen, libstdc++, Boost), listed per check under trusted_contracts",
]
ASSUMPTIONS = [
    "machine arithmetic is treated as mathematical: doubles are reals, integers do not overflow (unsigned wrap-around of subtractions is an obligation)",
    "partial correctness: a loop without an inferred trip count is assumed to terminate",
    "side conditions of the normaliser: arguments of log are positive, arguments of sqrt non-negative, divisors non-zero where the code divides",
    "contracts of abstract parameters (template arguments declared without body) are arbitrary deterministic functions of their arguments",
]
