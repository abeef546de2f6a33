"""Texts for MANIFEST.json"""
TECH = {}
NOTE = {}
# bounded stand-ins: never counted as proved
BND = "Bounded, not a proof: the contract scenarios are run on the compiled code over generated inputs (sizes up to 9, at least 20 seconds of cases per scenario or 20000 cases). "
BOUNDED = {
    "S01": BND + "The contracts of both archives are about bytes in files written through C++ streams and decimal conversions in libstdc++, for which the verifier has no contracts. ",
}
TECH["S01"] = "bounded stand-in: the contract (what is loaded equals what was saved) checked at run time on the real archives over generated inputs"
NOTE["S02"] = ("The proved part is GP::load over an archive contract (an object name gives back what was saved under it, which S01 checks on the real archives), for a fresh and a used loading object, with and without refitting; "
               "the same through the real text and binary archives, and for MultiGP, is a bounded run (scenarios ending in _rt). ")
NA = {
    "X05": "a limit statement about unspecified objectives and budgets: no postcondition of a function in /repo implies it, so no contract can decide it",
    "X07": "the wrapped library (libcmaes) is not installed, so the wrapper cannot be parsed or compiled here",
}
