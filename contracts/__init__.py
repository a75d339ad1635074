"""Which tasks decide which property."""
from . import concatenated, controls, conversion, errors, exports, predef, purity, seqs, texts


def tasks(mod, names):
    return [(mod, n) for n in names]


CONV = ["the constructor of controls stores what it is given when durations are positive and no Rabi rate is negative (C01)",
        "pulse rotations are zero or at least 1e-7 (the property leaves smaller ones open)"]
CONC = ["proof rules: induction over the order of the recursion, over the entries of words and over the slots; a selection by condition keeps the order"]
CHECKS = {
    "C01": dict(level="proof", tasks=tasks("controls", controls.C01)),
    "C02": dict(level="proof", tasks=tasks("controls", controls.C02)),
    "C03": dict(level="proof", tasks=tasks("controls", controls.C03)),
    "C04": dict(level="proof", tasks=tasks("exports", exports.C04)),
    "C05": dict(level="proof", tasks=tasks("exports", exports.C05)),
    "C06": dict(level="proof", tasks=tasks("predef", predef.C06)),
    "C07": dict(level="proof", tasks=tasks("predef", predef.C07)),
    "C08": dict(level="proof", tasks=tasks("predef", predef.C08), trusted=["sympy (Groebner bases over the rationals), mpmath interval arithmetic"]),
    "C09": dict(level="proof", tasks=tasks("predef", predef.C09),
                assume=["durations that are not a whole number of minimum segments: the minimum segment duration is a known finding there",
                        "proof rules for sums: a common factor may be taken out, the order may be reversed"]),
    "C10": dict(level="proof", tasks=tasks("exports", exports.C10)),
    "C11": dict(level="proof", tasks=tasks("conversion", conversion.C11), assume=CONV + [
        "proof rules: induction over the places of the sequence; a selection by condition keeps the order, so times are sums over the candidates that are kept"]),
    "C12": dict(level="proof", tasks=tasks("conversion", conversion.C12), assume=CONV),
    "C13": dict(level="proof", tasks=tasks("conversion", conversion.C13), assume=CONV),
    "C14": dict(level="proof", tasks=tasks("seqs", seqs.C14)),
    "C15": dict(level="proof", tasks=tasks("seqs", seqs.C15)),
    "C16": dict(level="proof", tasks=tasks("concatenated", concatenated.C16) + tasks("seqs", seqs.C16), assume=CONC),
    "C17": dict(level="proof", tasks=tasks("concatenated", concatenated.C17) + tasks("seqs", seqs.C17), assume=CONC),
    "C18": dict(level="proof", tasks=tasks("purity", purity.C18)),
    "C19": dict(level="proof", tasks=tasks("errors", errors.C19), assume=["keys of the dictionaries are strings; their representations never fail"]),
    "C20": dict(level="proof", tasks=tasks("texts", texts.C20), assume=["the text of a number reads back as that number, the representation of an array is numpy's"]),
    "C21": dict(level="proof", tasks=tasks("exports", exports.C21), assume=["the conversion returns a control with the given name or raises the arguments error (C11 to C13)"]),
}
for c in CHECKS.values():
    c.setdefault("note", "every path of the real functions is executed symbolically for all sizes and values; rounding is covered by run-time contracts only")
for i in range(1, 22):
    CHECKS.setdefault("C%02d" % i, dict(level="exploration", tasks=[], note="run-time contracts"))
