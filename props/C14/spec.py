SCOPE = "Hadamard and simplex codes of dimension 2 to 7: every message encoded, every soft input of 8 bit values decoded; unique-best result by pairwise comparison for dimensions 2 to 4 (simplex 2 and 3), and for all dimensions against a reference search whose invariant is proved for an arbitrary step"
UNITS = [dict(src='hs.cc')]
SECS = 2
