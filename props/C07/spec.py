SCOPE = "prime fields 2, 3, 17, 251, 257, 65521 and 65537 over the 32 and 64 bit carriers, every reduced operand; every reciprocal; deferred operations against the integers"
UNITS = [dict(src='pf.cc')]
SECS = 2
