SCOPE = "reductions of every length from 2 to 64 and of 255 and 400 elements for the free commutative operation, and of shorter lengths for minimum, parity and product"
UNITS = [dict(src='red.cc')]
SECS = 1
