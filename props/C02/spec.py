SCOPE = "all six functions, every position from 0 to INT_MAX, every value and every surrounding byte"
UNITS = [dict(src='bitman.cc')]
SECS = 2
