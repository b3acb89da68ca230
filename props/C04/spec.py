SCOPE = "all states and seeds for the steps and resets; the period of each generator's linear part is derived from the step matrix of the real code"
UNITS = [dict(src='xorshift.cc')]
SECS = 1
