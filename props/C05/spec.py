SCOPE = "step and reset: every polynomial of degree 1..30 and every register below it, extended to all histories by the class invariant; verdict on full length: every polynomial of degree 2..6 from two start registers proved by complete unrolling, up to degree 12 explored natively"
UNITS = [dict(src='mls.cc')]
SECS = 2
