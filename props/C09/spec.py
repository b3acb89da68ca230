SCOPE = "packed and reference BCH encoders (15,5), (15,7), (31,16), (255,247), (255,239) and (65535,65343): every message of every length for the two smallest sizes, every seventeenth length and the full length for length 255, lengths up to 285 bits for length 65535 and, at its full length, windows in the middle and at the tail of an otherwise zero message (a window at the head is bounded)"
UNITS = [dict(src='bchenc.cc', time=300)]
SECS = 1
