SCOPE = "every operation of an 80 bit stream from every position and content, all operand values; bit counts 0..64; byte counts 0..5"
UNITS = [dict(src='bitstream.cc')]
SECS = 3
