SCOPE = "all polynomials, registers and bytes for bit and byte feeds at the four register widths; wide feeds for eight polynomials in use, all registers and data; histories by induction on the class invariant"
UNITS = [dict(src='crc.cc')]
