SCOPE = "table fields of degree 2..8, 10, 12 and 16 and reference fields of degree 2..32, every operand; products in the large fields compose the power-table, logarithm-addition and shift-commutes obligations"
UNITS = [dict(src='gf.cc')]
SECS = 2
