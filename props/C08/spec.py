SCOPE = "systematic Reed-Solomon encoders over GF(8), GF(16), GF(256) and GF(65536) with several roots and first consecutive roots, every message of every length covered by the case splits"
UNITS = [dict(src='rsenc.cc')]
SECS = 1
