SCOPE = "interleavers of 12 shapes, Fisher-Yates shuffles of 12 sizes from 2 to 5000 and bit reversal of every power of two up to 4096 and 16384, over bytes, integers, wide integers and records with arbitrary content"
UNITS = [dict(src='perm.cc')]
SECS = 1
