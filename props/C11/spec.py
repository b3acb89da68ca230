SCOPE = "rotations of every width and every amount (positive and negative) for eight vector types, in the AVX2, SSE4.1, NEON and plain builds"
UNITS = [dict(src='rot.cc', flavours=['avx2', 'sse4', 'generic', 'neon'])]
SECS = 1
