SCOPE = "Cauchy Reed-Solomon erasure coding: all data for every choice and order of identifiers of up to three blocks over GF(8) and two over GF(16), and for samples of identifiers of up to eight blocks over GF(16), GF(256) and GF(65536), through the three forms of the interface; the multiply-accumulate kernels of the AVX2, SSE4.1 and NEON flavours and the plain one, for all data and samples of the factors (every factor of GF(256) in the thorough tier), aligned or not"
SMALL = ['h_gf8_1', 'h_gf8_2', 'h_gf8_3', 'h_gf16_1', 'h_gf16_2', 't_gf16_3', 'h_gf16_5', 'h_gf16_8', 'h_gf16_wide', 'h_gf256_2', 'h_gf256_7', 'h_gf65536_2', 'h_gf65536_5', 'h_gf256_matrix', 'h_gf16_matrix']
SIMD = ['h_gf256_simd', 'h_gf256_mixed', 'h_gf65536_simd', 'h_gf256_kernel', 't_gf256_kernel', 'h_gf256_kernel_odd', 'h_gf65536_kernel', 'h_gf65536_kernel_odd', 't_gf65536_kernel']
UNITS = [dict(src='crs.cc', entries=SMALL, opts=['--max-runs', '100000'])]
UNITS.append(dict(src='crs.cc', entries=SIMD, flavours=['avx2', 'sse4', 'neon', 'generic']))
SECS = 2
