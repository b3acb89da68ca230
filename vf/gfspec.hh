/*
Specification of the arithmetic of GF(2^M), and the contracts of the table
arithmetic that C06 establishes.  The contracts are bilinear, so that code with one
constant operand becomes linear over GF(2).
*/
#ifndef VF_GFSPEC_HH
#define VF_GFSPEC_HH
template <int M, int64_t POLY>
struct GfSpec {
	static uint32_t mul(uint32_t a, uint32_t b)
	{
		uint64_t r = 0;
		for (int i = M - 1; i >= 0; --i) {
			r <<= 1;
			if ((r >> M) & 1)
				r ^= POLY;
			if ((a >> i) & 1)
				r ^= b;
		}
		return r;
	}
	static uint32_t power(int n)
	{
		uint32_t a = 1;
		for (int i = 0; i < n; ++i)
			a = mul(a, 2);
		return a;
	}
};
#endif
