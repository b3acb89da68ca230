/*
Specification of systematic Reed-Solomon code words over GF(2^M), independent of the
code under verification.
*/
#ifndef VF_RSSPEC_HH
#define VF_RSSPEC_HH
#include "gfspec.hh"
template <int NR, int FCR, int M, int64_t POLY>
struct RsSpec {
	typedef GfSpec<M, POLY> G;
	// parity of the message: the remainder of data * x^NR by the generator polynomial
	template <typename T>
	static void encode(const T *data, T *parity, int len)
	{
		uint32_t gen[NR+1], root = G::power(FCR);
		gen[0] = 1;
		for (int i = 0; i < NR; ++i) {
			gen[i+1] = 0;
			for (int j = i + 1; j > 0; --j)
				gen[j] = gen[j] ^ G::mul(root, gen[j-1]);
			root = G::mul(root, 2);
		}
		uint32_t par[NR];
		for (int i = 0; i < NR; ++i)
			par[i] = 0;
		for (int i = 0; i < len; ++i) {
			uint32_t fb = data[i] ^ par[0];
			for (int j = 0; j < NR; ++j)
				par[j] = (j < NR - 1 ? par[j+1] : 0) ^ G::mul(gen[j+1], fb);
		}
		for (int i = 0; i < NR; ++i)
			parity[i] = par[i];
	}
	// the values at the NR roots
	template <typename T>
	static void syndromes(const T *data, const T *parity, uint32_t *syn, int len)
	{
		uint32_t root = G::power(FCR);
		for (int r = 0; r < NR; ++r) {
			uint32_t sum = 0;
			for (int i = 0; i < len; ++i)
				sum = G::mul(root, sum) ^ data[i];
			for (int i = 0; i < NR; ++i)
				sum = G::mul(root, sum) ^ parity[i];
			syn[r] = sum;
			root = G::mul(root, 2);
		}
	}
};
#endif
