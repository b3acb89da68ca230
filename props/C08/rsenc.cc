#include "vf.hh"
#include "galois_field.hh"
#include "reed_solomon_encoder.hh"
#include "gfspec.hh"

// The code word data * x^NR + parity vanishes at the NR consecutive powers of the
// generator that define the code; the data are left alone.
template <int NR, int FCR, int M, int POLY, typename T>
struct Enc {
	typedef CODE::GaloisField<M, POLY, T> GF;
	typedef CODE::ReedSolomonEncoder<NR, FCR, GF> RS;
	typedef typename GF::ValueType V;
	static const int N = (1 << M) - 1, K = N - NR;
	static void code(int len, bool full)
	{
		GF *field = new GF;
		RS *encode = new RS;
		vf_assert(RS::N == N && RS::K == K && RS::NP == NR, "code parameters");
		T *data = new T[len];
		T orig[len], parity[NR];
		vf_fill_range(data, len, "data", 0, N);
		for (int i = 0; i < len; ++i)
			orig[i] = data[i];
		for (int i = 0; i < NR; ++i)
			parity[i] = vf_range<T>("stale", 0, N, i);
		if (full)
			(*encode)(data, parity);
		else
			(*encode)(data, parity, len);
		T root = GfSpec<M, POLY>::power(FCR);
		for (int r = 0; r < NR; ++r) {
			T sum = 0;
			for (int i = 0; i < len; ++i)
				sum = GfSpec<M, POLY>::mul(root, sum) ^ orig[i];
			for (int i = 0; i < NR; ++i)
				sum = GfSpec<M, POLY>::mul(root, sum) ^ parity[i];
			vf_assert(sum == 0, "the code word vanishes at every root");
			root = GfSpec<M, POLY>::mul(root, 2);
		}
		bool same = true, legal = true;
		for (int i = 0; i < len; ++i)
			same &= data[i] == orig[i];
		for (int i = 0; i < NR; ++i)
			legal &= parity[i] <= N;
		vf_assert(same, "the message is left alone");
		vf_assert(legal, "parity symbols are field elements");
		delete[] data;
		delete encode;
		delete field;
	}
	static void lengths(int from, int to, int step)
	{
		code(from + step * vf_choose("length", (to - from) / step + 1), false);
	}
};
typedef Enc<4, 0, 4, 0b10011, uint8_t> A;
typedef Enc<2, 1, 3, 0b1011, uint8_t> B;
typedef Enc<5, 3, 4, 0b11001, uint8_t> C;
typedef Enc<16, 0, 8, 0b100011101, uint8_t> D;
typedef Enc<32, 112, 8, 0b110000111, uint8_t> E;
typedef Enc<64, 1, 16, 0b10001000000001011, uint16_t> F;
typedef Enc<1, 0, 4, 0b10011, uint16_t> G;
VF_ENTRY(h_rs15_11) { A::lengths(1, A::K, 1); }
VF_ENTRY(h_rs15_11_full) { A::code(A::K, true); }
VF_ENTRY(h_rs7_5) { B::lengths(1, B::K, 1); }
VF_ENTRY(h_rs15_10) { C::lengths(1, C::K, 1); }
VF_ENTRY(h_rs15_14) { G::lengths(1, G::K, 1); }
VF_ENTRY(h_rs255_239) { D::lengths(1, 49, 3); }
VF_ENTRY(h_rs255_239_full) { D::code(D::K, true); }
VF_ENTRY(h_rs255_223) { E::lengths(1, 41, 10); }
VF_ENTRY(h_rs65535_65471) { F::lengths(1, 9, 4); }
