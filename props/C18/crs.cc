#include "vf.hh"
#include "galois_field.hh"
#include "cauchy_reed_solomon_erasure_coding.hh"
#include "gfspec.hh"

template <int M, int64_t POLY, typename T>
struct Crs {
	typedef CODE::GaloisField<M, POLY, T> GF;
	typedef typename GF::ValueType V;
	typedef typename GF::IndexType I;
	typedef CODE::CauchyReedSolomonErasureCoding<GF> Code;
	typedef GfSpec<M, POLY> G;
	static const int N = (1 << M) - 1;
	static uint32_t inverse(uint32_t a)
	{
		uint32_t p = 1;
		for (int i = 1; i < M; ++i) {
			a = G::mul(a, a);
			p = G::mul(p, a);
		}
		return p;
	}
	// the coefficients of the code
	static void matrix(int ids, int cnt, bool inverses)
	{
		GF *field = new GF;
		Code *code = new Code;
		for (int i = cnt; i < ids; ++i)
			for (int j = 0; j < cnt; ++j)
				vf_assert(G::mul(value(code->cauchy_matrix(i, j)).v, i ^ j) == 1, "the coefficients are the reciprocals of the sums");
		delete code;
		delete field;
	}
	static int next(uint32_t &state)
	{
		state = state * 1664525 + 1013904223;
		return (state >> 8) & 0xffff;
	}
	// any data, encoded to blocks and recovered from them
	static void code(const int *ids, int cnt, int len, int shift, int mode)
	{
		GF *field = new GF;
		Code *code = new Code;
		int all = cnt * len;
		alignas(64) T data[all+32], blocks[all+32], back[all+32], orig[all];
		T idents[cnt];
		T *d = data + shift, *b = blocks + shift, *r = back + shift;
		for (int i = 0; i < all; ++i)
			d[i] = orig[i] = vf_range<T>("data", 0, N, i);
		for (int i = 0; i < all; ++i)
			b[i] = r[i] = vf_range<T>("stale", 0, N, i);
		for (int i = 0; i < cnt; ++i) {
			idents[i] = ids[i];
			if (mode == 0)
				code->encode(d, b + len * i, ids[i], len, cnt);
			else if (mode == 1)
				code->encode((const void *)d, (void *)(b + len * i), ids[i], len * sizeof(T), cnt);
			else
				code->encode((const V *)d, (V *)(b + len * i), ids[i], len, cnt);
		}
		bool right = true, same = true;
		for (int i = 0; i < cnt; ++i) {
			for (int j = 0; j < len; ++j) {
				uint32_t sum = 0;
				for (int k = 0; k < cnt; ++k)
					sum ^= G::mul(inverse(ids[i] ^ k), orig[len*k+j]);
				right = right & (b[len*i+j] == sum);
			}
		}
		vf_assert(right, "the blocks are the Cauchy combinations of the data");
		for (int i = 0; i < all; ++i)
			same = same & (d[i] == orig[i]);
		vf_assert(same, "the data are left alone");
		for (int i = 0; i < cnt; ++i) {
			if (mode == 0)
				code->decode(r + len * i, b, idents, i, len, cnt);
			else if (mode == 1)
				code->decode((void *)(r + len * i), (const void *)b, idents, i, len * sizeof(T), cnt);
			else
				code->decode((V *)(r + len * i), (const V *)b, (const V *)idents, i, len, cnt);
		}
		bool whole = true, kept = true;
		for (int i = 0; i < all; ++i)
			whole = whole & (r[i] == orig[i]);
		for (int i = 0; i < cnt; ++i)
			kept = kept & (idents[i] == ids[i]);
		vf_assert(whole, "any blocks, as many as there were, recover the data");
		vf_assert(kept, "the identifiers are left alone");
		delete code;
		delete field;
	}
	// every choice and order of identifiers
	static void every(int cnt)
	{
		int ids[8];
		bool used[N+1];
		for (int i = 0; i <= N; ++i)
			used[i] = i < cnt;
		for (int i = 0; i < cnt; ++i) {
			static const char *const name[] = { "first", "second", "third" };
			int c = vf_choose(name[i], N + 1 - cnt - i), id = 0;
			while (used[id] || c--)
				++id;
			used[id] = true;
			ids[i] = id;
		}
		code(ids, cnt, 1, 0, cnt % 3);
	}
	// some identifiers
	static void some(int cnt, int len, int samples, int shift = 0)
	{
		uint32_t state = vf_choose("sample", samples);
		bool first = state == 0, last = state == 1;
		int ids[cnt], mode = state % 3;
		for (int i = 0; i < cnt; ++i) {
			ids[i] = first ? cnt + i : last ? N - i : cnt + next(state) % (N + 1 - cnt);
			for (bool again = true; again;) {
				again = false;
				for (int j = 0; j < i; ++j)
					again = again | (ids[i] == ids[j]);
				if (again && ++ids[i] > N)
					ids[i] = cnt;
			}
		}
		code(ids, cnt, len, shift, mode);
	}
	// the kernel for any data
	static void kernel(uint32_t factor, int len, int ca, int aa, bool init)
	{
		GF *field = new GF;
		alignas(64) T a[len+64], c[len+64], oa[len+64], oc[len+64];
		for (int i = 0; i < len + 64; ++i) {
			oa[i] = a[i] = vf_range<T>("a", 0, N, i);
			oc[i] = c[i] = vf_range<T>("c", 0, N, i);
		}
		Code::multiply_accumulate((V *)(c + ca), (const V *)(a + aa), index(V(factor)), len, init);
		bool right = true, out = true, same = true;
		for (int i = 0; i < len; ++i)
			right = right & (c[i+ca] == (G::mul(factor, oa[i+aa]) ^ (init ? 0 : oc[i+ca])));
		for (int i = 0; i < len + 64; ++i) {
			if (i < ca || i >= ca + len)
				out = out & (c[i] == oc[i]);
			same = same & (a[i] == oa[i]);
		}
		vf_assert(right, "products are added to the sums, or take their place");
		vf_assert(out, "nothing outside is touched");
		vf_assert(same, "the factors are left alone");
		delete field;
	}
	static void kernels(int factors, int from, int step, int lengths = 3)
	{
		uint32_t state = vf_choose("factor", factors);
		uint32_t f = factors == N ? state + 1 : state % 2 ? 1u << state * 7 % M : 1 + next(state) % N;
		int len = from + step * vf_choose("length", lengths);
		int how = vf_choose("alignment", 3);
		kernel(f, len, how == 1 ? 1 : 0, how == 2 ? 16 / sizeof(T) : 0, vf_choose("init", 2));
	}
};
typedef Crs<3, 0b1011, uint8_t> A;
typedef Crs<4, 0b10011, uint8_t> B;
typedef Crs<8, 0b100011101, uint8_t> C;
typedef Crs<16, 0b10001000000001011, uint16_t> D;
typedef Crs<4, 0b10011, uint16_t> W;
VF_ENTRY(h_gf8_1) { A::every(1); }
VF_ENTRY(h_gf8_2) { A::every(2); }
VF_ENTRY(h_gf8_3) { A::every(3); }
VF_ENTRY(h_gf16_1) { B::every(1); }
VF_ENTRY(h_gf16_2) { B::every(2); }
VF_ENTRY(t_gf16_3) { B::every(3); }
VF_ENTRY(h_gf16_5) { B::some(5, 2, 12); }
VF_ENTRY(h_gf16_8) { B::some(8, 1, 8); }
VF_ENTRY(h_gf16_wide) { W::some(4, 3, 8); }
VF_ENTRY(h_gf256_2) { C::some(2, 3, 12); }
VF_ENTRY(h_gf256_7) { C::some(7, 1, 6); }
VF_ENTRY(h_gf256_simd) { C::some(3, 32, 3); }
VF_ENTRY(h_gf256_mixed) { C::some(3, 16, 3, 16); }
VF_ENTRY(h_gf65536_2) { D::some(2, 2, 6); }
VF_ENTRY(h_gf65536_5) { D::some(5, 1, 4); }
VF_ENTRY(h_gf65536_simd) { D::some(2, 32, 2); }
VF_ENTRY(h_gf256_kernel) { C::kernels(40, 32, 32, 2); }
VF_ENTRY(t_gf256_kernel) { C::kernels(C::N, 32, 32); }
VF_ENTRY(h_gf256_kernel_odd) { C::kernels(12, 0, 17); }
VF_ENTRY(h_gf65536_kernel) { D::kernels(3, 64, 16, 1); }
VF_ENTRY(h_gf65536_kernel_odd) { D::kernels(2, 21, 13, 1); }
VF_ENTRY(h_gf256_matrix) { C::matrix(256, 1 + 16 * vf_choose("count", 9), false); }
VF_ENTRY(h_gf16_matrix) { B::matrix(16, 1 + vf_choose("count", 8), false); }
VF_ENTRY(t_gf65536_kernel) { D::kernels(200, 32, 32, 1); }
VF_BOUNDED(b_gf256) { C::some(1 + vf_range<int>("count", 0, 20), 1 + vf_range<int>("values", 0, 70), 1000, vf_range<int>("shift", 0, 31)); }
VF_BOUNDED(b_gf65536) { D::some(1 + vf_range<int>("count", 0, 20), 1 + vf_range<int>("values", 0, 70), 1000, vf_range<int>("shift", 0, 31)); }
