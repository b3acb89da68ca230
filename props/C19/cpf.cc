#include "vf.hh"
#include "prime_field.hh"
#include "cauchy_prime_field_erasure_coding.hh"

template <typename T, T P, typename IO, int MAX>
struct Cpf {
	typedef CODE::PrimeField<T, P> F;
	typedef CODE::CauchyPrimeFieldErasureCoding<F, IO, MAX> Code;
	static const int IOMAX = (1 << 8 * sizeof(IO)) - 1, IDS = P / 2;
	static uint64_t inverse(uint64_t a)
	{
		uint64_t r = 1;
		for (T m = P - 2; m; m >>= 1, a = a * a % P)
			if (m & 1)
				r = r * a % P;
		return r;
	}
	static int next(uint32_t &state)
	{
		state = state * 1664525 + 1013904223;
		return (state >> 8) & 0xffff;
	}
	// sums of products, of which there are at most as many as there are identifiers
	static void steps()
	{
		Code *code = new Code;
		int len = vf_choose("length", 3), first = vf_choose("first", 2), last = vf_choose("last", 2), subs = vf_choose("substitutes", 2);
		uint64_t before[3], a[3], c[3];
		IO in[3], out[3], orig[3];
		F b(vf_range<T>("factor", 0, P - 1));
		IO s = vf_range<IO>("substitute", 0, IOMAX);
		for (int i = 0; i < 3; ++i) {
			before[i] = vf_range<T>("sum", 0, (IDS - 1) * (P - 1) * (P - 1), i);
			code->temp[i] = F(before[i]);
			in[i] = vf_range<IO>("value", 0, IOMAX, i);
			a[i] = subs && in[i] == s ? P - 1 : in[i];
			out[i] = orig[i] = vf_any<IO>("stale", i);
			c[i] = (first ? 0 : before[i]) + b.v * a[i];
			// the outcome of coding with substitutes is data
			vf_assume(!subs || !last || c[i] % P <= IOMAX);
		}
		if (subs)
			code->mac_sub(out, in, b, s, len, first, last);
		else
			code->mac(in, b, len, first, last);
		bool right = true, kept = true;
		for (int i = 0; i < 3; ++i) {
			uint64_t got = subs && last ? out[i] : code->temp[i].v;
			if (i < len)
				right = right & (got == (last ? c[i] % P : c[i]));
			else
				kept = kept & (got == (subs && last ? orig[i] : before[i]));
			kept = kept & (subs && last || out[i] == orig[i]);
		}
		vf_assert(right, "the product is added to the sum, exactly, or reduced at the end");
		vf_assert(kept, "nothing else changes");
		delete code;
	}
	// some value that is not in use
	static void unused(int len)
	{
		Code *code = new Code;
		for (int i = 0; i < (int)(P + 7) / 8; ++i)
			code->used[i] = 255;
		for (int i = 0; i < len; ++i)
			code->temp[i] = F(vf_range<T>("value", 0, P - 1, i));
		int s = code->find_unused(len);
		bool differs = true;
		for (int i = 0; i < len; ++i)
			differs = differs & (code->temp[i].v != (T)s);
		vf_assert(differs, "the substitute is not in use");
		vf_assert(s >= 0 && s <= len, "the substitute is small");
		delete code;
	}
	// all values in use up to some, in some order
	static void crowded(int len, int mul)
	{
		Code *code = new Code;
		for (int i = 0; i < len; ++i)
			code->temp[i] = F(i * mul % len);
		int at = len * vf_choose("place", 4) / 4;
		T other = vf_range<T>("value", 0, P - 1), old = code->temp[at].v;
		code->temp[at] = F(other);
		int s = code->find_unused(len);
		vf_assert(s == (other == old ? len : (int)old), "the substitute is the smallest value not in use");
		delete code;
	}
	// the coefficients
	static void matrix(int from, int to)
	{
		Code *code = new Code;
		for (int i = from; i < to; ++i)
			for (int j = 0; j < i && j < IDS / 2; ++j)
				vf_assert(code->cauchy_matrix(i, j).v * (i + j) % P == 1 && code->cauchy_matrix(i, j).v < P, "the coefficients are the reciprocals of the sums");
		delete code;
	}
	static void inverse_ok(Code *code, const int *ids, int cnt)
	{
		IO rows[cnt];
		for (int i = 0; i < cnt; ++i)
			rows[i] = ids[i];
		uint64_t a[cnt][cnt];
		for (int k = 0; k < cnt; ++k)
			for (int j = 0; j < cnt; ++j)
				a[k][j] = inverse(ids[k] + j);
		bool right = true;
		for (int i = 0; i < cnt; ++i) {
			uint64_t b[cnt];
			for (int k = 0; k < cnt; ++k) {
				b[k] = code->inverse_cauchy_matrix(rows, i, k, cnt).v;
				right = right & (b[k] < P);
			}
			for (int j = 0; j < cnt; ++j) {
				uint64_t sum = 0;
				for (int k = 0; k < cnt; ++k)
					sum = (sum + b[k] * a[k][j]) % P;
				right = right & (sum == (i == j));
			}
		}
		vf_assert(right, "the coefficients of decoding are the inverse of those of encoding");
	}
	// any choice of two
	static void pairs(int first)
	{
		Code *code = new Code;
		for (int second = 2; second < IDS; ++second) {
			int ids[] = { first, second };
			if (first != second)
				inverse_ok(code, ids, 2);
		}
		delete code;
	}
	static int choice(int *ids, int most, int samples)
	{
		uint32_t state = vf_choose("sample", samples);
		bool first = state == 0, last = state == 1;
		int cnt = first || last ? most : 1 + next(state) % most;
		for (int i = 0; i < cnt; ++i) {
			ids[i] = first ? cnt + i : last ? IDS - 1 - i : cnt + next(state) % (IDS - cnt);
			for (bool again = true; again;) {
				again = false;
				for (int j = 0; j < i; ++j)
					again = again | (ids[i] == ids[j]);
				if (again && ++ids[i] >= IDS)
					ids[i] = cnt;
			}
		}
		return cnt;
	}
	static void inverses(int most, int samples)
	{
		Code *code = new Code;
		int ids[most];
		int cnt = choice(ids, most, samples);
		inverse_ok(code, ids, cnt);
		delete code;
	}
	// any data, encoded to blocks and recovered from them
	static void code(const int *ids, int cnt, int len, bool fixed = false)
	{
		Code *code = new Code;
		int all = cnt * len;
		IO data[all], orig[all], blocks[all], back[all], rows[cnt], subs[cnt];
		for (int i = 0; i < all; ++i) {
			data[i] = orig[i] = fixed && i ? IOMAX - i * 5 : vf_range<IO>("data", 0, IOMAX, i);
			blocks[i] = back[i] = 0;
		}
		bool right = true, small = true, same = true, whole = true;
		for (int i = 0; i < cnt; ++i) {
			int sub = code->encode(data, blocks + len * i, ids[i], len, cnt);
			small = small & (sub >= 0 && sub <= len);
			rows[i] = ids[i];
			subs[i] = sub;
			for (int j = 0; j < len; ++j) {
				uint64_t sum = 0;
				for (int k = 0; k < cnt; ++k)
					sum += inverse(ids[i] + k) * data[len*k+j];
				sum %= P;
				right = right & (blocks[len*i+j] == sum || (sum == P - 1 && blocks[len*i+j] == sub));
				right = right & (blocks[len*i+j] != sub || sum == P - 1);
			}
		}
		for (int i = 0; i < all; ++i)
			same = same & (data[i] == orig[i]);
		vf_assert(small, "the substitute fits");
		vf_assert(right, "the blocks are the Cauchy combinations of the data, but for the substitute");
		vf_assert(same, "the data are left alone");
		for (int i = 0; i < cnt; ++i)
			code->decode(back + len * i, blocks, subs, rows, i, len, cnt);
		for (int i = 0; i < all; ++i)
			whole = whole & (back[i] == orig[i]);
		vf_assert(whole, "any blocks, as many as there were, recover the data");
		delete code;
	}
	static void some(int most, int len, int samples, bool fixed = false)
	{
		int ids[most];
		int cnt = choice(ids, most, samples);
		code(ids, cnt, len, fixed);
	}
	// Contracts of the steps for their callers: what they are asked is noted, and the last
	// leaves any field elements.
	struct Seen {
		int calls, len, place;
		const IO *a;
		bool right;
		T b[64];
	};
	static inline Seen seen;
	static inline const IO *seen_data, *seen_subs;
	static inline int seen_cnt;
	static inline IO *seen_out;
	static void mac_contract(Code *code, const IO *a, F b, int len, bool first, bool last)
	{
		int k = seen.calls++;
		seen.right = seen.right & (a == seen_data + len * k) & (first == (k == 0)) & (last == (k == seen_cnt - 1)) & (len == seen.len);
		seen.b[k] = b.v;
		for (int i = 0; last && i < len; ++i)
			code->temp[i] = F(vf_range<T>("sum", 0, P - 1, i));
	}
	static void sub_contract(Code *code, IO *c, const IO *a, F b, IO s, int len, bool first, bool last)
	{
		int k = seen.calls++;
		seen.right = seen.right & (a == seen_data + len * k) & (first == (k == 0)) & (last == (k == seen_cnt - 1)) & (len == seen.len) & (c == seen_out) & (s == seen_subs[k]);
		seen.b[k] = b.v;
	}
	static int unused_contract(Code *code, int len)
	{
		int s = vf_range<int>("substitute", 0, len);
		for (int i = 0; i < len; ++i)
			vf_assume(code->temp[i].v != (T)s);
		return s;
	}
	static void around(int len, int most, int samples)
	{
		int ids[most];
		int cnt = choice(ids, most, samples);
		if (!vf_is_symbolic())
			return;
		Code *code = new Code;
		IO data[cnt * len], block[len], rows[cnt], subs[cnt];
		for (int i = 0; i < cnt; ++i) {
			rows[i] = ids[i];
			subs[i] = i * 7;
		}
		seen.calls = 0;
		seen.len = len;
		seen.right = true;
		seen_data = data;
		seen_cnt = cnt;
		int at = vf_choose("place", cnt < 3 ? cnt : 3);
		at = at == 2 ? cnt - 1 : at;
		int sub = code->encode(data, block, ids[at], len, cnt);
		bool factors = true, back = true;
		for (int k = 0; k < cnt; ++k)
			factors = factors & (seen.b[k] == inverse(ids[at] + k));
		vf_assert(!seen.calls || seen.calls == cnt && seen.right && factors, "every part of the data is added once");
		for (int i = 0; i < len; ++i)
			back = back & ((block[i] == sub ? P - 1 : block[i]) == code->temp[i].v);
		vf_assert(!seen.calls || back, "the substitute stands for the value that does not fit");
		vf_assert(!seen.calls || (sub >= 0 && sub <= len), "the substitute fits");
		seen.calls = 0;
		seen.right = true;
		seen_data = data;
		seen_out = block;
		seen_subs = subs;
		code->decode(block, data, subs, rows, at, len, cnt);
		factors = true;
		for (int k = 0; k < cnt; ++k)
			factors = factors & (seen.b[k] == code->inverse_cauchy_matrix(rows, at, k, cnt).v);
		vf_assert(!seen.calls || seen.calls == cnt && seen.right && factors, "every block is added once");
		delete code;
	}
};
typedef Cpf<uint32_t, 257, uint8_t, 255> A;
typedef Cpf<uint64_t, 65537, uint16_t, 1024> B;
typedef Cpf<uint64_t, 257, uint8_t, 40> C;
void *vf_keep[] = { (void *)A::mac_contract, (void *)A::sub_contract, (void *)B::mac_contract, (void *)B::sub_contract, (void *)A::unused_contract, (void *)B::unused_contract };
#define EACH(NAME, CALL) VF_ENTRY(h_257_##NAME) { A::CALL; } VF_ENTRY(h_65537_##NAME) { B::CALL; }
EACH(steps, steps())
VF_ENTRY(h_257_unused) { A::unused(1 + vf_choose("length", 5)); }
VF_ENTRY(h_65537_unused) { B::unused(1 + vf_choose("length", 2)); }
VF_ENTRY(h_257_crowded) { A::crowded(1 + 2 * vf_choose("length", 20), 2); }
VF_ENTRY(h_257_full) { A::crowded(255, 2); }
VF_ENTRY(h_65537_crowded) { B::crowded(1 + 100 * vf_choose("length", 4), 11); }
EACH(around, around(1 + vf_choose("length", 4), 5, 10))
VF_ENTRY(h_257_matrix) { int k = vf_choose("block", 8); A::matrix(16 * k, 16 * k + 16); }
VF_ENTRY(h_65537_matrix) { int k = vf_choose("block", 4); B::matrix(k * 10922 + (k == 0), k * 10922 + (k == 0) + 1); }
VF_ENTRY(h_257_pairs) { A::pairs(2 + vf_choose("first", 126)); }
VF_ENTRY(h_257_inverses) { A::inverses(24, 12); }
VF_ENTRY(t_257_inverses) { A::inverses(64, 40); }
VF_ENTRY(h_65537_many) { B::some(4, 1, 6, true); }
VF_ENTRY(h_65537_inverses) { B::inverses(12, 12); }
VF_ENTRY(h_257_one) { int ids[] = { 1 + 3 * vf_choose("id", 42) }; A::code(ids, 1, 2); }
VF_ENTRY(h_257_two) { A::some(2, 1, 12); }
VF_ENTRY(h_257_many) { A::some(12, 1, 8, true); }
VF_ENTRY(h_257_long) { C::some(2, 1, 6); }
VF_ENTRY(h_65537_one) { int ids[] = { 1 + 6553 * vf_choose("id", 5) }; B::code(ids, 1, 1); }
VF_BOUNDED(b_257) { A::some(64, 1 + vf_range<int>("length", 0, 254), 1000); }
VF_BOUNDED(b_65537) { B::some(40, 1 + vf_range<int>("length", 0, 1023), 1000); }
