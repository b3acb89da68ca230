#include "vf.hh"
#include "galois_field.hh"
#include "bose_chaudhuri_hocquenghem_decoder.hh"
#include "rsspec.hh"

static int choices(int n, int k)
{
	int64_t c = 1;
	for (int i = 0; i < k; ++i)
		c = c * (n - i) / (i + 1);
	return c;
}
// the r-th choice of k of n, in lexical order
static void nth_choice(int *out, int n, int k, int r)
{
	for (int i = 0, next = 0; i < k; ++i, ++next) {
		for (int c; r >= (c = choices(n - 1 - next, k - 1 - i)); ++next)
			r -= c;
		out[i] = next;
	}
}
// Bits are counted from the most significant end of the bytes.
static bool bit_at(const uint8_t *buf, int i)
{
	return (buf[i / 8] >> (7 - i % 8)) & 1;
}
// NR consecutive roots from the first power on, K message bits
template <int NR, int K, int M, int64_t POLY, typename T>
struct Dec {
	typedef CODE::GaloisField<M, POLY, T> GF;
	typedef CODE::BoseChaudhuriHocquenghemDecoder<NR, 1, K, GF> BCH;
	typedef CODE::BoseChaudhuriHocquenghemDecoderReference<NR, 1, K, GF> Ref;
	typedef CODE::ReedSolomonErrorCorrection<NR, 1, GF> Algorithm;
	typedef typename GF::ValueType V;
	typedef typename GF::IndexType I;
	typedef GfSpec<M, POLY> G;
	static const int N = (1 << M) - 1, NP = N - K, MSG = K;
	// values of a word of bits at the roots
	static void values(const bool *word, int len, uint32_t *syn)
	{
		uint32_t root = 2;
		for (int r = 0; r < NR; ++r) {
			uint32_t sum = 0;
			for (int i = 0; i < len; ++i)
				sum = G::mul(root, sum) ^ (word[i] ? 1 : 0);
			syn[r] = sum;
			root = G::mul(root, 2);
		}
	}
	// errors at the first places, and erasures at the last of them of which some are wrong
	static void given(const int *places, int errors, int erased, int wrong)
	{
		uint32_t syn[NR];
		bool any = errors || wrong;
		if (!any)
			return;
		GF *field = new GF;
		Algorithm *correct = new Algorithm;
		for (int j = 0; j < NR; ++j)
			syn[j] = 0;
		I erasures[NR+1];
		int mags[NR+1];
		for (int i = 0; i < errors + erased; ++i) {
			mags[i] = i < errors || (wrong >> (i - errors) & 1);
			uint32_t x = G::power(N - 1 - places[i]), p = x;
			for (int j = 0; j < NR; ++j) {
				syn[j] ^= mags[i] ? p : 0;
				p = G::mul(p, x);
			}
			if (i >= errors)
				erasures[i - errors] = I(places[i]);
		}
		V syndromes[NR], magnitudes[NR];
		I locations[NR];
		for (int j = 0; j < NR; ++j) {
			syndromes[j] = V(syn[j]);
			locations[j] = I(0);
			magnitudes[j] = V(0);
		}
		int count = erased ? (*correct)(syndromes, locations, magnitudes, erasures, erased) : (*correct)(syndromes, locations, magnitudes);
		vf_assert(count >= 0 && count <= errors + erased, "the pattern is corrected");
		bool right = true;
		for (int i = 0; i < errors + erased; ++i) {
			T sum = 0;
			for (int k = 0; k < NR; ++k)
				if (k < count && (int)locations[k] == places[i])
					sum ^= magnitudes[k].v;
			right = right & (sum == mags[i]);
		}
		for (int k = 0; k < count && k < NR; ++k) {
			bool known = magnitudes[k].v == 0;
			for (int i = 0; i < errors + erased; ++i)
				known = known | ((int)locations[k] == places[i]);
			right = right & known;
			for (int l = 0; l < k; ++l)
				right = right & ((int)locations[k] != (int)locations[l]);
		}
		vf_assert(right, "the corrections are the pattern");
		delete correct;
		delete field;
	}
	// every choice of places
	static void patterns(int errors, int erased)
	{
		int places[NR+1], er[NR+1], es[NR+1];
		nth_choice(es, N, erased, vf_choose("erased places", choices(N, erased)));
		nth_choice(er, N - erased, errors, vf_choose("wrong places", choices(N - erased, errors)));
		int wrong = vf_choose("wrong ones", 1 << erased);
		for (int i = 0; i < erased; ++i)
			places[errors+i] = es[i];
		for (int i = 0; i < errors; ++i) {
			int p = er[i];
			for (int j = 0; j < erased; ++j)
				p += p >= es[j];
			places[i] = p;
		}
		given(places, errors, erased, wrong);
	}
	static void distinct(int *places, int n, int len)
	{
		for (int i = 0; i < n; ++i) {
			for (bool again = true; again;) {
				again = false;
				for (int j = 0; j < i; ++j)
					again = again | (places[i] == places[j]);
				if (again)
					places[i] = (places[i] + 1) % len;
			}
		}
	}
	// some choices of places, spread over the code word
	static void sampled(int samples)
	{
		uint32_t state = 1 + vf_choose("sample", samples);
		int erased = state % 3 ? 0 : state % (NR + 1), errors = (NR - erased) / 2;
		int places[NR+1];
		for (int i = 0; i < errors + erased; ++i) {
			state = state * 1664525 + 1013904223;
			places[i] = (state >> 8) % N;
		}
		distinct(places, errors + erased, N);
		given(places, errors, erased, state >> 8 & ((1 << erased) - 1));
	}
	// any syndromes: what is corrected leads to a code word
	static void any()
	{
		V syndromes[NR], magnitudes[NR];
		I locations[NR];
		T syn[NR];
		bool zero = true;
		for (int j = 0; j < NR; ++j) {
			// the syndromes of bits are conjugates
			syn[j] = j & 1 ? G::mul(syn[j/2], syn[j/2]) : vf_range<T>("syndrome", 0, N, j);
			zero = zero & (syn[j] == 0);
			locations[j].i = 0;
			magnitudes[j] = V(0);
			syndromes[j] = V(syn[j]);
		}
		vf_assume(!zero);
		GF *field = new GF;
		Algorithm *correct = new Algorithm;
		int count = (*correct)(syndromes, locations, magnitudes);
		vf_assert(count >= -1 && count <= NR, "the count is in range");
		bool legal = true;
		for (int k = 0; k < NR; ++k) {
			if (k >= count)
				continue;
			legal = legal & (locations[k].i < N) & (magnitudes[k].v <= N);
			for (int l = 0; l < k; ++l)
				legal = legal & (locations[k].i != locations[l].i);
		}
		vf_assert(legal, "the locations are different places");
		bool word = true;
		T pw[N+1];
		for (int i = 0; i < N; ++i)
			pw[i] = G::power(i);
		pw[N] = 1;
		for (int j = 0; j < NR; ++j) {
			T sum = syn[j];
			for (int k = 0; k < NR; ++k)
				if (k < count)
					sum ^= G::mul(pw[(1 + j) * (N - 1 - (locations[k].i < N ? locations[k].i : 0)) % N], magnitudes[k].v);
			word = word & (sum == 0);
		}
		vf_assert(count < 0 || word, "the corrections lead to a code word");
		delete correct;
		delete field;
	}
	// Contract of the correction algorithm for its caller: some count, different locations
	// and some magnitudes.
	struct Seen {
		bool called;
		int count, erasures_count;
		T syn[NR], loc[NR], mag[NR], era[NR+1];
	};
	static inline Seen seen;
	static int contract(Algorithm *, const V *syndromes, I *locations, V *magnitudes, const I *erasures, int erasures_count)
	{
		seen.called = true;
		seen.erasures_count = erasures_count;
		seen.count = vf_range<int>("count", -1, NR);
		for (int i = 0; i < erasures_count; ++i)
			seen.era[i] = erasures[i].i;
		for (int i = 0; i < NR; ++i) {
			seen.syn[i] = syndromes[i].v;
			seen.loc[i] = vf_range<T>("location", 0, N - 1, i);
			seen.mag[i] = vf_range<T>("magnitude", 0, N, i);
			for (int j = 0; j < i; ++j)
				vf_assume(i >= seen.count || seen.loc[i] != seen.loc[j]);
			locations[i].i = seen.loc[i];
			magnitudes[i].v = seen.mag[i];
		}
		return seen.count;
	}
	// the decoders around the algorithm, for any word
	static void around(int len, int erased, bool reference)
	{
		const int D = (len + 7) / 8, P = (NP + 7) / 8;
		uint8_t data[D], parity[P], odata[D], oparity[P];
		V vdata[len], vparity[NP];
		bool word[len + NP], after[len + NP];
		T erasures[NR+1], given[NR+1];
		I ierasures[NR+1];
		if (reference) {
			for (int i = 0; i < len + NP; ++i) {
				word[i] = vf_any<bool>("bit", i);
				(i < len ? vdata[i] : vparity[i-len]).v = word[i];
			}
		} else {
			for (int i = 0; i < D; ++i)
				odata[i] = data[i] = vf_any<uint8_t>("data", i);
			for (int i = 0; i < P; ++i)
				oparity[i] = parity[i] = vf_any<uint8_t>("parity", i);
			for (int i = 0; i < len + NP; ++i)
				word[i] = i < len ? bit_at(data, i) : bit_at(parity, i - len);
		}
		for (int i = 0; i < erased; ++i)
			ierasures[i].i = erasures[i] = given[i] = vf_range<T>("erased", 0, len + NP - 1, i);
		if (!vf_is_symbolic())
			return;
		GF *field = new GF;
		uint32_t syn[NR];
		values(word, len + NP, syn);
		seen.called = false;
		seen.count = seen.erasures_count = 0;
		for (int i = 0; i < NR; ++i)
			seen.syn[i] = seen.loc[i] = seen.mag[i] = seen.era[i] = 0;
		int count;
		if (reference) {
			// the table of the location finder is not looked at
			Ref *decode = (Ref *)::operator new(sizeof(Ref));
			count = (*decode)(vdata, vparity, erased ? ierasures : (I *)0, erased, len);
			::operator delete(decode);
		} else {
			BCH *decode = (BCH *)::operator new(sizeof(BCH));
			count = (*decode)(data, parity, erased ? erasures : (T *)0, erased, len);
			::operator delete(decode);
		}
		bool zero = true, bits = true, same = true, rest = true;
		for (int i = 0; i < NR; ++i)
			zero = zero & (syn[i] == 0);
		for (int i = 0; i < len + NP; ++i) {
			if (reference) {
				T v = (i < len ? vdata[i] : vparity[i-len]).v;
				bits = bits & (v <= 1);
				after[i] = v & 1;
			} else {
				after[i] = i < len ? bit_at(data, i) : bit_at(parity, i - len);
			}
			same = same & (after[i] == word[i]);
		}
		for (int i = len; !reference && i < 8 * D; ++i)
			rest = rest & (bit_at(data, i) == bit_at(odata, i));
		for (int i = NP; !reference && i < 8 * P; ++i)
			rest = rest & (bit_at(parity, i) == bit_at(oparity, i));
		vf_assert(rest, "bits outside the word are left alone");
		vf_assert(bits, "bits remain bits");
		vf_assert(!zero || (count == 0 && same), "a code word is left alone");
		vf_assert(zero || seen.called, "the algorithm is asked about any other word");
		bool right = true;
		for (int i = 0; i < NR; ++i)
			right = right & (seen.syn[i] == syn[i]);
		for (int i = 0; i < erased; ++i)
			right = right & (seen.era[i] == given[i] + K - len);
		right = right & (seen.erasures_count == erased);
		vf_assert(!seen.called || right, "the algorithm gets the syndromes and the erased places");
		bool inside = true, flips = true;
		int changed = 0;
		for (int i = 0; i < NR; ++i) {
			inside = inside & (i >= seen.count || seen.loc[i] >= K - len);
			flips = flips & (i >= seen.count || seen.mag[i] <= 1);
			changed += i < seen.count && seen.mag[i] != 0;
		}
		bool fails = seen.count < 0 || !inside || !flips;
		vf_assert(zero || !seen.called || count == (fails ? -1 : changed), "a failure or the number of changed bits is returned");
		vf_assert(count >= 0 || same, "nothing is changed when decoding fails");
		bool applied = true;
		for (int i = 0; i < len + NP; ++i) {
			bool fix = false;
			for (int k = 0; k < NR; ++k)
				if (k < seen.count && seen.loc[k] == K - len + i)
					fix = fix != (seen.mag[k] != 0);
			applied = applied & (after[i] == (word[i] != fix));
		}
		vf_assert(zero || !seen.called || fails || applied, "the corrections are applied at their places");
		delete field;
	}
	// the syndromes alone
	static void syndromes(int len, bool reference)
	{
		GF *field = new GF;
		const int D = (len + 7) / 8, P = (NP + 7) / 8;
		uint8_t *data = new uint8_t[D], parity[P];
		V *vdata = new V[len], vparity[NP], vs[NR];
		bool *word = new bool[len + NP];
		uint32_t want[NR];
		vf_fill(data, D, "data");
		vf_fill(parity, P, "parity");
		for (int i = 0; i < len + NP; ++i) {
			word[i] = i < len ? bit_at(data, i) : bit_at(parity, i - len);
			(i < len ? vdata[i] : vparity[i-len]).v = word[i];
		}
		values(word, len + NP, want);
		T syn[NR];
		int nonzero;
		if (reference) {
			Ref *decode = (Ref *)::operator new(sizeof(Ref));
			nonzero = decode->compute_syndromes(vdata, vparity, vs, len);
			for (int i = 0; i < NR; ++i)
				syn[i] = vs[i].v;
			::operator delete(decode);
		} else {
			BCH *decode = (BCH *)::operator new(sizeof(BCH));
			nonzero = decode->compute_syndromes(data, parity, syn, len);
			::operator delete(decode);
		}
		bool right = true;
		int count = 0;
		for (int i = 0; i < NR; ++i) {
			right = right & (syn[i] == want[i]);
			count += syn[i] != 0;
		}
		vf_assert(right, "the syndromes are the values at the roots");
		vf_assert(nonzero == count, "the number of syndromes that are not zero is returned");
		delete[] data;
		delete[] vdata;
		delete[] word;
		delete field;
	}
	// the whole decoders on code words with errors
	static void mixed(const int *minimal, int polys, int most)
	{
		GF *field = new GF;
		BCH *decode = new BCH;
		Ref *ref = new Ref;
		int len = vf_range<int>("length", 1, K < most ? K : most);
		bool *word = new bool[len + NP];
		for (int i = 0; i < len; ++i)
			word[i] = vf_any<bool>("bit", i);
		// the generator polynomial
		bool gen[NP+1];
		for (int i = 0; i <= NP; ++i)
			gen[i] = i == 0;
		for (int p = 0, deg = 0; p < polys; ++p) {
			int d = 0;
			while (minimal[p] >> (d + 1))
				++d;
			bool next[NP+1];
			for (int i = 0; i <= NP; ++i)
				next[i] = false;
			for (int i = 0; i <= deg; ++i)
				for (int j = 0; j <= d && i + j <= NP; ++j)
					next[i+j] = next[i+j] != (gen[i] && (minimal[p] >> j & 1));
			for (int i = 0; i <= NP; ++i)
				gen[i] = next[i];
			deg += d;
		}
		bool *rem = new bool[len + NP];
		for (int i = 0; i < len + NP; ++i)
			rem[i] = i < len && word[i];
		for (int i = 0; i < len; ++i)
			if (rem[i])
				for (int j = 0; j <= NP; ++j)
					rem[i+j] = rem[i+j] != gen[NP-j];
		for (int i = len; i < len + NP; ++i)
			word[i] = rem[i];
		int erased = vf_range<int>("erased", 0, NR);
		int errors = vf_range<int>("errors", 0, (NR - erased) / 2);
		if (errors + erased > len + NP)
			errors = erased = 0;
		int places[NR+1];
		for (int i = 0; i < errors + erased; ++i)
			places[i] = vf_range<int>("place", 0, len + NP - 1, i);
		distinct(places, errors + erased, len + NP);
		uint8_t *data = new uint8_t[(len + 7) / 8], parity[(NP + 7) / 8];
		V *vdata = new V[len], vparity[NP];
		T erasures[NR+1];
		I ierasures[NR+1];
		bool *bad = new bool[len + NP];
		int changed = errors;
		for (int i = 0; i < len + NP; ++i)
			bad[i] = word[i];
		for (int i = 0; i < errors + erased; ++i) {
			bool flip = i < errors || vf_any<bool>("flip", i);
			changed += i >= errors && flip;
			bad[places[i]] = bad[places[i]] != flip;
			if (i >= errors)
				ierasures[i-errors].i = erasures[i-errors] = places[i];
		}
		for (int i = 0; i < (len + 7) / 8; ++i)
			data[i] = 0;
		for (int i = 0; i < (NP + 7) / 8; ++i)
			parity[i] = 0;
		for (int i = 0; i < len + NP; ++i) {
			int j = i < len ? i : i - len;
			(i < len ? data : parity)[j / 8] |= bad[i] << (7 - j % 8);
			(i < len ? vdata : vparity)[j].v = bad[i];
		}
		int c0 = (*decode)(data, parity, erased ? erasures : (T *)0, erased, len);
		int c1 = (*ref)(vdata, vparity, erased ? ierasures : (I *)0, erased, len);
		bool same = true;
		for (int i = 0; i < len + NP; ++i) {
			same = same & (word[i] == (i < len ? bit_at(data, i) : bit_at(parity, i - len)));
			same = same & (word[i] == (i < len ? vdata : vparity)[i < len ? i : i - len].v);
		}
		vf_assert(c0 == changed && c1 == changed, "the number of changed bits is returned");
		vf_assert(same, "the code word is found");
		delete[] word;
		delete[] rem;
		delete[] bad;
		delete[] data;
		delete[] vdata;
		delete ref;
		delete decode;
		delete field;
	}
};
typedef Dec<6, 5, 4, 0b10011, uint8_t> A;
typedef Dec<4, 7, 4, 0b10011, uint8_t> B;
typedef Dec<6, 16, 5, 0b100101, uint8_t> C;
typedef Dec<20, 64, 7, 0b10001001, uint8_t> D;
typedef Dec<24, 65343, 16, 0b10000000000101101, uint16_t> E;
void *vf_keep[] = { (void *)A::contract, (void *)B::contract };
#define PATTERNS(X, NAME, E, F) VF_ENTRY(h_##NAME##_e##E##f##F) { X::patterns(E, F); }
PATTERNS(A, 15_5, 1, 0)
PATTERNS(A, 15_5, 2, 0)
PATTERNS(A, 15_5, 3, 0)
PATTERNS(A, 15_5, 0, 1)
PATTERNS(A, 15_5, 0, 2)
PATTERNS(A, 15_5, 1, 1)
VF_ENTRY(t_15_5_e1f2) { A::patterns(1, 2); }
PATTERNS(A, 15_5, 2, 1)
PATTERNS(A, 15_5, 0, 3)
PATTERNS(B, 15_7, 1, 0)
PATTERNS(B, 15_7, 2, 0)
PATTERNS(B, 15_7, 0, 1)
PATTERNS(B, 15_7, 1, 1)
PATTERNS(B, 15_7, 0, 2)
PATTERNS(B, 15_7, 1, 2)
PATTERNS(B, 15_7, 0, 3)
VF_ENTRY(t_15_7_e0f4) { B::patterns(0, 4); }
PATTERNS(C, 31_16, 1, 0)
PATTERNS(C, 31_16, 2, 0)
PATTERNS(C, 31_16, 3, 0)
VF_ENTRY(h_127_64_sampled) { D::sampled(60); }
VF_ENTRY(t_65535_sampled) { E::sampled(3); }
VF_ENTRY(h_15_5_any) { A::any(); }
VF_ENTRY(h_15_7_any) { B::any(); }
VF_ENTRY(h_15_5_syndromes) { A::syndromes(1 + vf_choose("length", A::MSG), vf_choose("reference", 2)); }
VF_ENTRY(h_31_16_syndromes) { C::syndromes(1 + vf_choose("length", C::MSG), vf_choose("reference", 2)); }
VF_ENTRY(h_127_64_syndromes) { D::syndromes(1 + 21 * vf_choose("length", 4), vf_choose("reference", 2)); }
VF_ENTRY(t_65535_syndromes) { E::syndromes(30, vf_choose("reference", 2)); }
VF_ENTRY(h_15_5_around) { A::around(1 + vf_choose("length", A::MSG), 2 * vf_choose("erased", 3), false); }
VF_ENTRY(h_15_5_reference) { A::around(1 + vf_choose("length", A::MSG), 2 * vf_choose("erased", 3), true); }
VF_ENTRY(h_15_7_around) { B::around(1 + 2 * vf_choose("length", 4), vf_choose("erased", 4), false); }
VF_ENTRY(h_15_7_reference) { B::around(1 + 2 * vf_choose("length", 4), vf_choose("erased", 4), true); }
VF_BOUNDED(b_15_5_mixed) { static const int l[] = {0b10011, 0b11111, 0b00111}; A::mixed(l, 3, 1000); }
VF_BOUNDED(b_127_64_mixed) { static const int l[] = {0b10001001, 0b10001111, 0b10011101, 0b11110111, 0b10111111, 0b11010101, 0b10000011, 0b11101111, 0b11001011}; D::mixed(l, 9, 1000); }
VF_BOUNDED(b_65535_mixed) { static const int l[] = {
			0b10000000000101101, 0b10000000101110011, 0b10000111110111101,
			0b10101101001010101, 0b10001111100101111, 0b11111011110110101,
			0b11010111101100101, 0b10111001101100111, 0b10000111010100001,
			0b10111010110100111, 0b10011101000101101, 0b10001101011100011}; E::mixed(l, 12, 300); }
