#include "vf.hh"
#include "galois_field.hh"
#include "reed_solomon_decoder.hh"
#include "rsspec.hh"

// all ways to choose k of n
static int choices(int n, int k)
{
	int64_t c = 1;
	for (int i = 0; i < k; ++i)
		c = c * (n - i) / (i + 1);
	return c;
}
// the r-th choice, in lexical order
static void nth_choice(int *out, int n, int k, int r)
{
	for (int i = 0, next = 0; i < k; ++i, ++next) {
		for (int c; r >= (c = choices(n - 1 - next, k - 1 - i)); ++next)
			r -= c;
		out[i] = next;
	}
}
template <int NR, int FCR, int M, int POLY, typename T>
struct Dec {
	typedef CODE::GaloisField<M, POLY, T> GF;
	typedef CODE::ReedSolomonDecoder<NR, FCR, GF> RS;
	typedef RsSpec<NR, FCR, M, POLY> Spec;
	static const int N = (1 << M) - 1, K = N - NR;
	// "errors" wrong symbols at the given places and "erased" given places, which may or
	// may not be wrong: the correction algorithm finds them from their syndromes
	static void given(const int *places, int errors, int erased)
	{
		typedef typename GF::ValueType V;
		typedef typename GF::IndexType I;
		T mags[NR+1];
		uint32_t syn[NR];
		for (int j = 0; j < NR; ++j)
			syn[j] = 0;
		bool any = false;
		I erasures[NR+1];
		for (int i = 0; i < errors + erased; ++i) {
			mags[i] = vf_range<T>("magnitude", i < erased ? 0 : 1, N, i);
			any = any | (mags[i] != 0);
			uint32_t x = GfSpec<M, POLY>::power(N - 1 - places[i]);
			uint32_t p = GfSpec<M, POLY>::power((N - 1 - places[i]) * FCR);
			for (int j = 0; j < NR; ++j) {
				syn[j] ^= GfSpec<M, POLY>::mul(p, mags[i]);
				p = GfSpec<M, POLY>::mul(p, x);
			}
			if (i < erased)
				erasures[i] = I(places[i]);
		}
		vf_assume(any);
		GF *field = new GF;
		CODE::ReedSolomonErrorCorrection<NR, FCR, GF> *correct = new CODE::ReedSolomonErrorCorrection<NR, FCR, GF>;
		V syndromes[NR], magnitudes[NR];
		I locations[NR];
		for (int j = 0; j < NR; ++j)
			syndromes[j] = V(syn[j]);
		for (int j = 0; j < NR; ++j) {
			locations[j] = I(0);
			magnitudes[j] = V(0);
		}
		int count = erased ? (*correct)(syndromes, locations, magnitudes, erasures, erased) : (*correct)(syndromes, locations, magnitudes);
		vf_assert(count >= 0 && count <= errors + erased, "the pattern is corrected");
		// what is corrected at each place
		bool right = true;
		for (int i = 0; i < errors + erased; ++i) {
			T sum = 0;
			for (int k = 0; k < NR; ++k)
				if (k < count && (int)locations[k] == places[i])
					sum ^= magnitudes[k].v;
			right = right & (sum == mags[i]);
		}
		for (int k = 0; k < NR; ++k) {
			bool known = k >= count || magnitudes[k].v == 0;
			for (int i = 0; i < errors + erased; ++i)
				known = known | ((int)locations[k] == places[i]);
			right = right & known;
			for (int l = 0; l < k; ++l)
				right = right & (k >= count || (int)locations[k] != (int)locations[l]);
		}
		vf_assert(right, "the corrections are the pattern");
		delete correct;
		delete field;
	}
	// every choice of places
	static void patterns(int errors, int erased)
	{
		int n = N, places[NR+1];
		int er[NR+1], es[NR+1];
		nth_choice(es, n, erased, vf_choose("erased places", choices(n, erased)));
		nth_choice(er, n - erased, errors, vf_choose("wrong places", choices(n - erased, errors)));
		for (int i = 0; i < erased; ++i)
			places[i] = es[i];
		// the wrong places count from those that are not erased
		for (int i = 0; i < errors; ++i) {
			int p = er[i];
			for (int j = 0; j < erased; ++j)
				p += p >= es[j];
			places[erased+i] = p;
		}
		given(places, errors, erased);
	}
	// some choices of places, spread over the code word
	static void sampled(int errors, int erased, int samples)
	{
		int places[NR+1], n = errors + erased;
		uint32_t state = vf_choose("sample", samples);
		bool tail = state == 0, head = state == 1;
		for (int i = 0; i < n; ++i) {
			for (bool again = true; again;) {
				state = state * 1664525 + 1013904223;
				places[i] = head ? i : tail ? N - 1 - i : (state >> 8) % N;
				again = false;
				for (int j = 0; j < i; ++j)
					again = again | (places[i] == places[j]);
			}
		}
		given(places, errors, erased);
	}
	// random choices, and the whole decoder on a random code word
	static void mixed()
	{
		int erased = vf_range<int>("erased", 0, NR);
		int errors = vf_range<int>("errors", 0, (NR - erased) / 2);
		int places[NR+1], n = errors + erased;
		for (int i = 0; i < n; ++i) {
			places[i] = vf_range<int>("place", 0, N - 1, i);
			for (bool again = true; again;) {
				again = false;
				for (int j = 0; j < i; ++j)
					again = again | (places[i] == places[j]);
				if (again)
					places[i] = (places[i] + 1) % N;
			}
		}
		if (n)
			given(places, errors, erased);
		int len = 1 + vf_range<int>("length", 0, (K < 300 ? K : 300) - 1);
		GF *field = new GF;
		RS *decode = new RS;
		T *data = new T[len], *orig = new T[len], parity[NR], par[NR], erasures[NR+1];
		vf_fill_range(orig, len, "data", 0, N);
		Spec::encode(orig, par, len);
		for (int i = 0; i < len; ++i)
			data[i] = orig[i];
		for (int i = 0; i < NR; ++i)
			parity[i] = par[i];
		int changed = 0;
		n = n < len + NR ? n : 0;
		for (int i = 0; i < n; ++i) {
			places[i] %= len + NR;
			for (bool again = true; again;) {
				again = false;
				for (int j = 0; j < i; ++j)
					again = again | (places[i] == places[j]);
				if (again)
					places[i] = (places[i] + 1) % (len + NR);
			}
			T mag = vf_range<T>("wrong", i < erased ? 0 : 1, N, i);
			changed += mag != 0;
			(places[i] < len ? data[places[i]] : parity[places[i]-len]) ^= mag;
			if (i < erased)
				erasures[i] = places[i];
		}
		if (n < erased)
			erased = 0;
		int count = erased ? (*decode)(data, parity, erasures, erased, len) : (*decode)(data, parity, (T *)0, 0, len);
		bool same = true;
		for (int i = 0; i < len; ++i)
			same = same & (data[i] == orig[i]);
		for (int i = 0; i < NR; ++i)
			same = same & (parity[i] == par[i]);
		vf_assert(count == changed, "the number of changed symbols is returned");
		vf_assert(same, "the code word is found");
		delete[] data;
		delete[] orig;
		delete decode;
		delete field;
	}
	// any syndromes: what is corrected leads to a code word
	static void any()
	{
		typedef typename GF::ValueType V;
		typedef typename GF::IndexType I;
		V syndromes[NR], magnitudes[NR];
		I locations[NR];
		T syn[NR];
		bool zero = true;
		for (int j = 0; j < NR; ++j) {
			syn[j] = vf_range<T>("syndrome", 0, N, j);
			zero = zero & (syn[j] == 0);
			syndromes[j] = V(syn[j]);
			locations[j] = I(0);
			magnitudes[j] = V(0);
		}
		vf_assume(!zero);
		GF *field = new GF;
		CODE::ReedSolomonErrorCorrection<NR, FCR, GF> *correct = new CODE::ReedSolomonErrorCorrection<NR, FCR, GF>;
		int count = (*correct)(syndromes, locations, magnitudes);
		vf_assert(count >= -1 && count <= NR, "the count is in range");
		bool legal = true;
		for (int k = 0; k < NR; ++k) {
			if (k >= count)
				continue;
			legal = legal & (locations[k].i < N) & (magnitudes[k].v <= N);
			for (int l = 0; l < k; ++l)
				legal = legal & (locations[k].i != locations[l].i);
		}
		vf_assert(legal, "the locations are different places");
		bool word = true;
		T pw[N+1];
		for (int i = 0; i < N; ++i)
			pw[i] = GfSpec<M, POLY>::power(i);
		pw[N] = 1;
		for (int j = 0; j < NR; ++j) {
			T sum = syn[j];
			for (int k = 0; k < NR; ++k)
				if (k < count)
					sum ^= GfSpec<M, POLY>::mul(pw[(FCR + j) * (N - 1 - (locations[k].i < N ? locations[k].i : 0)) % N], magnitudes[k].v);
			word = word & (sum == 0);
		}
		vf_assert(count < 0 || word, "the corrections lead to a code word");
		delete correct;
		delete field;
	}
	// Contract of the correction algorithm for its caller: some count, different locations
	// and some magnitudes.
	struct Seen {
		bool called;
		int count, erasures_count;
		T syn[NR], loc[NR], mag[NR], era[NR+1];
	};
	static inline Seen seen;
	static int contract(CODE::ReedSolomonErrorCorrection<NR, FCR, GF> *, const typename GF::ValueType *syndromes, typename GF::IndexType *locations, typename GF::ValueType *magnitudes, const typename GF::IndexType *erasures, int erasures_count)
	{
		seen.called = true;
		seen.erasures_count = erasures_count;
		seen.count = vf_range<int>("count", -1, NR);
		for (int i = 0; i < erasures_count; ++i)
			seen.era[i] = erasures[i].i;
		for (int i = 0; i < NR; ++i) {
			seen.syn[i] = syndromes[i].v;
			seen.loc[i] = vf_range<T>("location", 0, N - 1, i);
			seen.mag[i] = vf_range<T>("magnitude", 0, N, i);
			for (int j = 0; j < i; ++j)
				vf_assume(i >= seen.count || seen.loc[i] != seen.loc[j]);
			locations[i].i = seen.loc[i];
			magnitudes[i].v = seen.mag[i];
		}
		return seen.count;
	}
	// the decoder around the algorithm, for any word
	static void around(int len, int erased)
	{
		T data[len], parity[NR], orig[len], par[NR], erasures[NR+1], given[NR+1];
		vf_fill_range(data, len, "data", 0, N);
		vf_fill_range(parity, NR, "parity", 0, N);
		for (int i = 0; i < erased; ++i)
			erasures[i] = given[i] = vf_range<T>("erased", 0, len + NR - 1, i);
		if (!vf_is_symbolic())
			return;
		GF *field = new GF;
		// the table of the location finder is not looked at
		RS *decode = (RS *)::operator new(sizeof(RS));
		for (int i = 0; i < len; ++i)
			orig[i] = data[i];
		for (int i = 0; i < NR; ++i)
			par[i] = parity[i];
		uint32_t syn[NR];
		Spec::syndromes(data, parity, syn, len);
		seen.called = false;
		seen.count = seen.erasures_count = 0;
		for (int i = 0; i < NR; ++i)
			seen.syn[i] = seen.loc[i] = seen.mag[i] = seen.era[i] = 0;
		int count = (*decode)(data, parity, erased ? erasures : (T *)0, erased, len);
		bool zero = true;
		for (int i = 0; i < NR; ++i)
			zero = zero & (syn[i] == 0);
		bool same = true;
		for (int i = 0; i < len; ++i)
			same = same & (data[i] == orig[i]);
		for (int i = 0; i < NR; ++i)
			same = same & (parity[i] == par[i]);
		vf_assert(!zero || (count == 0 && same), "a code word is left alone");
		vf_assert(zero || seen.called, "the algorithm is asked about any other word");
		bool right = true;
		for (int i = 0; i < NR; ++i)
			right = right & (seen.syn[i] == syn[i]);
		for (int i = 0; i < erased; ++i)
			right = right & (seen.era[i] == given[i] + K - len);
		right = right & (seen.erasures_count == erased);
		vf_assert(!seen.called || right, "the algorithm gets the syndromes and the erased places");
		bool inside = true;
		int changed = 0;
		for (int i = 0; i < NR; ++i) {
			inside = inside & (i >= seen.count || seen.loc[i] >= K - len);
			changed += i < seen.count && seen.mag[i] != 0;
		}
		bool fails = seen.count < 0 || !inside;
		vf_assert(zero || !seen.called || count == (fails ? -1 : changed), "a failure or the number of changed symbols is returned");
		vf_assert(count >= 0 || same, "nothing is changed when decoding fails");
		bool applied = true;
		for (int i = 0; i < len + NR; ++i) {
			T fix = 0;
			for (int k = 0; k < NR; ++k)
				if (k < seen.count && seen.loc[k] == K - len + i)
					fix ^= seen.mag[k];
			applied = applied & (i < len ? data[i] == (orig[i] ^ fix) : parity[i-len] == (par[i-len] ^ fix));
		}
		vf_assert(zero || !seen.called || fails || applied, "the corrections are applied at their places");
		::operator delete(decode);
		delete field;
	}
	// the syndromes alone, for every length
	static void syndromes(int len)
	{
		typedef typename GF::ValueType V;
		GF *field = new GF;
		RS *decode = (RS *)::operator new(sizeof(RS));
		T *data = new T[len], parity[NR], syn[NR];
		vf_fill_range(data, len, "data", 0, N);
		vf_fill_range(parity, NR, "parity", 0, N);
		uint32_t want[NR];
		Spec::syndromes(data, parity, want, len);
		int nonzero = decode->compute_syndromes(data, parity, syn, len);
		bool right = true;
		int count = 0;
		for (int i = 0; i < NR; ++i) {
			right = right & (syn[i] == want[i]);
			count += want[i] != 0;
		}
		vf_assert(right, "the syndromes are the values at the roots");
		vf_assert(nonzero == count, "the number of syndromes that are not zero is returned");
		delete[] data;
		::operator delete(decode);
		delete field;
	}
	static void artin_schreier()
	{
		GF *field = new GF;
		CODE::RS::ArtinSchreier<GF> *solve = new CODE::RS::ArtinSchreier<GF>;
		typedef typename GF::ValueType V;
		T a = vf_range<T>("value", 1, N);
		T x = (*solve)(V(a)).v;
		// x^2 + x = a has a solution if and only if the trace of a is zero
		uint32_t trace = 0, y = a;
		for (int i = 0; i < M; ++i) {
			trace ^= y;
			y = GfSpec<M, POLY>::mul(y, y);
		}
		vf_assert(trace <= 1, "a trace is zero or one");
		vf_assert(x <= N, "the result is a field element");
		if (x)
			vf_assert((GfSpec<M, POLY>::mul(x, x) ^ x) == a, "x^2 + x is the given value");
		else
			vf_assert(trace == 1, "there is no solution when none is found");
		delete solve;
		delete field;
	}
};
#define ARTIN(NAME, M, POLY, T) VF_ENTRY(h_artin_schreier_##NAME) { Dec<2, 0, M, POLY, T>::artin_schreier(); }
ARTIN(3, 3, 0b1011, uint8_t)
ARTIN(4, 4, 0b10011, uint8_t)
ARTIN(5, 5, 0b100101, uint8_t)
ARTIN(7, 7, 0b10001001, uint8_t)
ARTIN(8, 8, 0b100011101, uint8_t)
ARTIN(16, 16, 0b10001000000001011, uint16_t)
ARTIN(16_dvb, 16, 0b10000000000101101, uint16_t)
typedef Dec<4, 1, 4, 0b10011, uint8_t> A;
typedef Dec<4, 0, 3, 0b1011, uint8_t> B;
typedef Dec<2, 2, 4, 0b11001, uint8_t> C;
typedef Dec<3, 5, 4, 0b10011, uint8_t> D;
typedef Dec<6, 0, 4, 0b10011, uint8_t> E;
typedef Dec<16, 0, 8, 0b100011101, uint8_t> F;
typedef Dec<6, 1, 8, 0b100011101, uint8_t> H;
typedef Dec<8, 1, 16, 0b10001000000001011, uint16_t> G;
void *vf_keep[] = { (void *)A::contract, (void *)B::contract, (void *)H::contract };
VF_ENTRY(h_15_11_e1) { A::patterns(1, 0); }
VF_ENTRY(h_15_11_e2) { A::patterns(2, 0); }
VF_ENTRY(h_15_11_f1) { A::patterns(0, 1); }
VF_ENTRY(h_15_11_f1e1) { A::patterns(1, 1); }
VF_ENTRY(h_15_11_f2) { A::patterns(0, 2); }
VF_ENTRY(t_15_11_f2e1) { A::patterns(1, 2); }
VF_ENTRY(h_15_11_f3) { A::patterns(0, 3); }
VF_ENTRY(h_15_11_f4) { A::patterns(0, 4); }
VF_ENTRY(h_15_11_any) { A::any(); }
VF_ENTRY(h_7_3_e1) { B::patterns(1, 0); }
VF_ENTRY(h_7_3_e2) { B::patterns(2, 0); }
VF_ENTRY(h_7_3_f1) { B::patterns(0, 1); }
VF_ENTRY(h_7_3_f1e1) { B::patterns(1, 1); }
VF_ENTRY(h_7_3_f2) { B::patterns(0, 2); }
VF_ENTRY(h_7_3_f2e1) { B::patterns(1, 2); }
VF_ENTRY(h_7_3_f3) { B::patterns(0, 3); }
VF_ENTRY(h_7_3_f4) { B::patterns(0, 4); }
VF_ENTRY(h_7_3_any) { B::any(); }
VF_ENTRY(h_15_13_e1) { C::patterns(1, 0); }
VF_ENTRY(h_15_13_f1) { C::patterns(0, 1); }
VF_ENTRY(h_15_13_f2) { C::patterns(0, 2); }
VF_ENTRY(h_15_13_any) { C::any(); }
VF_ENTRY(h_15_12_e1) { D::patterns(1, 0); }
VF_ENTRY(h_15_12_f1e1) { D::patterns(1, 1); }
VF_ENTRY(h_15_12_f2) { D::patterns(0, 2); }
VF_ENTRY(h_15_12_f3) { D::patterns(0, 3); }
VF_ENTRY(h_15_12_any) { D::any(); }
VF_ENTRY(t_15_9_e3) { E::patterns(3, 0); }
VF_ENTRY(h_255_239_e1) { F::patterns(1, 0); }
VF_ENTRY(h_15_11_syndromes) { A::syndromes(1 + vf_choose("length", A::K)); }
VF_ENTRY(h_7_3_syndromes) { B::syndromes(1 + vf_choose("length", B::K)); }
VF_ENTRY(h_255_239_syndromes) { F::syndromes(1 + 14 * vf_choose("length", 5)); }
VF_ENTRY(t_255_239_syndromes) { F::syndromes(239); }
VF_ENTRY(h_65535_syndromes) { G::syndromes(1 + 3 * vf_choose("length", 4)); }
VF_ENTRY(h_15_11_around) { A::around(1 + vf_choose("length", A::K), 0); }
VF_ENTRY(h_15_11_around_f) { A::around(1 + 2 * vf_choose("length", 6), 1 + vf_choose("erased", 4)); }
VF_ENTRY(h_7_3_around) { B::around(1 + vf_choose("length", B::K), vf_choose("erased", 5)); }
VF_ENTRY(h_255_249_around) { H::around(1 + 3 * vf_choose("length", 3), 0); }
VF_ENTRY(h_255_239_e2) { F::sampled(2, 0, 6); }
VF_ENTRY(h_255_239_f1) { F::sampled(0, 1, 12); }
VF_ENTRY(h_255_239_f2) { F::sampled(0, 2, 12); }
VF_ENTRY(h_255_239_f3) { F::sampled(0, 3, 12); }
VF_ENTRY(h_65535_f2) { G::sampled(0, 2, 2); }
VF_BOUNDED(b_15_11_mixed) { A::mixed(); }
VF_BOUNDED(b_15_9_mixed) { E::mixed(); }
VF_BOUNDED(b_255_239_mixed) { F::mixed(); }
VF_BOUNDED(b_65535_mixed) { G::mixed(); }
