#include "vf.hh"
#include "bitman.hh"
#include "galois_field.hh"
#include "bose_chaudhuri_hocquenghem_encoder.hh"
#include "gfspec.hh"

// Bits are counted from the most significant end of the bytes.
static bool bit_at(const uint8_t *buf, int i)
{
	return (buf[i / 8] >> (7 - i % 8)) & 1;
}
static int degree_of(int m)
{
	int d = 0;
	while (m >> (d + 1))
		++d;
	return d;
}
// The remainder of a polynomial given from its highest coefficient on.
static int remainder_of(const bool *poly, int count, int m)
{
	int d = degree_of(m), mask = (1 << d) - 1, state = 0;
	for (int i = 0; i < count; ++i) {
		int top = (state >> (d - 1)) & 1;
		state = ((state << 1) & mask) ^ (poly[i] ? 1 : 0) ^ ((m & mask) & -top);
	}
	return state;
}
struct Small { static constexpr int N = 15, K = 5, NR = 6, M = 4, POLY = 0b10011; typedef uint8_t T;
	template <typename C> static C *make() { return new C({0b10011, 0b11111, 0b00111}); }
	static const int *list(int *n) { static const int l[] = {0b10011, 0b11111, 0b00111}; *n = 3; return l; } };
struct Two { static constexpr int N = 15, K = 7, NR = 4, M = 4, POLY = 0b10011; typedef uint8_t T;
	template <typename C> static C *make() { return new C({0b10011, 0b11111}); }
	static const int *list(int *n) { static const int l[] = {0b10011, 0b11111}; *n = 2; return l; } };
struct Thirty { static constexpr int N = 31, K = 16, NR = 6, M = 5, POLY = 0b100101; typedef uint8_t T;
	template <typename C> static C *make() { return new C({0b100101, 0b111101, 0b110111}); }
	static const int *list(int *n) { static const int l[] = {0b100101, 0b111101, 0b110111}; *n = 3; return l; } };
struct Ham { static constexpr int N = 255, K = 247, NR = 2, M = 8, POLY = 0b100011101; typedef uint8_t T;
	template <typename C> static C *make() { return new C({0b100011101}); }
	static const int *list(int *n) { static const int l[] = {0b100011101}; *n = 1; return l; } };
struct Medium { static constexpr int N = 255, K = 239, NR = 4, M = 8, POLY = 0b100011101; typedef uint8_t T;
	template <typename C> static C *make() { return new C({0b100011101, 0b101110111}); }
	static const int *list(int *n) { static const int l[] = {0b100011101, 0b101110111}; *n = 2; return l; } };
struct Dvb { static constexpr int N = 65535, K = 65343, NR = 24, M = 16, POLY = 0b10000000000101101; typedef uint16_t T;
	template <typename C> static C *make() { return new C({
			0b10000000000101101, 0b10000000101110011, 0b10000111110111101,
			0b10101101001010101, 0b10001111100101111, 0b11111011110110101,
			0b11010111101100101, 0b10111001101100111, 0b10000111010100001,
			0b10111010110100111, 0b10011101000101101, 0b10001101011100011}); }
	static const int *list(int *n) { static const int l[] = {
			0b10000000000101101, 0b10000000101110011, 0b10000111110111101,
			0b10101101001010101, 0b10001111100101111, 0b11111011110110101,
			0b11010111101100101, 0b10111001101100111, 0b10000111010100001,
			0b10111010110100111, 0b10011101000101101, 0b10001101011100011}; *n = 12; return l; } };

template <typename C>
static void word_ok(const bool *word, int count)
{
	int n;
	const int *l = C::list(&n);
	for (int k = 0; k < n; ++k)
		vf_assert(remainder_of(word, count, l[k]) == 0, "the code word is a multiple of every minimal polynomial");
}
template <typename C>
static void roots_ok(const bool *word, int count)
{
	typename C::T root = 2;
	for (int r = 0; r < C::NR; ++r) {
		typename C::T sum = 0;
		for (int i = 0; i < count; ++i)
			sum = GfSpec<C::M, C::POLY>::mul(root, sum) ^ (word[i] ? 1 : 0);
		vf_assert(sum == 0, "the code word vanishes at every designed root");
		root = GfSpec<C::M, C::POLY>::mul(root, 2);
	}
}
// from, to: window of the message that is arbitrary, the rest of it is constant
template <typename C>
static void packed(int len, bool full, bool roots, int from = 0, int to = 1 << 30)
{
	typedef CODE::BoseChaudhuriHocquenghemEncoder<C::N, C::K> BCH;
	const int D = (len + 7) / 8, P = (BCH::NP + 7) / 8;
	BCH *encode = C::template make<BCH>();
	vf_assert(BCH::N == C::N && BCH::K == C::K && BCH::NP == C::N - C::K, "code parameters");
	uint8_t *data = new uint8_t[D], *orig = new uint8_t[D], *parity = new uint8_t[P];
	for (int i = 0; i < D; ++i)
		data[i] = orig[i] = i >= from && i < to ? vf_any<uint8_t>("data", i) : 0;
	for (int i = 0; i < P; ++i)
		parity[i] = vf_any<uint8_t>("stale", i);
	if (full)
		(*encode)(data, parity);
	else
		(*encode)(data, parity, len);
	bool *word = new bool[len + BCH::NP];
	for (int i = 0; i < len; ++i)
		word[i] = bit_at(data, i);
	for (int i = 0; i < BCH::NP; ++i)
		word[len + i] = bit_at(parity, i);
	word_ok<C>(word, len + BCH::NP);
	if (roots)
		roots_ok<C>(word, len + BCH::NP);
	bool same = true;
	for (int i = 0; i < D; ++i)
		same &= data[i] == orig[i];
	vf_assert(same, "the message is left alone");
	delete[] word;
	delete[] data;
	delete[] orig;
	delete[] parity;
	delete encode;
}
template <typename C>
static void unpacked(int len, bool full, bool roots)
{
	typedef CODE::GaloisField<C::M, C::POLY, typename C::T> GF;
	typedef CODE::BoseChaudhuriHocquenghemEncoderReference<C::NR, 1, C::K, GF> BCH;
	typedef typename GF::ValueType V;
	GF *field = new GF;
	BCH *encode = C::template make<BCH>();
	V *data = new V[len], parity[BCH::NP];
	bool *word = new bool[len + BCH::NP];
	for (int i = 0; i < len; ++i) {
		word[i] = vf_any<bool>("data", i);
		data[i] = V(word[i] ? 1 : 0);
	}
	for (int i = 0; i < BCH::NP; ++i)
		parity[i] = V(vf_range<typename C::T>("stale", 0, GF::N, i));
	if (full)
		(*encode)(data, parity);
	else
		(*encode)(data, parity, len);
	bool same = true, binary = true;
	for (int i = 0; i < len; ++i)
		same &= data[i].v == (word[i] ? 1 : 0);
	for (int i = 0; i < BCH::NP; ++i) {
		binary &= parity[i].v <= 1;
		word[len + i] = parity[i].v & 1;
	}
	vf_assert(same, "the message is left alone");
	vf_assert(binary, "parity symbols are bits");
	word_ok<C>(word, len + BCH::NP);
	if (roots)
		roots_ok<C>(word, len + BCH::NP);
	delete[] word;
	delete[] data;
	delete encode;
	delete field;
}
#define CODES(X, NAME) \
VF_ENTRY(h_##NAME) { packed<X>(1 + vf_choose("length", X::K), false, true); } \
VF_ENTRY(h_##NAME##_full) { packed<X>(X::K, true, true); } \
VF_ENTRY(h_##NAME##_reference) { unpacked<X>(1 + vf_choose("length", X::K), false, true); } \
VF_ENTRY(h_##NAME##_reference_full) { unpacked<X>(X::K, true, true); }
CODES(Small, bch15_5)
CODES(Two, bch15_7)
CODES(Thirty, bch31_16)
#define LONGER(X, NAME) \
VF_ENTRY(h_##NAME) { packed<X>(1 + 17 * vf_choose("length", X::K / 17), false, true); } \
VF_ENTRY(h_##NAME##_full) { packed<X>(X::K, true, true); } \
VF_ENTRY(h_##NAME##_reference) { unpacked<X>(1 + 34 * vf_choose("length", X::K / 34), false, true); } \
VF_ENTRY(h_##NAME##_reference_full) { unpacked<X>(X::K, true, true); }
LONGER(Ham, bch255_247)
LONGER(Medium, bch255_239)
VF_ENTRY(h_bch65535) { packed<Dvb>(1 + 71 * vf_choose("length", 5), false, false); }
VF_ENTRY(h_bch65535_reference) { unpacked<Dvb>(1 + 40 * vf_choose("length", 2), false, false); }
VF_ENTRY(h_bch65535_roots) { packed<Dvb>(24, false, true); }
VF_BOUNDED(b_bch65535_full_head) { packed<Dvb>(Dvb::K, true, false, 0, 1); }
VF_ENTRY(h_bch65535_full_middle) { packed<Dvb>(Dvb::K, true, false, 4083, 4085); }
VF_ENTRY(h_bch65535_full_tail) { packed<Dvb>(Dvb::K, true, false, 8150, 8168); }
