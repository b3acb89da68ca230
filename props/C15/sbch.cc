#include "vf.hh"
#include "short_bch_code_encoder.hh"
// the match is a private function
#define class struct
#include "short_bch_code_decoder.hh"
#undef class

template <int N_, int K_, int G_, int T_>
struct Code {
	static const int N = N_, K = K_, G = G_, T = T_, P = N - K, W = 1 << K;
	typedef CODE::ShortBCHCodeEncoder<N, K, G> Enc;
	typedef CODE::ShortBCHCodeDecoder<N, K, G, T> Dec;
	static int remainder(uint32_t word)
	{
		for (int i = K - 1; i >= 0; --i)
			word ^= (0u - ((word >> (i + P)) & 1)) & ((uint32_t)G << i);
		return word;
	}
	static int weight(uint32_t word)
	{
		int w = 0;
		for (int i = 0; i < N; ++i)
			w += (word >> i) & 1;
		return w;
	}
	// the systematic code word of a message: the multiple of G with these top bits
	static int word_of(int msg) { return (msg << P) ^ remainder(msg << P); }
};
template <typename C>
static void encoding()
{
	typename C::Enc *encode = new typename C::Enc;
	int msg = vf_range<int>("message", 0, C::W - 1);
	int cw = (*encode)(msg);
	vf_assert(C::remainder(cw) == 0, "the code word is a multiple of the generator polynomial");
	vf_assert(cw >> C::P == msg, "the top bits of the code word are the message");
	int8_t soft[C::N];
	vf_fill(soft, C::N, "stale");
	int cw2 = (*encode)(soft, msg);
	bool ok = true;
	for (int i = 0; i < C::N; ++i)
		ok = ok & (soft[i] == 1 - 2 * ((cw >> i) & 1));
	vf_assert(cw2 == cw, "both forms give the same code word");
	vf_assert(ok, "the soft form maps the bits to signs");
	delete encode;
}
// every error pattern up to the radius on every code word
template <typename C, int T>
struct Patterns {
	static void run(typename C::Dec &decode, int cw, int from, int pattern, bool &ok)
	{
		ok = ok & (decode(cw ^ pattern) == cw);
		for (int i = from; i < C::N; ++i)
			Patterns<C, T - 1>::run(decode, cw, i + 1, pattern | (1 << i), ok);
	}
};
template <typename C>
struct Patterns<C, 0> {
	static void run(typename C::Dec &decode, int cw, int, int pattern, bool &ok)
	{
		ok = ok & (decode(cw ^ pattern) == cw);
	}
};
template <typename C>
static void correcting()
{
	typename C::Dec *decode = new typename C::Dec;
	int cw = C::word_of(vf_range<int>("message", 0, C::W - 1));
	bool ok = true;
	Patterns<C, C::T>::run(*decode, cw, 0, 0, ok);
	vf_assert(ok, "every error pattern up to the radius is corrected");
	delete decode;
}
template <typename C>
static void sound()
{
	typename C::Dec *decode = new typename C::Dec;
	// every word is a code word plus an arbitrary value in its check bits
	int cw = C::word_of(vf_range<int>("message", 0, C::W - 1));
	int syn = vf_range<int>("syndrome", 0, (1 << C::P) - 1);
	int base = (*decode)(syn), out = (*decode)(cw ^ syn);
	vf_assert(out == (base == -1 ? -1 : base ^ cw), "the result moves along with the code word");
	if (base == -1) {
		vf_assert(syn != 0, "a code word is never rejected");
	} else {
		vf_assert(base >= 0 && C::remainder(base) == 0, "the result is a code word");
		vf_assert(C::weight(base ^ syn) <= C::T, "the result is within the radius of the input");
	}
	delete decode;
}
// The reference search for the code word that matches best, starting from the hard
// decision (-1 when there is none).  Its invariant is proved for one arbitrary step
// (h_search_step), so it holds for any number of code words.
struct Search {
	int word, best, next = -2;
	void step(int code, int value)
	{
		if (code == word)
			return;
		if (value > best) {
			next = best;
			best = value;
			word = code;
		} else if (value > next) {
			next = value;
		}
	}
	int result() const { return best == next ? -1 : word; }
};
VF_ENTRY(h_search_step)
{
	// "seen" is an arbitrary code word already looked at, "other" the runner-up
	const int M = 1 << 20;
	Search s;
	s.word = vf_range<int>("word", -1, M);
	s.best = vf_range<int>("best", -M, M);
	s.next = vf_range<int>("next", -M, M);
	int seen = vf_range<int>("seen", 0, M), value = vf_range<int>("value of seen", -M, M);
	bool looked = vf_any<bool>("seen already");
	int other = vf_range<int>("other", 0, M), other_value = vf_range<int>("value of other", -M, M);
	int word_value = vf_range<int>("value of word", -M, M);
	auto same = [](int a, int va, int b, int vb) { return a != b || va == vb; };
	auto inv = [&]() {
		bool ok = (s.next < 0 || (other != s.word && other_value == s.next)) && (s.best < 0 || s.next <= s.best);
		ok = ok & (s.word == -1 ? s.best == -1 : word_value == s.best);
		return ok & (!looked || (value <= s.best && (seen == s.word || value <= s.next)));
	};
	vf_assume(same(seen, value, s.word, word_value) && same(seen, value, other, other_value) && same(s.word, word_value, other, other_value));
	vf_assume(inv());
	int code = vf_range<int>("next code word", 0, M), mag = vf_range<int>("its value", -M, M);
	vf_assume(same(seen, value, code, mag) && same(s.word, word_value, code, mag) && same(other, other_value, code, mag));
	int best = s.best, next = s.next, word = s.word;
	s.step(code, mag);
	if (code != word && mag > best) {
		other = word;
		other_value = word_value;
		word_value = mag;
	} else if (code != word && mag > next) {
		other = code;
		other_value = mag;
	}
	looked = looked | (seen == code);
	vf_assert(inv(), "the invariant of the search is kept");
	vf_assert(s.best >= best, "the best match never gets worse");
	// the code word of only zeros has the value zero, so the best is not negative in the end
	if (s.best >= 0 && looked) {
		if (s.result() >= 0)
			vf_assert(word_value == s.best && (seen == s.word || value < word_value), "the result is better than every other code word");
		else
			vf_assert(other != s.word && other_value == s.best && word_value == s.best && value <= s.best, "no result means a tie");
	}
}
template <typename C>
static void likely(bool cases)
{
	typename C::Dec *decode = new typename C::Dec;
	int8_t soft[C::N];
	// by cases of the hard decision
	int signs = 0;
	if (cases) {
		signs = vf_choose("signs", 1 << C::N);
		for (int i = 0; i < C::N; ++i)
			soft[i] = (signs >> i) & 1 ? vf_range<int8_t>("soft", -128, -1, i) : vf_range<int8_t>("soft", 0, 127, i);
	} else {
		vf_fill(soft, C::N, "soft");
		for (int i = 0; i < C::N; ++i)
			signs |= (soft[i] < 0) << i;
	}
	int word = (*decode)(soft);
	auto match = [&](int cw) {
		int sum = 0;
		for (int i = 0; i < C::N; ++i)
			sum += (cw >> i) & 1 ? -soft[i] : 0;
		return sum;
	};
	Search s;
	s.word = (*decode)(signs);
	s.best = -1;
	for (int m = 0; m < C::W; ++m)
		if (s.word == C::word_of(m))
			s.best = match(s.word);
	for (int m = 0; m < C::W; ++m)
		s.step(C::word_of(m), match(C::word_of(m)));
	vf_assert(C::word_of(0) == 0 && s.best >= 0, "the code word of zeros takes part with value zero");
	vf_assert(word == s.result(), "the code word that matches best is returned, or -1 for a tie");
	delete decode;
}
// soft decoding of larger codes: the result is a code word, and no worse than the hard decision
template <typename C>
static void chase(int limit)
{
	typename C::Dec *decode = new typename C::Dec;
	int8_t soft[C::N];
	int cw = C::word_of(vf_range<int>("message", 0, C::W - 1));
	int mode = vf_range<int>("mode", 0, 3);
	uint32_t hard = 0;
	for (int i = 0; i < C::N; ++i) {
		int noise = vf_range<int>("soft", -limit - 1, limit, i);
		int s = ((cw >> i) & 1 ? -1 : 1) * limit / 2;
		int v = mode == 0 ? noise : mode == 1 ? s + noise : mode == 2 ? s + noise / 2 : s + noise / 3;
		soft[i] = std::min(std::max(v, -128), 127);
		hard |= (uint32_t)(soft[i] < 0) << i;
	}
	int word = (*decode)(soft);
	auto match = [&](int w) { int sum = 0; for (int i = 0; i < C::N; ++i) sum += (w >> i) & 1 ? -soft[i] : soft[i]; return sum; };
	if (word != -1) {
		vf_assert(word >= 0 && C::remainder(word) == 0, "the result is a code word");
		if (C::weight(hard ^ cw) <= C::T)
			vf_assert(match(word) >= match(cw), "the result matches no worse than the code word the hard decision gives");
	}
	// the sent code word matches better than every other when no sign is wrong
	if (hard == (uint32_t)cw) {
		bool strict = true;
		for (int i = 0; i < C::N; ++i)
			strict = strict & (soft[i] != 0);
		if (strict)
			vf_assert(word == cw, "a code word received with the right signs is returned");
	}
	delete decode;
}
// The Chase search calls the hard decoder, here by its contract: -1 or a code word, the
// input itself if that is one.  The result is one of the words the hard decoder gave
// and matches no worse than the first of them.
static int answers[16], asked[16], calls;
template <typename C>
int hard_contract(typename C::Dec *, int inp)
{
	int msg = vf_range<int>("answer", -1, C::W - 1, calls);
	int out = msg < 0 ? -1 : C::word_of(msg);
	if (C::remainder(inp) == 0)
		out = inp;
	asked[calls & 15] = inp;
	answers[calls++ & 15] = out;
	return out;
}
template <typename C>
static int match(const int8_t *soft, int w)
{
	int sum = 0;
	for (int i = 0; i < C::N; ++i)
		sum += -((w >> i) & 1) * soft[i];
	return sum;
}
// contract of the match: some value that depends only on the word (the values stay the
// same), -1 for no word
static int which[16], values[16];
static bool used[16];
static int hits;
template <typename C>
int metric_contract(const int8_t *, int word)
{
	// one match for each answer of the hard decoder at most
	int slot = (calls - 1) & 15;
	int value = vf_range<int>("match", -128 * C::N, 128 * C::N, slot);
	if (word < 0)
		value = -1;
	for (int i = 0; i < slot; ++i)
		vf_assume(!used[i] || word != which[i] || value == values[i]);
	which[slot] = word;
	values[slot] = value;
	used[slot] = true;
	hits = 1;
	return value;
}
template <typename C>
static void chase_contract()
{
	int8_t soft[C::N];
	vf_fill(soft, C::N, "soft");
	if (!vf_is_symbolic())
		return;
	typename C::Dec *decode = (typename C::Dec *)::operator new(sizeof(typename C::Dec));
	calls = hits = 0;
	for (int i = 0; i < 16; ++i)
		used[i] = false;
	int word = (*decode)(soft);
	int cw = 0;
	for (int i = 0; i < C::N; ++i)
		cw |= (soft[i] < 0) << i;
	// nothing to say when the functions with these contracts are no longer there
	if (!calls || !hits || calls > 16)
		return;
	bool hard = false;
	for (int i = 0; i < calls; ++i)
		hard = hard | (asked[i] == cw);
	vf_assert(hard, "the search looks at the hard decision");
	bool one = word == -1;
	for (int i = 0; i < calls; ++i)
		one = one | (word == answers[i]);
	vf_assert(one, "the result is -1 or one of the code words found");
	// the measured values are consistent by the contract, so any measurement of it will do
	int best = -1;
	bool measured = word == -1;
	for (int i = 0; i < calls; ++i)
		if (used[i] && word == which[i]) {
			best = values[i];
			measured = true;
		}
	vf_assert(measured, "the match of the result was taken");
	for (int i = 0; i < calls; ++i)
		vf_assert(!used[i] || which[i] == -1 || word == -1 || best >= values[i], "the result matches no worse than any code word found");
	for (int i = 0; i < calls; ++i) {
		bool seen = answers[i] == -1;
		for (int j = 0; j < calls; ++j)
			seen = seen | (used[j] && which[j] == answers[i]);
		vf_assert(seen, "the match of every code word found was taken");
	}
}
template <typename C>
static auto metric_of(const int8_t *soft, int word, int) -> decltype(C::Dec::metric(soft, word)) { return C::Dec::metric(soft, word); }
template <typename C>
static int metric_of(const int8_t *soft, int word, long) { return match<C>(soft, word); }
template <typename C>
static void measuring()
{
	int8_t soft[C::N];
	vf_fill(soft, C::N, "soft");
	int word = vf_range<int>("word", 0, (1ll << C::N) - 1);
	vf_assert(metric_of<C>(soft, word, 0) == match<C>(soft, word), "the match is the sum of the negated values where the word has ones");
	vf_assert(metric_of<C>(soft, -1, 0) == (match<C>(soft, 0) - 1), "no word has the match -1");
}
typedef Code<7, 4, 0b1011, 1> A;
typedef Code<15, 11, 0b10011, 1> B;
typedef Code<15, 7, 0b111010001, 2> C7;
typedef Code<15, 5, 0b10100110111, 3> D;
typedef Code<23, 12, 0b101011100011, 3> E;
typedef Code<23, 12, 0b110001110101, 3> F;
typedef Code<31, 16, 0b1000111110101111, 3> H;
typedef Code<7, 1, 0b1111111, 3> R;
typedef Code<7, 3, 0b10111, 1> S;
typedef Code<15, 4, 0b111101011001, 3> Q;
#define CODES(X, NAME) \
VF_ENTRY(h_##NAME##_encode) { encoding<X>(); } \
VF_ENTRY(h_##NAME##_correct) { correcting<X>(); } \
VF_ENTRY(h_##NAME##_sound) { sound<X>(); }
CODES(A, 7_4)
CODES(B, 15_11)
CODES(C7, 15_7)
CODES(D, 15_5)
CODES(E, 23_12)
CODES(F, 23_12_dual)
CODES(H, 31_16)
CODES(R, 7_1)
CODES(S, 7_3)
CODES(Q, 15_4)
VF_ENTRY(h_7_1_soft) { likely<R>(true); }
VF_ENTRY(h_7_3_soft) { likely<S>(true); }
VF_ENTRY(h_7_4_soft) { likely<A>(true); }
VF_ENTRY(t_15_4_soft) { likely<Q>(true); }
VF_BOUNDED(b_15_11_soft) { chase<B>(127); }
VF_BOUNDED(b_15_7_soft) { chase<C7>(127); }
VF_BOUNDED(b_15_5_soft) { chase<D>(127); }
VF_BOUNDED(b_23_12_soft) { chase<E>(127); }
VF_BOUNDED(b_31_16_soft) { chase<H>(127); }
template int hard_contract<B>(B::Dec *, int);
template int metric_contract<B>(const int8_t *, int);
template int hard_contract<D>(D::Dec *, int);
template int metric_contract<D>(const int8_t *, int);
template int hard_contract<H>(H::Dec *, int);
template int metric_contract<H>(const int8_t *, int);
VF_ENTRY(h_15_11_chase) { chase_contract<B>(); }
VF_ENTRY(h_15_5_chase) { chase_contract<D>(); }
VF_ENTRY(h_31_16_chase) { chase_contract<H>(); }
VF_ENTRY(h_15_metric) { measuring<B>(); }
VF_ENTRY(h_31_metric) { measuring<H>(); }
